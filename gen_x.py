"""Random C programs for the shell back end with every value known to stay in 32 bits (oracle: gcc on the same text):
unusual nestings of operators, calls and ways out of statements."""
import random
GENS = ('shexprs', 'shconds', 'shdeep', 'constsx', 'literalsx', 'placex', 'shmem')
PRE = r'''int putchar(int c);
void p1(int n) { if (n > 9) p1(n / 10); putchar(48 + n % 10); }
void p(int n) { if (n < 0) { putchar(45); n = 0 - n; } p1(n); putchar(10); }
'''
M = 2**31 - 1
class Bad(Exception): pass
def chk(v):
    if not -M <= v <= M: raise Bad()
    return v
def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q
BIN = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '==', '!=', '<', '>', '<=', '>=', '&&', '||']
PREC = {'*': 10, '/': 10, '%': 10, '+': 9, '-': 9, '<<': 8, '>>': 8, '<': 7, '>': 7, '<=': 7, '>=': 7, '==': 6, '!=': 6, '&': 5, '^': 4, '|': 3, '&&': 2, '||': 1}
def binop(o, a, b):
    if o == '/': 
        if b == 0: raise Bad()
        return cdiv(a, b)
    if o == '%':
        if b == 0: raise Bad()
        return a - b * cdiv(a, b)
    if o in ('<<', '>>'):
        if not 0 <= b <= 31 or o == '<<' and a < 0: raise Bad()
    return chk(int({'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '<<': lambda: a << b, '>>': lambda: a >> b,
      '==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b}[o]()))
class X:
    def __init__(s, r, env): s.r, s.env = r, env
    # a tree: (text, value, precedence); parentheses only where C needs them, so that the ones of the script matter
    def par(s, e, p, strict=False): return '(%s)' % e[0] if e[2] < p or strict and e[2] == p or s.r.random() < .04 else e[0]
    def leaf(s):
        k = s.r.random()
        if k < .55: v = s.r.choice(sorted(s.env)); return (v, s.env[v], 20)
        if k < .9: n = s.r.choice([0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 100, 255, 65535, s.r.randint(0, 1000)]); return (s.r.choice(['%d', '%d', '0x%x', '0%o']) % n if n else '0', n, 20)
        c = s.r.choice('aZ09 '); return ("'%s'" % c, ord(c), 20)
    def expr(s, d, logic=True):
        for _ in range(30):
            try: return s.expr_(d, logic)
            except Bad: pass
        return s.leaf()
    def expr_(s, d, logic=True):
        k = s.r.random()
        if d <= 0 or k < .12: return s.leaf()
        if k < .26:
            o = s.r.choice(['-', '~', '!', '+', '(int) ']); e = s.expr(d - 1, logic)
            if s.r.random() < .3: e = ('(%s)' % e[0], e[1], 20)
            t = s.par(e, 18)
            if o == '+' and t[0] == '+' or o == '-' and t[0] == '-': t = ' ' + t
            return (o + t, {'-': chk(-e[1]), '~': chk(~e[1]), '!': int(not e[1]), '+': e[1], '(int) ': e[1]}[o], 18)
        if k < .33:
            c, a, b = s.expr(d - 1, logic), s.expr(d - 1, logic), s.expr(d - 1, logic)
            return ('%s ? %s : %s' % (s.par(c, 1), s.par(a, 1), s.par(b, 1)), a[1] if c[1] else b[1], 0)
        o = s.r.choice(BIN if logic else BIN[:-2]); p = PREC[o]
        a, b = s.expr(d - 1, logic), s.expr(d - 1, logic)
        if s.r.random() < .4 and p > 2:
            # a right operand of the same precedence: the grouping has to be kept
            o2 = s.r.choice([x for x in PREC if PREC[x] == p]); c, e = (s.leaf(), s.leaf()) if p != 8 else [(str(n), n, 20) for n in (s.r.randint(0, 3), s.r.randint(0, 2))]
            b = ('%s %s %s' % (c[0], o2, e[0]), binop(o2, c[1], e[1]), p)
        if o == '&&': v = int(bool(a[1] and b[1]))
        elif o == '||': v = int(bool(a[1] or b[1]))
        else: v = binop(o, a[1], b[1])
        return ('%s %s %s' % (s.par(a, p), o, s.par(b, p, True)), v, p)
def shexprs(seed, tgt):
    r = random.Random('x%d' % seed); src = PRE + 'int g1 = 5; int g2 = -3; int arr[8];\nint id(int x) { return x; }\nint f(int a, int b, int c) {\n  int x; int y;\n'
    env = dict(a=r.randint(0, 9), b=r.choice([-1, 0, 1, 7, 1000]), c=r.randint(-20, 300), g1=5, g2=-3); args = (env['a'], env['b'], env['c'])
    src += '  x = %d; y = %d;\n' % (r.randint(0, 40), 2); import re
    m = re.search(r'x = (\d+); y', src); env['x'] = int(m.group(1)); env['y'] = 2
    X_ = X(r, env)
    for _ in range(14):
        k = r.random(); e = X_.expr(r.randint(2, 4))
        if k < .4: src += '  p(%s);\n' % e[0]
        elif k < .55: v = r.choice(['x', 'y', 'g1', 'g2', 'a']); src += '  %s = %s;\n  p(%s);\n' % (v, e[0], v); env[v] = e[1]
        elif k < .7: src += '  if (%s) p(1); else p(2);\n' % e[0]
        elif k < .8: i = r.randint(0, 7); src += '  arr[%d] = %s;\n  p(arr[%d] - 1);\n' % (i, e[0], i) if e[1] > -M else ''
        elif k < .9: e2 = X_.expr(2, False); e = X_.expr(2, False); src += '  p(id(%s) - id(%s));\n' % (e[0], e2[0]) if abs(e[1]) + abs(e2[1]) < M else ''
        else:
            v = r.choice(['x', 'y', 'g1', 'g2']); o = r.choice(['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>'])
            try: n = binop(o, env[v], e[1])
            except Bad: continue
            src += '  p(%s %s= %s);\n' % (v, o, e[0]) ; env[v] = n
    return src + '  return 0;\n}\nint main() { int i; for (i = 0; i < 8; i++) arr[i] = i; f(%d, %d, %d); return 0; }\n' % args

# ---- calls in conditions, at all depths ----
class C:
    def __init__(s, r): s.r = r; s.n = 0
    def call(s, d):
        k = s.r.randint(0, 4); s.n += 1
        # one argument at most calls: the order in which arguments are evaluated is not specified
        me = s.n; one = s.r.randint(1, 8); pure = s.r.random() < .4
        return 'f%d(%s)' % (k, ', '.join(str(me) if i == 0 else s.val(d - 1) if i == one else s.pure(2) if pure else s.r.choice(['a', 'b', 'g', '0', '1', 'a + 1', 'a == b', 'b - 3']) for i in range(k + 1)))
    def pure(s, d):
        # calls without side effects, in any number
        k = s.r.random()
        if d <= 0 or k < .25: return s.r.choice(['a', 'b', 'g', '1', '2'])
        if k < .6: return 'q(%s)' % s.pure(d - 1)
        return 'q2(%s, %s)' % (s.pure(d - 1), s.pure(d - 1))
    def val(s, d):
        # operands of one operator: at most one of them calls (the order of the others is not specified)
        k = s.r.random()
        if d <= 0 or k < .3: return s.r.choice(['a', 'b', 'g', '0', '1', '2'])
        c = s.call(1 if s.r.random() < .8 else d)
        if k < .5: return c
        if k < .6: return '(%s) %s' % (s.r.choice(['char', 'int']), c)
        if k < .7: return '%s%s' % (s.r.choice(['!', '-', '~', '+', '(']), c) + ('' if 1 else '') if False else s.r.choice(['!%s', '-%s', '~%s', '(%s)', '+%s', '!(%s)', '-(%s)']) % c
        if k < .85: return '(%s %s %s)' % (c, s.r.choice(['+', '-', '&', '|', '<', '==', '!=', '>=']), s.r.choice(['a', 'b', '1', '3']))
        return '(%s %s %s)' % (s.r.choice(['a', 'b', '1', '3']), s.r.choice(['+', '-', '&', '|', '<', '==', '!=', '>=']), c)
    def cond(s, d):
        k = s.r.random()
        if d <= 0 or k < .2: return s.val(2)
        if k < .3: return '!(%s)' % s.val(2)  # a call under && or || is supported in tests only, and not below !
        if k < .36: return '(%s)' % s.cond(d - 1)
        a, b = s.cond(d - 1), s.cond(d - 1)
        return '(%s %s %s)' % (a, s.r.choice(['&&', '||']), b)
def shconds(seed, tgt):
    r = random.Random('c%d' % seed); g = C(r); src = PRE + 'int g = 1; int n = 0;\nint q(int x) { return (x * 3 + 1) & 63; }\nint q2(int x, int y) { int t; t = q(y); return (x * 2 - t) & 31; }\n'
    for k in range(5):
        src += 'int f%d(%s) { int l; l = %s; p(l); n = n + 1; return (l ^ (l >> %d) ^ n) & %d; }\n' % (k, ', '.join('int x%d' % i for i in range(k + 1)), ' + '.join('x%d * %d' % (i, i + 1) for i in range(k + 1)), r.randint(0, 3), r.choice([1, 1, 3]))
    src += 'int t(int a, int b) {\n  int i; int x;\n  i = 0; x = 0;\n'
    for _ in range(7):
        k = r.random(); c = g.cond(r.randint(1, 3))
        if k < .45: src += '  if (%s) p(%d); else p(%d);\n' % (c, 1000 + g.n, 2000 + g.n)
        elif k < .6: src += '  i = 0;\n  while (i < 3 && %s) { i = i + 1; p(%d); }\n' % (c, 3000 + g.n)
        elif k < .7: src += '  i = 0;\n  do { i = i + 1; p(%d); } while (i < 3 && %s);\n' % (4000 + g.n, c)
        elif k < .8: src += '  for (i = 0; i < 3 && %s; i++) p(%d);\n' % (c, 5000 + g.n)
        elif k < .9: src += '  if (%s) p(1); else if (%s) p(2); else p(3);\n' % (c, g.cond(2))
        else: src += '  x = %s; p(x);\n' % g.val(3)
    return src + '  return x;\n}\nint main() { %s return 0; }\n' % ' '.join('t(%d, %d);' % (r.randint(0, 3), r.randint(0, 3)) for _ in range(2))

# ---- deeply nested ways out ----
def shdeep(seed, tgt):
    r = random.Random('d%d' % seed); cnt = [0]
    def tr(): cnt[0] += 1; return 'p(%d);' % cnt[0]
    def out(depth):
        k = r.random()
        if k < .5: return 'return%s;' % ' n' if k < .3 else 'return f2(n);'
        if k < .75 and depth: return 'break;'
        if depth: return 'continue;'
        return tr()
    def cond(): return '(n & %d) == %d' % (r.choice([(1, 0), (1, 1), (3, 2), (7, 5), (3, 0)]))
    loops = [False]
    def nest(depth, level):
        # a loop, conditional, switch or block around the next level, with statements before and after at random
        pre = tr() + ' ' if r.random() < .4 else ''; post = ' ' + tr() if r.random() < .35 else ''
        k = r.random() * (.6 if loops[0] else 1); fuel = 'if (--fuel < 0) return 0 - 1; '
        if level == 0: return pre + ('n = n + 1; ' if r.random() < .7 else '') + r.choice(['%s' % out(depth), 'if (%s) { %s }' % (cond(), out(depth)), 'if (%s) %s else { %s %s }' % (cond(), out(depth), tr(), out(depth))])
        i = 'i%d' % level
        if k < .3: return pre + 'while (%s) { %sn = n + 1; %s }' % (r.choice(['1', 'n < 40', cond()]), fuel, nest(depth + 1, level - 1)) + post
        if k < .55: return pre + 'for (%s = 0; %s < %d; %s++) { %sn = n + 1; %s }' % (i, i, r.randint(1, 3), i, fuel, nest(depth + 1, level - 1)) + post
        if k < .65: return pre + 'do { %sn = n + 1; %s } while (%s);' % (fuel, nest(depth + 1, level - 1), r.choice(['n < 40', cond()])) + post
        if k < .8: return pre + 'if (%s) { %s }%s' % (cond(), nest(depth, level - 1), ' else { %s }' % tr() if r.random() < .6 else '') + post
        if k < .9:
            # clauses that end with break or return; no break in the middle (not supported)
            return pre + 'switch (n & 3) { case 0: %s break; case 1: while (n < 50) { n = n + 3; %s } %s %s default: %s break; }' % (tr(), tr(), tr(), r.choice(['break;', 'return 7;']), r.choice([tr(), 'n = n + 3; ' + tr()])) + ' n = n + 1; ' + nest(depth, level - 1)
        return pre + '{ %s }' % nest(depth, level - 1) + post
    src = PRE + 'int fuel = 60;\nint f2(int n) { p(n + 500); return n + 1; }\n'
    calls = ''
    for k in range(3):
        L = r.randint(3, 7); loops[0] = r.random() < .4
        tail = r.random() < .6
        src += 'int h%d(int n) { int i1; int i2; int i3; int i4; int i5; int i6; int i7; %s%s }\n' % (k, nest(0, L), '' if tail else ' p(9999); return n;') if not tail else 'void h%d(int n) { int i1; int i2; int i3; int i4; int i5; int i6; int i7; %s }\n' % (k, nest(0, L).replace('return 0 - 1', 'return').replace('return n + 5', 'return').replace('return n', 'return').replace('return 7', 'return').replace('return f2(n)', '{ f2(n); return; }').replace('; return; };', '; return; }'))
        for a in range(3): calls += ' fuel = 60; ' + ('h%d(%d);' if tail else 'p(h%d(%d));') % (k, r.randint(0, 9)) + ' p(7777);'
    # a switch at the end of a function, its clauses beginning with a statement that may return
    def clause():
        # (a return below an if in the middle of a clause is not supported)
        ex = r.choice(['return;', '{ %s return; }' % tr(), '{ n = n + 1; return; }'])
        s = r.choice(['while (n < b) %s' % ex, 'while (b) %s' % ex, 'for (i1 = 0; i1 < b; i1++) %s' % ex, 'do %s while (b);' % ex, tr(), tr(), tr()])
        return s + ' ' + tr() + ' ' + r.choice(['break;', 'break;', 'return;'])
    for k in range(2):
        src += 'void s%d(int n, int b) { int i1; %s switch (n & 3) { %s default: %s } }\n' % (k, r.choice(['', tr()]), ' '.join('case %d: %s' % (c, clause()) for c in r.sample(range(4), r.randint(1, 3))), clause())
        for a in range(4): calls += ' fuel = 60; s%d(%d, %d); p(7777);' % (k, a, r.choice([0, 0, 1, 2, 5]))
    return src + 'int main() {%s return 0; }\n' % calls


# ---- constant expressions over the whole range of int (no step leaves it)
class K(X):
    def __init__(s, r): s.r = r; s.env = {}
    def leaf(s):
        n = s.r.choice([0, 1, 2, 3, 7, 31, 255, 65535, 65536, M, M, M - 1, M - 2, 1 << 30, (1 << 30) - 1, s.r.randint(0, M), s.r.randint(0, 1000), s.r.getrandbits(s.r.randint(1, 31))])
        if n and s.r.random() < .4: return ('-%d' % n, -n, 18)
        return (s.r.choice(['%d', '%d', '0x%x', '0%o']) % n if n else '0', n, 20)
def constsx(seed, tgt):
    r = random.Random('k%d' % seed); k = K(r); out = []; m = []
    def e(d):
        for _ in range(50):
            x = k.expr(d)
            if '(int)' not in x[0] and (tgt != 'sh' or '?' not in x[0]): return x
        return k.leaf()
    for i in range(8):
        u = r.random(); x = e(r.randint(1, 3))
        if u < .5:
            y = e(2)
            if r.random() < .5: a, b = k.leaf(), k.leaf(); o = r.choice(['<', '>', '<=', '>=', '==', '!=']); y = ('%s %s %s' % (a[0], o, b[0]), 0, 7)
            out.append('enum { A%d = %s, B%d = %s };' % (i, x[0], i, y[0])); m += ['p(A%d);' % i, 'p(B%d);' % i]
        elif u < .8: out.append('#if %s\nint i%d() { return 1; }\n#else\nint i%d() { return 2; }\n#endif' % (x[0], i, i)); m.append('p(i%d());' % i)
        else:
            if tgt == 'sh' and x[1] < 0: continue
            out.append('int g%d(int x) { switch (x) { case (%s): return 1; default: return 2; } return 3; }' % (i, x[0])); m.append('p(g%d(%d));' % (i, x[1]) + (' p(g%d(%d));' % (i, x[1] - 1) if x[1] > -M else ''))
    return PRE + '\n'.join(out) + '\nint main() { %s return 0; }\n' % ' '.join(m)

# ---- literals of all sizes and bases
def literalsx(seed, tgt):
    r = random.Random('l%d' % seed); m = []
    for _ in range(25):
        b = r.randint(1, 31); n = r.choice([r.getrandbits(b), (1 << b) - 1, 1 << (b - 1), (1 << b) - 1 - r.getrandbits(b) // 16])
        m.append('p(%s);' % (r.choice(['%d', '0x%x', '0x%X', '0%o', '0%o']) % n))
    return PRE + 'int main() { %s return 0; }\n' % ' '.join(m)

# ---- objects of all kinds do not overlap
def placex(seed, tgt):
    r = random.Random('p%d' % seed); out = ['struct S1 { char a; short b; int c; }; struct S2 { char a[3]; }; struct S3 { int *p; short q; char r; };']; st = []; ck = []; val = [0]
    sty = {'struct S1': ['a', 'b', 'c'], 'struct S2': ['a[0]', 'a[1]', 'a[2]'], 'struct S3': ['q', 'r']}
    def decl(nm, static):
        val[0] += 1; v = val[0] % 100 + 1; k = r.random(); s = 'static ' if static else ''
        ty = r.choice(['char', 'short', 'int', 'char', 'short', 'int', 'unsigned int', 'unsigned char', 'unsigned short'])
        if k < .5:
            ini = r.random() < .5; return '%s%s %s%s;' % (s, ty, nm, ' = %d' % v if ini else ''), '%s = %s + %d;' % (nm, nm, v), 'p(%s);' % nm
        if k < .75:
            n = r.randint(1, 7); return '%s%s %s[%d];' % (s, ty, nm, n), ' '.join('%s[%d] = %d;' % (nm, i, (v + i * 7) % 120) for i in range(n)), ' '.join('p(%s[%d]);' % (nm, i) for i in range(n))
        t = r.choice(sorted(sty)); return '%s%s %s;' % (s, t, nm), ' '.join('%s.%s = %d;' % (nm, f, (v + i) % 120) for i, f in enumerate(sty[t])), ' '.join('p(%s.%s);' % (nm, f) for f in sty[t])
    calls = []; n = 0
    for i in range(r.randint(3, 6)):
        for _ in range(r.randint(0, 3)): n += 1; d, a, c = decl('g%d' % n, False); out.append(d); st.append(a); ck.append(c)
        L = []
        for _ in range(r.randint(1, 5)): n += 1; L.append(decl('l%d' % n, r.random() < .5))
        pairs = [x for x in L if 'static' in x[0]]; autos = [x for x in L if 'static' not in x[0]]
        # initialized automatic objects only: their first value is not specified otherwise
        ds = [x[0] for x in L]; pre = ' '.join(x[1] if '=' in x[0] or '[' in x[0] or 'struct' in x[0] else x[1].split(' = ')[0] + ' = 3;' for x in autos)
        out.append('void f%d(int w) { %s %s if (w) { %s } %s }' % (i, ' '.join(ds), pre, ' '.join(x[1] for x in pairs), ' '.join(x[2] for x in L if 'static' not in x[0]) + ' if (w == 0) { %s }' % ' '.join(x[2] for x in pairs)))
        calls.append('f%d(%%d);' % i)
    order = calls[:]; r.shuffle(order)
    return PRE + '\n'.join(out) + '\nint main() { %s %s %s %s %s return 0; }\n' % (' '.join(c % 1 for c in order), ' '.join(st), ' '.join(c % 0 for c in calls), ' '.join(ck), ' '.join(c % 1 for c in order[:1]))


# ---- memory through pointers, indexes and members (values kept below 1024)
def shmem(seed, tgt):
    r = random.Random('m%d' % seed)
    src = 'void *malloc(int n);\n' + PRE.replace('int putchar', 'int putchar', 1) + 'struct N { int v; struct N *next; int w; int *q; };\nint ga[10]; int gz; int *gp; struct N *gn;\nint sq(int x) { return (x * x + 1) & 63; }\nint fst(int *p) { return *p; }\nint nv(struct N *n) { return n->v; }\nint *adv(int *p, int k) { return p + k; }\nstruct N *nx(struct N *n) { return n->next; }\n'
    def node(d=2):
        k = r.random()
        if d == 0 or k < .5: return r.choice(['n', 'm', 'gn'])
        return '%s->next' % node(d - 1)
    def idx(): return r.choice(['0', '1', '2', 'i', 'j', 'i + 1', 'j + 1', 'i * 2', '(i)', '(i + j)'])
    def base(): return r.choice(['ga', 'pa', 'gp', node(1) + '->q'])
    def lv():
        k = r.random()
        if k < .15: return r.choice(['x', 'y', 'gz'])
        if k < .5: return '%s[%s]' % (base(), idx())
        if k < .6: return '*%s' % r.choice(['pa', 'gp', '(pa + i)', '(gp + i)', '(%s)' % (node(1) + '->q')])
        return '%s->%s' % (node(), r.choice('vw'))
    def addr():
        k = r.random()
        if k < .3: return '&%s[%s]' % (base(), idx())
        if k < .6: return '&%s->%s' % (node(), r.choice('vw'))
        if k < .8: return '%s + %s' % (r.choice(['pa', 'gp', 'ga']), r.choice(['i', 'j', '1', '2']))
        return base()
    def val(d=2):
        k = r.random()
        if d == 0 or k < .2: return r.choice(['x', 'y', 'i', 'j', 'gz', '3', '17'])
        if k < .55: return lv()
        if k < .7: return '(%s %s %s)' % (val(d - 1), r.choice(['+', '-', '*', '&', '|', '^']), val(d - 1))
        return '(%s - %s)' % (lv(), lv())
    out = []
    def rd(v): return '%s = (%s) & 1023;' % (v, v) if v[0] != '*' else '%s = (%s) & 1023;' % (v, v)
    for _ in range(24):
        k = r.random(); v = lv()
        if k < .25: s = '%s = (%s) & 1023;' % (v, val())
        elif k < .4: s = '%s %s %s; %s' % (v, r.choice(['+=', '-=', '^=', '|=', '&=', '*=']), r.choice(['i', '3', '(%s & 15)' % lv()]), rd(v))
        elif k < .5: w = '(%s)' % v if v[0] == '*' else v; s = r.choice(['%s++;', '++%s;', 'p(%s++);', 'p(++%s);', 'p(--%s);', 'p(%s--);', '%s--;']) % w
        elif k < .6: s = 'p(fst(%s));' % addr()
        elif k < .65: s = 'p(nv(%s));' % node()
        elif k < .7: s = 't = %s; *t = %s & 1023; p(t[0]);' % (addr(), val(1))
        elif k < .75: s = 't = adv(%s, %s); p(*t); *t = %d;' % (r.choice(['pa', 'ga', 'gp']), r.choice(['i', '2']), r.randint(0, 99))
        elif k < .8: s = 'n = nx(%s); p(n->w);' % node()
        elif k < .85: s = 't = %s; %s p(*t);' % (r.choice(['pa', 'ga']), r.choice(['t++;', 't += i;', 't += 2; t--;', 't = t + 1;', 't += 3; t -= j;', '++t;']))
        elif k < .9: s = 'if (%s %s %s) p(1); else p(2);' % (val(1), r.choice(['<', '>', '==', '!=']), lv())
        elif k < .95: s = 't = %s; i = 0; while (i < 3) { p(*t++); i++; } i = %d;' % (r.choice(['pa', 'ga']), r.randint(0, 3))
        else: s = 'i = (%s) & 3; j = (%s) & 3;' % (val(1), val(1))
        out.append('  ' + s)
    src += 'void f(int i, int j) {\n  int x; int y; int *pa; int *t; struct N *n; struct N *m; int k;\n  x = 5; y = 9; pa = malloc(10 * sizeof(int)); gp = malloc(10 * sizeof(int));\n  n = malloc(sizeof(struct N)); m = malloc(sizeof(struct N)); gn = malloc(sizeof(struct N));\n  n->next = m; m->next = gn; gn->next = n; n->v = 1; n->w = 2; m->v = 3; m->w = 4; gn->v = 5; gn->w = 6; n->q = pa; m->q = gp; gn->q = ga;\n  k = 0; while (k < 10) { pa[k] = k * 3; gp[k] = k + 50; ga[k] = 100 - k; k++; }\n' + '\n'.join(out)
    src += '\n  p(x); p(y); p(gz); k = 0; while (k < 10) { p(pa[k]); p(gp[k]); p(ga[k]); k++; } k = 0; while (k < 3) { p(n->v); p(n->w); n = n->next; k++; }\n}\nint main() { f(%d, %d); f(%d, %d); return 0; }\n' % tuple(r.randint(0, 3) for _ in range(4))
    return src
