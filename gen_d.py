"""Random C programs about declarations: scopes of names, layout of types, constant expressions (oracle: gcc on the same text)."""
import random
PRE = r'''int putchar(int c);
void p1(int n) { if (n > 9) p1(n / 10); putchar(48 + n % 10); }
void p(int n) { if (n < 0) { putchar(45); n = 0 - n; } p1(n); putchar(10); }
'''
NAMES = ['a', 'b', 'c', 'x', 'y']
def scopes(seed, tgt):
    r = random.Random('d%d' % seed); out = []; n = [0]; glob = {}; lim = [0]
    def val(): n[0] += 1; return n[0] * 7 + 1
    names = [q for q in NAMES]
    for q in names:
        k = r.random()
        if k < .45: glob[q] = 'v'; out.append('int %s = %d;' % (q, val()))
        elif k < .6: glob[q] = 'e'; out.append('enum { %s = %d };' % (q, val()))
        elif k < .75: glob[q] = 'f'; out.append('int %s() { return %d; }' % (q, val()))
        elif k < .85: glob[q] = 'v'; out.append('static int %s = %d;' % (q, val()))
    for q in names:
        if r.random() < .5: out.append('struct %s { int %s; char %s; };' % (q, r.choice('ab'), r.choice('xy')))
    tags = [l.split()[1] for l in out if l.startswith('struct')]
    memb = {l.split()[1]: (l.split()[4][0], l.split()[6][0]) for l in out if l.startswith('struct')}
    def use(env, q):
        k = env.get(q)
        if k == 'v' or k == 'e': return 'p(%s);' % q
        if k == 'f': return 'p(%s());' % q
        if k and k[0] == 's': return 'p(%s.%s + %s.%s);' % (q, memb[k[1]][0], q, memb[k[1]][1])
        return ''
    def block(env, decl, d, labs):
        env = dict(env); o = []
        for _ in range(r.randint(2, 5)):
            k = r.random()
            if k < .35:
                q = r.choice(names)
                if q in decl: continue
                decl.add(q)
                j = r.random()
                init = r.choice(['%d' % val()] + [w for w in names if env.get(w) == 'v' and w != q])
                if j < .65: o.append('int %s = %s;' % (q, init)); env[q] = 'v'
                elif j < .8: o.append('static int %s = %d; %s = %s + 1;' % (q, val(), q, q)); env[q] = 'v'
                elif tags:
                    t = r.choice(tags); o.append('struct %s %s; %s.%s = %d; %s.%s = %d;' % (t, q, q, memb[t][0], val(), q, memb[t][1], n[0] % 90)); env[q] = ('s', t)
                else: decl.discard(q)
            elif k < .5:
                q = r.choice(names)
                if env.get(q) == 'v': o.append('%s = %s + %d;' % (q, q, val()))
            elif k < .75 and d > 0:
                j = r.random()
                if j < .5: o.append('{ %s }' % block(env, set(), d - 1, labs))
                elif j < .7:
                    n[0] += 1; o.append('int i%d; for (i%d = 0; i%d < 2; i%d += 1) { %s }' % (n[0], n[0], n[0], n[0], block(env, set(), d - 1, labs)))
                elif j < .85:
                    v = r.choice(['a', 'b', 'lab'] )
                    if v not in labs:
                        labs.add(v); o.append('goto %s; p(-1); %s: ; { %s }' % (v, v, block(env, set(), d - 1, labs)))
                else: o.append('if (%d) { %s } else { %s }' % (r.randint(0, 1), block(env, set(), d - 1, labs), block(env, set(), d - 1, labs)))
            o.append(use(env, r.choice(names)))
        if d == 2: o += [use(env, q) for q in names]
        return ' '.join(x for x in o if x)
    funs = []
    for k in range(r.randint(1, 3)):
        ps = r.sample(names, r.randint(0, 3)); env = dict(glob)
        for q in ps: env[q] = 'v'
        funs.append(('fn%d' % k, len(ps)))
        out.append('void fn%d(%s) { %s }' % (k, ', '.join('int ' + q for q in ps), block(env, set(ps), 2, set())))
    m = ''.join('%s(%s); ' % (f, ', '.join(str(val()) for _ in range(a))) for f, a in funs for _ in range(2))
    out.append('int main() { %s%s return 0; }' % (m, ' '.join(use(glob, q) for q in names)))
    return PRE + '\n'.join(out) + '\n'

def layout(seed, tgt):
    r = random.Random('l%d' % seed); out = []; types = []; n = [0]
    ptr = tgt == 'x64'
    base = ['int', 'char', 'short', 'unsigned char', 'unsigned short', 'unsigned'] + (['long long', 'unsigned long long'] if ptr else [])
    def decl(nm):
        k = r.random()
        t = r.choice(types)[0] if types and k < .3 else r.choice(base)
        if ptr and k > .85: return '%s *%s%s' % (t, nm, '[3]' if r.random() < .3 else '')
        return '%s %s%s' % (t, nm, ''.join('[%d]' % r.randint(1, 5) for _ in range(r.choice([0, 0, 0, 1, 1, 2]))))
    def body(d, ps, pre):
        o = ''
        for _ in range(r.randint(1, 5)):
            if d and r.random() < .2:
                o += '%s { %s }; ' % (r.choice(['struct', 'union']), body(d - 1, ps, pre))
            else:
                n[0] += 1; m = 'm%d' % n[0]; ps.append(m); o += decl(m) + '; '
        return o
    for k in range(r.randint(2, 5)):
        t = '%s T%d' % (r.choice(['struct', 'struct', 'union']), k); ps = []
        out.append('%s { %s};' % (t, body(2, ps, '')))
        types.append((t, ps))
    m = ''
    for k, (t, ps) in enumerate(types):
        out.append('%s v%d; %s w%d[3];' % (t, k, t, k))
        m += 'p(sizeof(%s)); p(sizeof(w%d)); p((char*)&w%d[2] - (char*)&w%d[0]); q = &v%d;\n' % (t, k, k, k, k)
        m += ''.join('p((char*)&v%d.%s - q); p(sizeof(v%d.%s));\n' % (k, x, k, x) for x in ps)
    out.append('int main() { char *q; %s return 0; }' % m)
    return PRE + '\n'.join(out) + '\n'

# ---- constant expressions: (text, value, precedence); values stay within 30 bits, no undefined operation
PRECS = {'*': 10, '/': 10, '%': 10, '+': 9, '-': 9, '<<': 8, '>>': 8, '<': 7, '>': 7, '<=': 7, '>=': 7, '==': 6, '!=': 6, '&': 5, '^': 4, '|': 3, '&&': 2, '||': 1, '?': 0}
def cdiv(a, b): q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
def cexpr(r, d, ids=(), sh=False):
    """random constant expression: (text, value, precedence of its operator)"""
    for _ in range(60):
        k = r.random()
        if d == 0 or k < .15:
            j = r.random()
            if ids and j < .3: return r.choice(list(ids.items())) + (12,)
            v = r.choice([0, 1, 2, 3, 5, 7, 8, 31, 64, 100, 255, 4096, 65535, r.randint(0, 1 << r.randint(1, 28))])
            if j < .55: return (hex(v), v, 12)
            if j < .65: return ('0%o' % v, v, 12)
            if j < .75: c = r.choice("aZ0~ "); return ("'%s'" % c, ord(c), 12)
            return (str(v), v, 12)
        if k < .3:
            op = r.choice('-~!+'); t, v, p = cexpr(r, d - 1, ids, sh)
            t = '(%s)' % t if p < 11 else t
            if op == t[0] or t[0] in '-+': t = ' ' + t
            w = {'-': -v, '~': ~v, '!': int(not v), '+': v}[op]
            return (op + t, w, 11)
        if k < .38 and not sh:
            a, b, c = (cexpr(r, d - 1, ids, sh) for _ in range(3))
            return ('%s ? %s : %s' % ('(%s)' % a[0] if a[2] < 1 else a[0], b[0], c[0]), b[1] if a[1] else c[1], 0)
        op = r.choice(list(PRECS)[:-1]); p = PRECS[op]
        (a, x, pa), (b, y, pb) = cexpr(r, d - 1, ids, sh), cexpr(r, d - 1, ids, sh)
        if op in '/%' and y == 0: continue
        if op in ('<<', '>>') and not (0 <= y < 28): continue
        if op in ('<<',) and x < 0: continue
        v = {'*': lambda: x * y, '/': lambda: cdiv(x, y), '%': lambda: x - y * cdiv(x, y), '+': lambda: x + y, '-': lambda: x - y, '<<': lambda: x << y, '>>': lambda: x >> y, '<': lambda: int(x < y), '>': lambda: int(x > y),
             '<=': lambda: int(x <= y), '>=': lambda: int(x >= y), '==': lambda: int(x == y), '!=': lambda: int(x != y), '&': lambda: x & y, '^': lambda: x ^ y, '|': lambda: x | y, '&&': lambda: int(bool(x and y)), '||': lambda: int(bool(x or y))}[op]()
        if abs(v) >= 1 << 30: continue
        a = '(%s)' % a if pa < p or r.random() < .1 else a
        b = '(%s)' % b if pb <= p or r.random() < .1 else b
        s = ' ' if r.random() < .8 or b[0] in '-+&' or a[-1] in '+-' else ''
        return (a + s + op + s + b, v, p)
    return ('1', 1, 12)
def consts(seed, tgt):
    r = random.Random('c%d' % seed); out = []; m = []; n = 0
    for _ in range(r.randint(3, 7)):
        k = r.random(); n += 1
        if k < .35:
            e = []; nx = 0
            for i in range(r.randint(1, 4)):
                c = cexpr(r, 3) if r.random() < .6 else None
                if c: nx = c[1]
                if abs(nx) > 1 << 29: c = ('5', 5, 12); nx = 5
                e.append('E%d_%d' % (n, i) + (' = ' + c[0] if c else '')); nx += 1
                m.append('p(E%d_%d);' % (n, i))
            out.append('enum { %s };' % ', '.join(e))
        elif k < .5:
            for _ in range(20):
                c = cexpr(r, 3)
                if 0 < c[1] < 300: break
            else: c = ('7', 7, 12)
            if tgt == 'sh': out.append('int a%d[%s]; int b%d = 0;' % (n, c[0], n)); m.append('a%d[%d] = 7; p(a%d[%d]); p(b%d);' % (n, c[1] - 1, n, c[1] - 1, n))
            else: out.append('char a%d[%s];' % (n, c[0])); m.append('p(sizeof(a%d));' % n)
        elif k < .8:
            ms = {}
            for i in range(r.randint(0, 2)):
                v = cexpr(r, 2, ms); ms['M%d_%d' % (n, i)] = v[1]; out.append('#define M%d_%d (%s)' % (n, i, v[0]))
            c = cexpr(r, 3, ms); u = r.random()
            if u < .2: c = ('%sdefined(M%d_0)' % (r.choice(['', '!']), n), 0, 0)
            elif u < .3: c = ('UNDEF%d || %s' % (n, '(%s)' % c[0]), 0, 0)
            out.append('#if %s\nint i%d() { return 1; }\n#elif %s\nint i%d() { return 2; }\n#else\nint i%d() { return 3; }\n#endif' % (c[0], n, cexpr(r, 2, ms)[0], n, n)); m.append('p(i%d());' % n)
        else:
            c = cexpr(r, 3, sh=tgt == 'sh')
            out.append('int g%d(int x) { switch (x) { case %s: return 1; default: return 2; } return 3; }' % (n, '(%s)' % c[0] if c[2] == 0 else c[0]))
            m.append('p(g%d(%d)); p(g%d(%d));' % (n, c[1], n, c[1] + 1))
    out.append('int main() { %s return 0; }' % ' '.join(m))
    return PRE + '\n'.join(out) + '\n'

# ---- strings and characters
ESC = {7: '\\a', 8: '\\b', 9: '\\t', 10: '\\n', 11: '\\v', 12: '\\f', 13: '\\r', 92: '\\\\', 34: '\\"'}
def cstr(r, n, fmt=False):
    out = ''; prev_oct = False
    for _ in range(n):
        k = r.random()
        c = r.choice([7, 8, 9, 10, 11, 12, 13, 92, 92, 34, 36, 96, 39, 63, 37, 33, 35, 38, 42, 59, 60, 62, 40, 41, 123, 125, 126, 91, 93, 61, 45, 48, 49]) if k < .5 else r.randint(32, 126)
        if fmt and c == 37: out += '%%'; prev_oct = False; continue
        if out.endswith('?') and c == 63: c = 65
        if c in ESC: t = ESC[c]
        elif c == 39 and r.random() < .3: t = "\\'"
        elif r.random() < .06: t = '\\%03o' % c
        else: t = chr(c)
        out += t
    return out
def slen(r): return r.choice([0, 1, 2, 3, 5, 8, 15, 16, 17, 31, 33, r.randint(0, 60), r.choice([255, 256, 257, 300, 520])])
def strings(seed, tgt):
    r = random.Random('t%d' % seed); out = []; m = []
    out.append('void q(char *s) { while (*s) { p(*s); s = s + 1; } p(0); }\nvoid w(char *s) { while (*s) { putchar(*s); s = s + 1; } putchar(10); }\nint same(char *a, char *b) { while (*a && *a == *b) { a = a + 1; b = b + 1; } return *a - *b; }')
    for i in range(r.randint(2, 6)):
        n = slen(r); s = cstr(r, n); k = r.randint(0, 6); pr = r.choice('qw')
        if k == 0: out.append('char *g%d = "%s";' % (i, s)); m.append('%s(g%d);' % (pr, i))
        elif k == 1: out.append('char a%d[] = "%s";' % (i, s)); m.append('%s(a%d); a%d[0] = 66; p(a%d[0]);' % (pr, i, i, i))
        elif k == 2: x = r.randint(1, 9); out.append('char b%d[%d] = "%s";' % (i, n + x, s)); m.append('%s(b%d); p(b%d[%d]);' % (pr, i, i, n + r.randint(0, x - 1)))
        elif k == 3: out.append('void f%d() { char *s = "%s"; %s(s); }' % (i, s, pr)); m.append('f%d(); f%d();' % (i, i))
        elif k == 4: m.append('%s("%s");' % (pr, s))
        elif k == 5: t = s if r.random() < .5 else cstr(r, n); m.append('p(same("%s", "%s") == 0);' % (s, t))
        elif tgt == 'sh' and r.random() < .7:
            f = ''; a = ''
            for _ in range(r.randint(0, 4)):
                f += cstr(r, r.randint(0, 5), True); j = r.randint(0, 5)
                if j == 0: f += r.choice(['%d', '%i']); a += ', %d' % r.randint(-999, 9999)
                elif j == 1: f += r.choice(['%x', '%o', '%u', '%X']); a += ', %d' % r.randint(0, 99999)
                elif j == 2: f += '%c'; a += ', %d' % r.choice([65, 37, 92, 36, 10, 39, r.randint(32, 126)])
                elif j == 3: f += '%s'; a += ', "%s"' % cstr(r, r.randint(0, 9))
                elif j == 4: f += r.choice(['%5d', '%-4d|', '%03d', '%+d', '%.2d']); a += ', %d' % r.randint(0, 9999)
            f += cstr(r, r.randint(0, 4), True)
            m.append('printf("%s"%s);' % (f, a))
        else: m.append('p("%s"[%d]);' % (s, r.randint(0, n)) if tgt != 'sh' else 'w("%s");' % s)
    for _ in range(4):
        c = r.choice([0, 7, 8, 9, 10, 11, 12, 13, 34, 39, 92] + [r.randint(32, 126)] * 6)
        t = {0: '\\0', 39: "\\'", 34: '"'}.get(c) or ESC.get(c) or chr(c)
        m.append(r.choice(["p('%s');", "p(1 + '%s');", "putchar('%s');"] if c else ["p('%s');"]) % t)
    pre = PRE if 'printf' not in ''.join(m) else 'int printf(const char *f, ...);\n' + PRE
    return pre + '\n'.join(out) + '\nint main() { %s return 0; }\n' % '\n'.join(m)

class ShS:
    """Functions made of the statements that the shell back end accepts; every statement leaves a trace."""
    def __init__(s, seed): s.r = random.Random('u%d' % seed); s.k = 0; s.n = 0; s.funs = []; s.vars = []; s.nocont = False
    def tr(s): s.k += 1; return 't(%d);' % s.k
    def atom(s): return s.r.choice(s.vars + [str(s.r.randint(0, 4))])
    def val(s, d=1):
        k = s.r.random()
        if k < .2 and s.funs: return '%s(%s, %s)' % (s.r.choice(s.funs), s.atom(), s.atom())
        if k < .5: return '%s %s %s' % (s.atom(), s.r.choice('+-*&|^'), s.atom())
        if k < .6: return '(%s %s %s)' % (s.val(0), s.r.choice('+-'), s.atom()) if d else s.atom()
        return s.atom()
    def cond(s):
        k = s.r.random()
        if k < .15: return 'rnd(%d)' % s.r.randint(2, 3)
        if k < .25 and s.funs: return '%s(%s, %s) %s %s' % (s.r.choice(s.funs), s.atom(), s.atom(), s.r.choice(['<', '>', '!=']), s.atom())
        if k < .4: return '%s %s %s' % (s.cond2(), s.r.choice(['&&', '||']), s.cond2())
        if k < .45: return '!(%s)' % s.atom()
        if k < .5: return s.atom()
        return s.cond2()
    def cond2(s): return '%s %s %s' % (s.r.choice(s.vars + ['rnd(4)']), s.r.choice(['<', '>', '==', '!=', '<=', '>=']), s.r.randint(0, 3))
    def simple(s):
        k = s.r.random(); v = s.r.choice(s.vars)
        if k < .25: return '%s = (%s) & 7;' % (v, s.val())
        if k < .35: return '%s %s %s; %s &= 7;' % (v, s.r.choice(['+=', '-=', '^=', '|=']), s.atom(), v)
        if k < .45: return 't(%s);' % s.val()
        if k < .5 and s.funs: return '%s(%s, %s);' % (s.r.choice(s.funs), s.atom(), s.val(0))
        if k < .55: return ';'
        if k < .6: return 'ga[%s %% 4] = %s; t(ga[%s %% 4]);' % (v, s.atom(), s.atom())
        if k < .65: return '%s++; %s &= 7;' % (v, v)
        return s.tr()
    def leave(s, sw, loop):
        """a statement that does not complete; True if so for the back end"""
        k = s.r.random()
        if (sw or loop) and k < .55: return 'break;', True
        if k < .8: return 'return %s;' % s.val(), True
        return 'return %s;' % s.atom(), True
    def block(s, d, sw, loop, term, n=None):
        """statements in braces, ending in one that does not complete when term"""
        sv = list(s.vars); out = []
        if s.r.random() < .25: s.n += 1; out.append('int v%d = %s;' % (s.n, s.val())); s.vars.append('v%d' % s.n); out.append('v%d &= 7;' % s.n)
        for _ in range(s.r.randint(0, 2) if n is None else n): out.append(s.stmt(d - 1, sw, loop))
        if term: out.append(s.term(d - 1, sw, loop))
        s.vars = sv
        return '{ %s }' % ' '.join(out)
    def one(s, d, sw, loop, term):
        """statement or block"""
        if s.r.random() < .4: return s.term(d, sw, loop) if term else s.stmt(0, sw, loop, True)
        return s.block(d, sw, loop, term)
    def term(s, d, sw, loop):
        if d > 0 and s.r.random() < .3: return 'if (%s) %s else %s' % (s.cond(), s.block(d, sw, loop, True), s.one(d, sw, loop, True))
        if s.r.random() < .15 and d > 0: return s.block(d, sw, loop, True)
        if s.r.random() < .1: return s.tr() + ' ' + s.leave(sw, loop)[0] if False else s.leave(sw, loop)[0]
        return s.leave(sw, loop)[0]
    # sw: the nearest enclosing loop or switch is a switch; s.insw: inside of a case, where an if has to leave on both branches or none
    def stmt(s, d, sw, loop, single=False):
        k = s.r.random()
        if d <= 0: 
            x = s.simple()
            return '{ %s }' % x if single and x.count(';') > 1 else x
        if k < .22: return s.simple()
        if k < .45:
            c = s.cond()
            both = s.insw
            t1 = not both and s.r.random() < .35; t2 = not both and s.r.random() < .35
            if loop and not s.nocont and s.r.random() < .2: a = '{ %s continue; }' % s.simple()
            else: a = s.block(d, sw, loop, t1) if s.r.random() < .7 else (s.one(d, sw, loop, t1) if s.r.random() < .5 else '{ %s }' % (s.term(0, sw, loop) if t1 else s.simple()))
            o = 'if (%s) %s' % (c, a)
            m = s.r.random()
            if m < .35: o += ' else ' + s.block(d, sw, loop, t2)
            elif m < .55: o += ' else if (%s) %s' % (s.cond(), s.block(d, sw, loop, t2)) + (' else ' + s.block(d, sw, loop, s.r.random() < .3 and not both) if s.r.random() < .5 else '')
            return o
        if k < .75:
            s.n += 1; v = 'i%d' % s.n; s.vars.append(v); s.decl.append(v); m = s.r.random(); n = s.r.randint(1, 4)
            body = lambda t=False: s.block(d, False, True, t)
            nc = s.nocont; s.nocont = m >= .9 or m >= .8 and s.insw
            if m < .3: o = '%s = 0; while (%s < %d%s) { %s += 1; %s }' % (v, v, n, s.r.choice(['', ' && (%s)' % s.cond2()]), v, body())
            elif m < .5: o = '%s = 0; do { %s += 1; %s } while (%s < %d%s);' % (v, v, body(), v, n, s.r.choice(['', ' && (%s)' % s.cond2(), ' && rnd(3)']))
            elif m < .8: o = 'for (%s = %s; %s < %d; %s %s) %s' % (v, s.r.choice(['0', '0', 'rnd(2)']), v, n, v, s.r.choice(['+= 1', '++', '= %s + 1' % v, '+= 1 + rnd(2)' if False else '+= 2']), body() if s.r.random() < .8 else s.stmt(0, False, True, True))
            elif m < .9 and not s.insw: o = '%s = 0; for (;;) { %s += 1; %s if (%s > %d) break; }' % (v, v, body(), v, n)
            elif s.insw: o = '%s = 0; while (%s < 2) { %s += 1; %s }' % (v, v, v, body())
            else: o = 'for (;;) %s' % body(True)
            s.vars.remove(v); s.nocont = nc
            return '{ %s }' % o
        if k < .92:
            sv = s.insw; s.insw = True; vals = list(range(5)); s.r.shuffle(vals); cl = []
            for _ in range(s.r.randint(1, 4)):
                lab = 'case %d:' % vals.pop()
                if s.r.random() < .2 and vals: lab += ' case %d:' % vals.pop()
                body = ' '.join(s.stmt(d - 1, True, loop) for _ in range(s.r.randint(0, 2)))
                cl.append('%s %s %s' % (lab, body, s.term(d - 1, True, loop)))
                if not vals: break
            if s.r.random() < .6: cl.insert(s.r.randint(0, len(cl)), 'default: %s %s' % (s.simple(), s.term(d - 1, True, loop)))
            s.insw = sv
            return 'switch (%s) { %s }' % (s.r.choice([s.atom(), '(%s) & 3' % s.val(), 'rnd(5)']), ' '.join(cl))
        return s.block(d, sw, loop, False)
    def fun(s):
        s.n += 1; f = 'f%d' % s.n; s.vars = ['a', 'b']; s.decl = []; s.insw = False
        body = ' '.join(s.stmt(3, False, False) for _ in range(s.r.randint(1, 4)))
        if s.r.random() < .3: s.n += 1
        tail = s.term(2, False, False) if s.r.random() < .8 else 'return 7;'
        if s.r.random() < .15: tail = ''
        o = 'int %s(int a, int b) { %s fuel -= 1; if (fuel < 0) return 0; %s %s %s}' % (f, ''.join('int %s = 0; ' % v for v in s.decl), body, tail, '' if tail else 'return a; ')
        s.funs.append(f); return o
def shstmts(seed, tgt):
    s = ShS(seed); fs = [s.fun() for _ in range(s.r.randint(1, 4))]
    pre = 'int putchar(int c);\nvoid *malloc(int n);\nint seed_ = 7; int fuel = 60; int lines = 0; int *ga;\nvoid p1(int n) { if (n > 9) p1(n / 10); putchar(48 + n % 10); }\nvoid p(int n) { if (n < 0) { putchar(45); n = 0 - n; } p1(n); putchar(10); }\nint rnd(int n) { seed_ = (seed_ * 131 + 57) % 10007; return seed_ % n; }\nvoid t(int n) { if (lines < 150) { p(n); lines = lines + 1; } }\n'
    return pre + '\n'.join(fs) + '\nint main() { int i; ga = malloc(16); for (i = 0; i < 4; i += 1) ga[i] = i; for (i = 0; i < 6; i += 1) { seed_ = i * 17 + %d; fuel = 60; %s } return 0; }\n' % (s.r.randint(0, 99), ' '.join('t(%s(i & 3, %d));' % (f, s.r.randint(0, 3)) for f in s.funs))

def shfuns(seed, tgt):
    """Functions, parameters, locals, globals, members and results; the functions have no other effects, so calls nest freely."""
    r = random.Random('v%d' % seed); funs = []; out = []; fields = []
    pool = ['a', 'b', 'c', 'n', 'x', 'y', 'i', 'res', 'argc', 'tmp', 'ret', 't1', 't2', 'v0', 'loc', 'k9', 'str_0', 'set', 'echo', 'local', 'IF', 'test', 'fi', 'done']
    glob = []
    for g in r.sample(pool, r.randint(1, 6)): v = r.randint(-9, 99); out.append('int %s = %d;' % (g, v) if r.random() < .7 else 'int %s;' % g); glob.append(g)
    arrs = []
    for g in r.sample([p for p in pool if p not in glob], r.randint(0, 2)): out.append('int %s[%d];' % (g, 8)); arrs.append(g)
    if r.random() < .5:
        e = [p for p in pool if p not in glob + arrs]; r.shuffle(e); e = ['E' + x for x in e[:r.randint(1, 4)]]; out.append('enum { %s };' % ', '.join(x + (' = %d' % r.randint(-5, 60) if r.random() < .4 else '') for x in e)); consts_ = e
    else: consts_ = []
    fields = r.sample(['x', 'y', 'fa', 'fb', 'k9', 'next', 'a', 'b', 'c', 'set', 'done'], r.randint(1, 5)); out.append('struct rec { %s };' % ' '.join('int %s;' % f for f in fields))
    def leaf(vs): 
        k = r.random()
        if k < .25 or not vs: return str(r.randint(-3, 20)) if r.random() < .8 or not consts_ else r.choice(consts_)
        if k < .35 and arrs: return '%s[%d]' % (r.choice(arrs), r.randint(0, 7))
        return r.choice(vs)
    def ex(vs, d, fs):
        k = r.random()
        if d <= 0 or k < .2: return leaf(vs)
        if k < .55 and fs: 
            f = r.choice(fs); return '%s(%s)' % (f[0], ', '.join(ex(vs, d - 1, fs) if r.random() < .5 else leaf(vs) for _ in range(f[1])))
        o = r.choice(['+', '-', '*', '&', '|', '^'])
        return '(%s %s %s)' % (ex(vs, d - 1, fs), o, ex(vs, d - 1, fs)) if o != '*' else '((%s & 63) * %s)' % (ex(vs, d - 1, fs), r.randint(-3, 9))
    names = ['f%d' % i for i in range(9)] + ['go', 'put_', 'val', 'cd', 'exit_', 'add', 'pwd']; r.shuffle(names)
    for _ in range(r.randint(2, 5)):
        f = names.pop(); np = r.choice([0, 1, 2, 2, 3, 4, 9, 12]); ps = r.sample(pool, np); loc = r.sample([p for p in pool if p not in ps], r.randint(0, 4))
        if f in glob + arrs: continue
        rest = [g for g in glob if g not in ps + loc]; vis = ps + loc + rest; ar0 = list(arrs); arrs[:] = [a for a in arrs if a not in ps + loc]
        b = ''; have = list(ps) + rest; late = []
        for l in loc:
            if r.random() < .7: b += 'int %s = %s; ' % (l, ex(have, 2, funs)); have.append(l)
            else: b += 'int %s; %s = %s; ' % (l, l, ex(have, 1, funs)); have.append(l)
        for _ in range(r.randint(0, 3)):
            w = [v for v in have if v in ps + loc]
            k = r.random()
            if w and k < .5: b += '%s = %s; ' % (r.choice(w), ex(have, 2, funs))
            elif w and k < .65: b += 'if (%s %s %s) { %s = %s; } ' % (ex(have, 1, funs), r.choice(['<', '>', '==', '!=']), leaf(have), r.choice(w), ex(have, 1, funs))
            elif k < .75 and 'q_' not in vis: b += '{ int q%d = %s; %s } ' % (r.randint(0, 2), ex(have, 1, funs), ('%s = %s; ' % (r.choice(w), ex(have, 1, funs))) if w else '')
            elif k < .85 and 'o_' not in loc: b += 'ptr[%d] = %s; ' % (r.randint(0, 3), ex(have, 1, funs)) if False else ''
        rec = ''
        if np and r.random() < .4 and '%s = ' % ps[0] not in b: rec = 'if (%s > 0 && %s < 6) return %s + %s(%s); ' % (ps[0], ps[0], ex(have, 1, funs), f, ', '.join(['%s - 1' % ps[0]] + [leaf(have) for _ in ps[1:]]))
        b += rec + 'return %s;' % ex(have, 2, funs)
        out.append('int %s(%s) { %s }' % (f, ', '.join('int ' + p for p in ps), b)); funs.append((f, np)); arrs[:] = ar0
    m = []
    for _ in range(r.randint(4, 10)):
        k = r.random(); fs = funs
        if k < .35: m.append('p(%s);' % ex(glob, 2, fs))
        elif k < .5 and glob: g = r.choice(glob); m.append('%s = %s; p(%s);' % (g, ex(glob, 2, fs), g))
        elif k < .65 and arrs: a = r.choice(arrs); i = r.randint(0, 7); m.append('%s[%d] = %s; p(%s[%d]);' % (a, i, ex(glob, 2, fs), a, i))
        elif k < .8: x = r.choice(fields); m.append('w_->%s = %s; p(w_->%s + 1);' % (x, ex(glob, 2, fs), x))
        elif k < .9: m.append('h_[%d] = 1; h_[2] = %s; p(h_[2]);' % (r.randint(0, 3), ex(glob, 2, fs)))
        else: m.append('*h_ = %s; p(*h_);' % ex(glob, 1, fs))
    m += ['p(%s);' % g for g in glob]; m += ['p(w_->%s);' % f for f in fields if 'w_->%s =' % f in ' '.join(m)]
    src = PRE + 'void *malloc(int n);\n' + '\n'.join(out) + '\nint main() { struct rec *w_; int *h_; w_ = malloc(%d); h_ = malloc(64); %s return 0; }\n' % (4 * len(fields) if True else 0, ' '.join(m))
    return src.replace('w_', 'ww').replace('h_', 'hh')
