"""Random C programs without undefined or implementation dependent behaviour (oracle: gcc on the same text).
Values are kept in range by interval reasoning, so that they do not depend on the width of registers:
pnut's x86-64 back end computes int expressions in 64 bit registers (a documented limit, outside the properties)."""
import random
PRE = r'''int putchar(int c);
void p1(int n) { if (n > 9) p1(n / 10); putchar(48 + n % 10); }
void p(int n) { if (n < 0) { putchar(45); if (n < -2147483647) { p1(214748364); putchar(56); putchar(10); return; } n = 0 - n; } p1(n); putchar(10); }
'''
PU = r'''void pu1(unsigned n) { if (n > 9u) pu1(n / 10u); putchar(48 + (int) (n % 10u)); }
void pu(unsigned n) { pu1(n); putchar(10); }
'''
PL = r'''void pl(long long n) { int i; for (i = 0; i < 4; i++) { p((int) (n & 65535)); n = n >> 16; } }
'''
TY = {'int': (4, 1), 'char': (1, 1), 'short': (2, 1), 'unsigned': (4, 0), 'unsigned char': (1, 0), 'unsigned short': (2, 0), 'long long': (8, 1)}
def rng(t):
    w, s = TY[t]
    return (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if s else (0, (1 << (8 * w)) - 1)
IMIN, IMAX = rng('int')
BOUND = [0, 1, 2, 3, 7, 10, 31, 127, 128, 255, 256, 1000, 32767, 32768, 65535, 65536, 1 << 20, (1 << 31) - 1]
class G:
    def __init__(s, seed, tgt):
        s.r = random.Random(seed); s.tgt = tgt; s.sh = tgt == 'sh'
        s.types = ['int'] if s.sh else ['int', 'int', 'char', 'short', 'unsigned', 'unsigned char', 'unsigned short'] + (['long long'] if tgt == 'x64' else [])
        s.n = 0; s.vars = []; s.arrs = []; s.funs = []; s.ptrs = []; s.structs = []; s.locked = set(); s.depth = 0; s.calls = True; s.loopd = 0; s.budget = 0
    def name(s, k='v'): s.n += 1; return k + str(s.n)
    def pick(s, *a): return s.r.choice(a)
    def lit(s, lo=IMIN + 1, hi=IMAX):
        v = s.r.choice(BOUND) if s.r.random() < .6 else s.r.getrandbits(s.r.randint(1, 31))
        if s.r.random() < .3: v = -v
        if not lo <= v <= hi: v = s.r.randint(lo, hi) if hi - lo < (1 << 40) else 1
        t = str(v) if v >= 0 else '(-%d)' % -v if s.r.random() < .8 or s.sh else '(~%d)' % (-v - 1)
        if v >= 0 and s.r.random() < .2: t = hex(v) if s.r.random() < .6 else '0%o' % v
        return t, 'int', v, v
    def res(s, a, b):
        if 'long long' in (a, b): return 'long long'
        if 'unsigned' in (a, b): return 'unsigned'
        return 'int'
    def fit(s, e, lim):
        """an expression derived from e with values in [-lim, lim] (non negative for unsigned)"""
        t, ty, lo, hi = e
        if -lim <= lo and hi <= lim: return e
        k = s.r.random()
        if lim >= 1 and (k < .4 or lim < 3):
            m = (1 << lim.bit_length()) - 1
            if m > lim: m >>= 1
            m = max(m, 1) if lim else 0
            rt = s.res(ty, 'int')
            return '(%s & %d)' % (t, m), rt, 0, m
        if k < .7 or lim < 32768 or s.sh:
            m = min(lim, IMAX)
            rt = s.res(ty, 'int')
            return '(%s %% %d)' % (t, m), rt, -(m - 1) if lo < 0 else 0, m - 1
        if ty != 'unsigned': return '(short) %s' % s.par(t), 'short', -32768, 32767
        return '(%s >> 17)' % t, 'unsigned', 0, 32767
    def par(s, t): return '(' + t + ')'
    def nonneg(s, e):
        if e[2] >= 0: return e
        return s.fit((e[0], e[1], -1 << 70, 1 << 70), 1) if s.r.random() < .1 else ('(%s & %d)' % (e[0], 0x7ffffff), s.res(e[1], 'int'), 0, 0x7ffffff)
    def leaf(s):
        k = s.r.random()
        if k < .25: return s.lit()
        if k < .3 and not s.sh: c = s.r.choice("a0Z~ !"); return "'%s'" % c, 'int', ord(c), ord(c)
        if s.arrs and k < .5:
            a = s.r.choice(s.arrs)
            i = s.expr(1)
            return ('%s[%s]' % (a[0], s.idx(a[2])),) + (a[1],) + rng(a[1])
        if s.structs and k < .6:
            acc, ty = s.r.choice(s.structs); return (acc, ty) + rng(ty)
        if s.ptrs and k < .68:
            p = s.r.choice(s.ptrs)
            if s.r.random() < .5: return ('*%s' % p[0], p[1]) + rng(p[1])
            return ('%s[%d]' % (p[0], 0), p[1]) + rng(p[1])
        if False:
            s.budget -= 1
            f = s.r.choice(s.funs)
            return ('%s(%s)' % (f[0], ', '.join(s.conv(t) for t in f[2])), f[1]) + rng(f[1])
        if s.vars:
            v = s.r.choice(s.vars); return (v[0], v[1]) + rng(v[1])
        return s.lit()
    def idx(s, n, lv=False):
        if lv and s.sh:  # (known finding: loose operators in the index of a stored-to element)
            if s.r.random() < .5: return str(s.r.randint(0, n - 1))
            return '%s %% %d' % (s.par('%s & 127' % s.par(s.expr(1)[0])), n)
        if s.r.random() < .5: return str(s.r.randint(0, n - 1))
        e = s.expr(1); m = 1
        while m * 2 <= n: m *= 2
        return '%s & %d' % (s.par(e[0]), m - 1)
    def conv(s, ty):
        """text of an expression that may be converted to ty"""
        e = s.expr(2)
        if ty == 'int' and not (IMIN <= e[2] and e[3] <= IMAX) and (e[1] == 'long long' or s.r.random() < .5): e = s.fit(e, IMAX)
        return e[0]
    def expr(s, d):
        if d <= 0 or s.r.random() < .15: return s.leaf()
        k = s.r.random()
        if k < .55:
            a, b = s.expr(d - 1), s.expr(d - 1)
            op = s.r.choice(['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>', '<', '>', '<=', '>=', '==', '!='])
            if 'unsigned' in (a[1], b[1]) and op not in ('<<', '>>') : a, b = s.nonneg(a), s.nonneg(b)
            elif a[1] == 'unsigned': a = s.nonneg(a)
            ty = s.res(a[1], b[1])
            w = 1 << 30
            P = s.par
            if op in ('+', '-'):
                a, b = s.fit(a, w - 1), s.fit(b, w - 1)
                if s.res(a[1], b[1]) == 'unsigned':
                    a, b = s.nonneg(a), s.nonneg(b)
                    op = '+'
                ty = s.res(a[1], b[1])
                return P('%s %s %s' % (a[0], op, b[0])), ty, a[2] + b[2] if op == '+' else a[2] - b[3], a[3] + b[3] if op == '+' else a[3] - b[2]
            if op == '*':
                a, b = s.fit(a, 32767), s.fit(b, 32767)
                if s.res(a[1], b[1]) == 'unsigned': a, b = s.nonneg(a), s.nonneg(b); a, b = s.fit(a, 32767), s.fit(b, 32767)
                ty = s.res(a[1], b[1]); q = [x * y for x in a[2:4] for y in b[2:4]]
                return P('%s * %s' % (a[0], b[0])), ty, min(q), max(q)
            if op in ('/', '%'):
                if s.r.random() < .5: b = s.lit(1, 100000); b = b if b[2] > 0 else ('3', 'int', 3, 3)
                else:
                    b = s.fit(b, 1 << 20); b = s.nonneg(b); b = ('(%s + 1)' % b[0], s.res(b[1], 'int'), b[2] + 1, b[3] + 1)
                if s.r.random() < .15 and a[1] != 'unsigned' and b[1] != 'unsigned' and a[2] > IMIN: b = ('(-%s)' % b[0], b[1], -b[3], -b[2])
                if 'unsigned' in (a[1], b[1]): a = s.nonneg(a)
                ty = s.res(a[1], b[1])
                m = max(abs(a[2]), abs(a[3]))
                if op == '/': return P('%s / %s' % (a[0], b[0])), ty, -m if a[2] < 0 or b[2] < 0 else 0, m
                m = min(m, max(abs(b[2]), abs(b[3])) - 1)
                return P('%s %% %s' % (a[0], b[0])), ty, -m if a[2] < 0 else 0, m
            if op in ('&', '|', '^'):
                m = max(abs(a[2]), abs(a[3]), abs(b[2]), abs(b[3]), 1); m = (1 << m.bit_length()) - 1
                return P('%s %s %s' % (a[0], op, b[0])), ty, -m - 1 if min(a[2], b[2]) < 0 else 0, m
            if op in ('<<', '>>'):
                if s.r.random() < .6: n = s.r.randint(0, 14); b = (str(n), 'int', n, n)
                else: b = ('(%s & 7)' % b[0], 'int', 0, 7)
                if op == '<<':
                    if a[2] < 0: a = s.nonneg(a)
                    a = s.fit(a, (1 << 16) - 1); a = s.nonneg(a); a = s.fit(a, 32767)
                    if a[2] < 0: a = ('(%s & 255)' % a[0], s.res(a[1], 'int'), 0, 255)
                    return P('%s << %s' % (a[0], b[0])), s.res(a[1], 'int'), 0, a[3] << b[3]
                t = s.res(a[1], 'int')
                return P('%s >> %s' % (a[0], b[0])), t, min(a[2], 0), max(a[3], 0)
            return P('%s %s %s' % (a[0], op, b[0])), 'int', 0, 1
        if k < .67:
            op = s.r.choice('!-~+!'); a = s.expr(d - 1)
            if op == '!': return '!%s' % s.par(a[0]), 'int', 0, 1
            if a[1] == 'unsigned': return a
            if op == '~': return '~%s' % s.par(a[0]), s.res(a[1], 'int'), -a[3] - 1, -a[2] - 1
            if op == '+': return a if s.sh else ('+%s' % s.par(a[0]), s.res(a[1], 'int'), a[2], a[3])
            if a[2] <= IMIN and a[1] != 'long long': a = s.fit(a, IMAX)
            return '-%s' % s.par(a[0]), s.res(a[1], 'int'), -a[3], -a[2]
        if k < .77:
            a, b = s.expr(d - 1), s.expr(d - 1)
            return '(%s %s %s)' % (a[0], s.pick('&&', '||'), b[0]), 'int', 0, 1
        if k < .85:
            c, a, b = s.expr(d - 1), s.expr(d - 1), s.expr(d - 1)
            if a[1] != b[1] and ('unsigned' in (a[1], b[1]) or 'long long' in (a[1], b[1])): b = a if s.r.random() < .5 else b; a = b
            return '(%s ? %s : %s)' % (c[0], a[0], b[0]), s.res(a[1], b[1]), min(a[2], b[2]), max(a[3], b[3])
        if k < .93 and not s.sh:
            ty = s.r.choice(s.types); a = s.expr(d - 1)
            if ty in ('int', 'long long') and a[1] in ('unsigned', 'long long') and not (IMIN <= a[2] and a[3] <= IMAX): a = s.fit(a, IMAX)
            lo, hi = rng(ty)
            if lo <= a[2] and a[3] <= hi: lo, hi = a[2], a[3]
            return '(%s) %s' % (ty, s.par(a[0])), ty, lo, hi
        if k < .96 and not s.sh:
            a, b = s.expr(d - 1), s.expr(d - 1)
            return '(%s, %s)' % (a[0], b[0]), b[1], b[2], b[3]
        if k < .98 and not s.sh: ty = s.r.choice(s.types); return '(int) sizeof(%s)' % ty, 'int', TY[ty][0], TY[ty][0]
        return s.leaf()
    # ---- statements
    def show(s, e):
        t, ty, lo, hi = e
        if ty == 'long long': return 'pl(%s);' % t
        if ty == 'unsigned': return 'pu(%s);' % t
        return 'p(%s);' % t
    def lval(s):
        c = [v for v in s.vars if v[0] not in s.locked]
        k = s.r.random()
        if s.arrs and k < .25: a = s.r.choice(s.arrs); return '%s[%s]' % (a[0], s.idx(a[2], True)), a[1]
        if s.structs and k < .35: return s.r.choice(s.structs)
        if s.ptrs and k < .45: p = s.r.choice(s.ptrs); return '*' + p[0], p[1]
        if c: v = s.r.choice(c); return v[0], v[1]
        return None
    def assign(s):
        l = s.lval()
        if not l: return s.show(s.expr(2))
        t, ty = l
        k = s.r.random()
        if '[' in t and '(' in t and k >= .5: k = .1   # no calls twice
        if k < .55: return '%s = %s;' % (t, s.conv(ty))
        if k < .8 and ty not in ('int', 'unsigned', 'long long'):
            op = s.r.choice(['+', '-', '*', '&', '|', '^', '/', '%', '>>'])
            e = s.fit(s.expr(2), 1000)
            if e[1] == 'unsigned': e = s.nonneg(e); e = ('(%s & 255)' % e[0], 'unsigned', 0, 255)
            if e[1] == 'unsigned' and TY[ty][1]: e = ('(int) (%s)' % e[0], 'int', e[2], e[3])
            if op in '/%': e = (str(s.r.randint(1, 300)), 'int', 1, 1)
            if op == '>>': e = (str(s.r.randint(0, 7)), 'int', 1, 1)
            if op == '-' and e[1] == 'unsigned': op = '^'
            return '%s %s= %s;' % (t, op, e[0])
        if k < .8:
            op = s.r.choice(['&', '|', '^', '/', '%', '>>'])
            e = s.nonneg(s.expr(2))
            if ty != 'unsigned' and e[1] == 'unsigned': e = ('(%s & 65535)' % e[0], 'unsigned', 0, 65535); e = ('(int) %s' % e[0], 'int', 0, 65535) if not s.sh else e
            if ty == 'int' and e[1] == 'long long': e = s.fit(e, 30000); e = ('(int) (%s)' % e[0], 'int', 0, 0)
            if op in '/%': e = (str(s.r.randint(1, 70000)), 'int', 1, 1)
            if op == '>>': e = (str(s.r.randint(0, 14)), 'int', 1, 1)
            return '%s %s= %s;' % (t, op, e[0])
        if ty in ('char', 'short', 'unsigned char', 'unsigned short') or s.tgt == 'none':
            return s.pick('%s++;', '%s--;', '++%s;', '--%s;') % (t if not t.startswith('*') else '(%s)' % t)
        return '%s = %s;' % (t, s.conv(ty))
    def block(s, d, n):
        sv, sa, sp, ss = len(s.vars), len(s.arrs), len(s.ptrs), len(s.structs)
        out = []
        decl = []
        out = [s.stmt(d) for _ in range(n)]
        del s.vars[sv:]; del s.arrs[sa:]; del s.ptrs[sp:]; del s.structs[ss:]
        return ' '.join(out)
    def stmt(s, d):
        k = s.r.random()
        if s.budget <= 0: return s.show(s.leaf()) if s.r.random() < .3 else s.assign()
        s.budget -= 1
        if s.funs and s.r.random() < .12:
            f = s.r.choice(s.funs); c = '%s(%s)' % (f[0], ', '.join(s.conv(t) for t in f[2]))
            l = [v for v in s.vars if v[0] not in s.locked and v[1] == f[1]]
            q = s.r.random()
            if q < .4 and l: return '%s = %s;' % (s.r.choice(l)[0], c)
            if q < .6: return 'if (%s %s %s) { %s }' % (s.expr(1)[0], s.pick('&&', '||'), c, s.assign())
            if q < .8 and not s.sh: return 'p(%s ? %s : 5);' % (s.expr(1)[0], c) if f[1] not in ('unsigned', 'long long') else c + ';'
            return s.show((c, f[1], 0, 0))
        if d <= 0 or k < .35: return s.assign()
        if k < .5: return s.show(s.expr(3))
        if k < .62:
            t = 'if (%s) { %s }' % (s.expr(2)[0], s.block(d - 1, s.r.randint(1, 3)))
            if s.r.random() < .3: t += ' else if (%s) { %s }' % (s.expr(2)[0], s.block(d - 1, s.r.randint(1, 2)))
            if s.r.random() < .6: t += ' else { %s }' % s.block(d - 1, s.r.randint(1, 3))
            return t
        if k < .80 and s.loopd < 2:
            s.loopd += 1
            i = s.name('i'); n = s.r.randint(1, 4)
            s.counters.append(i); s.locked.add(i); s.vars.append((i, 'int'))
            pre = s.block(d - 1, s.r.randint(1, 2))
            ctl = ''
            q = s.r.random()
            if q < .5: ctl = 'if (%s) %s; ' % (s.expr(2)[0], s.pick('break', 'continue'))
            post = s.block(d - 1, s.r.randint(0, 2))
            f = s.r.random()
            if f < .4: t = 'for (%s = 0; %s < %d; %s++) { %s %s%s }' % (i, i, n, i, pre, ctl, post)
            elif f < .7: t = '%s = 0; while (%s < %d) { %s = %s + 1; %s %s%s }' % (i, i, n, i, i, pre, ctl, post)
            else: t = '%s = 0; do { %s = %s + 1; %s %s%s } while (%s < %d);' % (i, i, i, pre, ctl, post, i, n)
            s.vars = [v for v in s.vars if v[0] != i]
            s.loopd -= 1
            return t
        if k < .88:
            e = s.expr(2); e = s.fit(e, 7) if s.r.random() < .8 else s.fit(e, 300)
            if s.sh: e = ('(%s)' % e[0],) + e[1:]
            cs = s.r.sample(range(-3 if e[1] != 'unsigned' and not s.sh else 0, 8), s.r.randint(1, 4)); t = 'switch (%s) { ' % e[0]
            sh = s.sh
            dpos = s.r.randint(0, len(cs)) if not sh else len(cs)
            if s.r.random() < .3: dpos = -1
            sd = s.loopd; s.loopd = 9
            for j, c in enumerate(cs):
                if j == dpos: t += 'default: %s %s ' % (s.block(d - 1, 1), 'break;' if s.r.random() < .7 else '')
                t += 'case %d: ' % c
                if s.r.random() < .8 or j == len(cs) - 1: t += '%s ' % s.block(d - 1, 1)
                else: continue
                if s.r.random() < .75 or sh: t += 'break; '
            if dpos == len(cs): t += 'default: %s %s' % (s.block(d - 1, 1), 'break; ' if sh else '')
            s.loopd = sd
            return t + '}'
        if k < .95 and not s.sh:
            # inner block with its own variables, possibly shadowing
            ty = s.r.choice(s.types)
            old = [v for v in s.vars if v[0].startswith('v') and v[0] not in s.locked]
            nm = s.r.choice(old)[0] if old and s.r.random() < .6 else s.name()
            init = s.conv(ty) if nm not in [v[0] for v in old] else s.lit()[0]
            hid = [v for v in s.vars if v[0] == nm]
            keep = list(s.vars); hs = [p for p in s.ptrs]
            s.vars = [v for v in s.vars if v[0] != nm] + [(nm, ty)]
            b = s.block(d - 1, s.r.randint(1, 3))
            s.vars = keep
            return '{ %s %s = %s; %s }' % (ty, nm, init, b)
        return s.assign()
    def func(s, name, nargs, ret):
        s.vars, s.arrs, s.ptrs, s.structs, s.locked, s.counters = list(s.gvars), list(s.garrs), [], list(s.gstructs), set(), []
        ps = []
        for _ in range(nargs):
            ty = s.r.choice(s.types); nm = s.name('a'); ps.append((nm, ty)); s.vars.append((nm, ty))
        s.budget = 14
        decl = []
        for _ in range(s.r.randint(1, 4)):
            ty = s.r.choice(s.types); nm = s.name(); decl.append('%s %s = %s;' % (ty, nm, s.lit()[0])); s.vars.append((nm, ty))
        if not s.sh:
            if s.r.random() < .6:
                ty = s.r.choice(s.types); nm = s.name('l'); n = s.pick(2, 4, 5, 8)
                decl.append('%s %s[%d]; int k_%s;' % (ty, nm, n, nm))
                post = 'for (k_%s = 0; k_%s < %d; k_%s++) %s[k_%s] = k_%s * %d;' % (nm, nm, n, nm, nm, nm, nm, s.r.randint(1, 90))
                s.arrs.append((nm, ty, n))
            else: post = ''
            if s.r.random() < .5:
                nm = s.name('q'); c = [v for v in s.vars if v[0][0] in 'vga']
                if c:
                    v = s.r.choice(c)
                    # the pointer keeps pointing to this object
                    decl.append('%s *%s = &%s;' % (v[1], nm, v[0])); s.ptrs.append((nm, v[1]))
            if s.r.random() < .4:
                ms = [(s.name('m'), s.r.choice(s.types)) for _ in range(s.r.randint(1, 4))]
                sn = s.name('S'); nm = s.name('s'); nb = s.name('s')
                s.sdefs.append('struct %s { %s };' % (sn, ' '.join('%s %s;' % (t, m) for m, t in ms)))
                decl.append('struct %s %s; struct %s %s; struct %s *p%s;' % (sn, nm, sn, nb, sn, nm))
                post += ''.join(' %s.%s = %s;' % (nm, m, s.lit()[0]) for m, t in ms) + ' %s = %s; p%s = &%s;' % (nb, nm, nm, nb)
                for m, t in ms: s.structs += [('%s.%s' % (nm, m), t), ('p%s->%s' % (nm, m), t)]
            decl.append(post)
        body = ' '.join(s.stmt(3) for _ in range(s.r.randint(3, 6)))
        for v in s.vars: body += ' ' + s.show((v[0], v[1], 0, 0))
        for a in s.arrs: body += ' ' + s.show(('%s[%d]' % (a[0], s.r.randint(0, a[2] - 1)), a[1], 0, 0))
        s.budget = 3
        cd = ''.join('int %s = 0; ' % c for c in s.counters)
        r = s.expr(2)
        lo, hi = rng(ret)
        if ret != 'int' or not (IMIN <= r[2] and r[3] <= IMAX): r = s.fit(r, min(hi, IMAX)); r = s.nonneg(r) if lo == 0 else r; r = ('(%s & 63)' % r[0],)
        return '%s %s(%s) { %s %s %s return %s; }\n' % (ret, name, ', '.join('%s %s' % (t, n) for n, t in ps) if ps else '', cd, ' '.join(decl), body, r[0]), (name, ret, [t for n, t in ps])
    def program(s):
        s.gvars, s.garrs, s.gstructs, s.sdefs = [], [], [], []
        g = ''
        for _ in range(s.r.randint(1, 4)):
            ty = s.r.choice(s.types); nm = s.name('g'); s.gvars.append((nm, ty))
            l = s.lit()
            if ty == 'unsigned' and l[2] < 0: l = ('77',)
            g += '%s %s%s;\n' % (ty, nm, ' = %s' % l[0].strip('()') if not l[0].startswith('(~') and s.r.random() < .7 else '')
        if s.r.random() < .7:
            ty = s.r.choice(s.types); nm = s.name('h'); n = s.pick(2, 4, 8, 11); s.garrs.append((nm, ty, n)); g += '%s %s[%d];\n' % (ty, nm, n)
        fs = ''
        main = ''
        s.funs = []
        n = s.r.randint(1, 3)
        for i in range(n):
            t, f = s.func('f%d' % i, s.r.randint(0, 3), s.r.choice(['int', 'int', 'int'] + ([] if s.sh else s.types)))
            s.vars = [('4', 'int')]
            s.arrs, s.ptrs, s.structs = [], [], []
            fs += t
            s.newf = f
            sf = s.funs; s.funs = []
            for _ in range(2):
                args = ', '.join(s.lit()[0] if a in ('int',) else s.lit(0, 1 << 30)[0] for a in f[2])
                main += '  ' + s.show(('%s(%s)' % (f[0], args), f[1], 0, 0)) + '\n'
            s.funs = sf + [f]
        init = ''.join('  for (i = 0; i < %d; i++) %s[i] = i * 3;\n' % (a[2], a[0]) for a in s.garrs)
        return PRE + ('' if s.sh else PU) + (PL if s.tgt == 'x64' else '') + '\n'.join(s.sdefs) + '\n' + g + fs + 'int main() { int i;\n' + init + main + '  return 0;\n}\n'
def program(seed, tgt): return G(seed, tgt).program()
if __name__ == '__main__':
    import sys
    print(program(int(sys.argv[1]), sys.argv[2]))
