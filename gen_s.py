"""Random C programs about control flow and initialization (oracle: gcc on the same text).  Every basic block leaves a trace;
conditions come from a small pseudo random generator of the program itself; loops and backward gotos consume fuel."""
import random
PRE = r'''int putchar(int c);
void p1(int n) { if (n > 9) p1(n / 10); putchar(48 + n % 10); }
void p(int n) { if (n < 0) { putchar(45); n = 0 - n; } p1(n); putchar(10); }
int seed_ = 7; int fuel = 0; int lines = 0;
int rnd(int n) { seed_ = (seed_ * 131 + 57) % 10007; return seed_ % n; }
void t(int n) { if (lines < 400) { p(n); lines = lines + 1; } }
'''
class G:
    def __init__(s, seed, tgt):
        s.r = random.Random('s%d' % seed); s.tgt = tgt; s.sh = tgt == 'sh'; s.n = 0; s.k = 0; s.budget = 0
        s.loop = 0; s.sw = 0; s.top = False; s.declared = set(); s.labels = []; s.use = []; s.vars = []; s.types = []; s.funs = []
    def nm(s, p): s.n += 1; return p + str(s.n)
    def tr(s): s.k += 1; return 't(%d);' % s.k
    def cond(s):
        k = s.r.random()
        c = 'rnd(%d) %s %d' % ((lambda n: (n, s.r.choice(['<', '>', '==', '!=', '<=']), s.r.randint(0, n - 1)))(s.r.randint(2, 5)))
        if s.sh: c = '(%s)' % c
        if k < .15: c = '!(%s)' % c
        if k > .85 and s.vars: c = '%s %s %s' % (c, s.r.choice(['&&', '||']), '(%s & 1)' % s.r.choice(s.vars))
        return c
    def more(s, c=None):
        """loop condition consuming fuel"""
        return '(fuel = fuel - 1) > 0 && %s' % (c or s.cond())
    def simple(s):
        k = s.r.random()
        if s.vars and k < .35:
            v = s.r.choice(s.vars); return '%s = (%s * 3 + %d) & 1023; ' % (v, s.r.choice(s.vars), s.r.randint(0, 99)) + ('t(%s);' % v if s.r.random() < .5 else '')
        if s.funs and k < .5:
            f = s.r.choice(s.funs); s.k += 1
            v = [x for x in s.vars]
            c = '%s(%s)' % (f[0], ', '.join(s.r.choice(v + [str(s.r.randint(0, 50))]) for _ in range(f[1])))
            return 'if (lines < 300) { %s }' % (c + ';' if s.r.random() < .3 or not v else '%s = %s; t(%s);' % ((lambda x: (x, c, x))(s.r.choice(v))))
        return s.tr()
    def init(s, ty):
        """initializer text for a type tree"""
        k = ty[0]
        if k == 'int': return str(s.r.choice([0, 1, -1, 65, 127, 1000, 12345, -200]) if ty[1] in ('int', 'short') else s.r.randint(0, 100))
        if k == 'arr':
            if ty[1][0] == 'int' and ty[1][1] == 'char' and s.r.random() < .4 and ty[2] > 1:
                return '"%s"' % ''.join(s.r.choice('abcXYZ 09') for _ in range(s.r.randint(0, ty[2] - 1)))
            return '{ %s }' % ', '.join(s.init(ty[1]) for _ in range(s.r.randint(1, ty[2])))
        if k == 'st':
            return '{ %s }' % ', '.join(s.init(m) for m in ty[2][:s.r.randint(1, len(ty[2]))])
    def paths(s, ty, a):
        k = ty[0]
        if k == 'int': return [a]
        if k == 'arr': return [p for i in range(ty[2]) for p in s.paths(ty[1], '%s[%d]' % (a, i))]
        return [p for i, m in enumerate(ty[2]) for p in s.paths(m, '%s.m%d' % (a, i))]
    def type(s, d=2):
        k = s.r.random()
        if d == 0 or k < .4: return ('int', s.r.choice(['int', 'char', 'short', 'int']))
        if k < .7: return ('arr', s.type(d - 1), s.r.randint(1, 4))
        if s.types and k < .85: return s.r.choice(s.types)
        return s.newst(d)
    def newst(s, d):
        ms = [s.type(d - 1) for _ in range(s.r.randint(1, 4))]
        t = ('st', s.nm('S'), ms); s.sdefs.append('struct %s { %s };' % (t[1], ' '.join(s.decl(m, 'm%d' % i) + ';' for i, m in enumerate(ms))))
        s.types.append(t); return t
    def decl(s, ty, n):
        suf = ''
        while ty[0] == 'arr': suf += '[%d]' % ty[2]; ty = ty[1]
        return '%s %s%s' % (ty[1] if ty[0] == 'int' else 'struct ' + ty[1], n, suf)
    def body(s, d, n):
        """statements of a block with its own variables"""
        sv = list(s.vars); sd = s.declared; out = []
        if not s.top: s.declared = set()
        s.top = False
        for _ in range(n):
            if not s.sh and s.r.random() < .3: out.append(s.localdecl())
            out.append(s.stmt(d))
        s.vars = sv; s.declared = sd
        return ' '.join(out)
    def localdecl(s):
        q = s.r.random()
        if q < .4:
            v = s.r.choice(s.vars) if s.vars and s.r.random() < .3 else s.nm('v')
            if v in s.declared or s.gotos and v in s.vars: v = s.nm('v')
            s.declared.add(v)
            if s.gotos: return 'int %s = %d; t(%s);' % (v, s.r.randint(0, 500), v)   # a goto may skip the initialization
            s.vars = s.vars + [v]; return 'int %s = %d;' % (v, s.r.randint(0, 500))
        if q < .55:
            v = s.nm('st'); return 'static int %s = %d; %s = %s + 1; t(%s);' % (v, s.r.randint(0, 50), v, v, v)
        ty = s.type(); v = s.nm('w')
        ps = s.paths(ty, v)
        st = 'static ' if s.r.random() < .2 else ''
        t = '%s%s = %s; ' % (st, s.decl(ty, v), s.init(ty))
        if st and ty[0] == 'arr' and '"' in t: pass
        t += ' '.join('t(%s);' % x for x in s.r.sample(ps, min(3, len(ps))))
        if ty[0] == 'st' and s.r.random() < .4:
            w = s.nm('w'); t += ' %s = %s; t(%s);' % (s.decl(ty, w), v, s.r.choice(s.paths(ty, w)))
            if s.r.random() < .5:
                o = s.nm('w'); ot = ('st', s.nm('S'), [('int', 'int'), ty, ('int', 'char')]); s.sdefs.append('struct %s { int m0; struct %s m1; char m2; };' % (ot[1], ty[1]))
                g = s.nm('v'); t += ' int %s = 3; %s = { 1, %s%s }; t(%s); t(%s);' % (g, s.decl(ot, o), v, ', 5' if s.r.random() < .5 else '', s.r.choice(s.paths(ot, o)), g)
        return t
    def stmt(s, d):
        if s.budget <= 0 or d <= 0: return s.simple()
        s.budget -= 1
        k = s.r.random()
        if k < .2: return s.simple()
        if k < .35:
            t = 'if (%s) %s' % (s.cond(), s.blk(d - 1))
            if s.r.random() < .5: t += ' else %s' % s.blk(d - 1)
            return t
        if k < .6:
            s.loop += 1
            q = s.r.random()
            b = s.blk(d - 1, ctl=True)
            if q < .3: t = 'while (%s) %s' % (s.more(), b)
            elif q < .55: t = 'do %s while (%s);' % (b, s.more())
            else:
                parts = [s.simple_expr() if s.r.random() < .5 else '', s.more() if s.r.random() < .7 else '', s.simple_expr() if s.r.random() < .6 else '']
                if not parts[1] and s.sh and s.sw: parts[1] = s.more()
                if not parts[1]: b = '{ if ((fuel = fuel - 1) < 0) break; %s }' % b
                t = 'for (%s; %s; %s) %s' % (parts[0], parts[1], parts[2], b)
            s.loop -= 1
            return t
        if k < .78:
            n = s.r.randint(1, 5); sd = s.sw; s.sw += 1
            cs = s.r.sample(range(0, 7), n)
            t = 'switch (rnd(7)%s) { ' % (' + 0' if s.r.random() < .2 else '')
            dp = s.r.randint(0, n) if s.r.random() < .7 else -1
            if s.sh: dp = n if dp >= 0 else -1
            for j, c in enumerate(cs + [None]):
                if j == dp:
                    t += 'default: %s ' % (s.tr() if s.r.random() < .5 else s.stmt(d - 1))
                    if s.sh or s.r.random() < .5: t += 'break; '
                if c is None: break
                t += 'case %d: ' % c
                if s.r.random() < .25 and j < n - 1: continue
                t += s.stmt(d - 1) if s.r.random() < .7 else '{ %s }' % s.body(d - 1, 1)
                t += ' '
                if s.sh or s.r.random() < .6: t += (s.r.choice(['break; ', 'break; ', 'continue; ', 'return %d; ' % s.r.randint(0, 9)]) if s.loop else s.r.choice(['break; ', 'break; ', 'return %d; ' % s.r.randint(0, 9)])) if not s.sh else 'break; '
            s.sw = sd
            return t + '}'
        if k < .86 and not s.sh: return s.blk(d - 1)
        if k < .93 and s.gotos:
            if s.r.random() < .5:
                l = s.nm('L'); s.labels.append(l)
                return '%s: %s' % (l, s.tr())
            return 'if ((fuel = fuel - 1) > 0 && %s) goto @;' % s.cond()
        if k < .96 and not (s.sh and s.sw): return 'if (%s) return %d;' % (s.cond(), s.r.randint(0, 99)) if not s.sh or True else ''
        return s.simple()
    def simple_expr(s):
        s.k += 1
        return 't(%d)' % s.k if s.r.random() < .6 or not s.vars else '%s = (%s + 1) & 255' % ((lambda v: (v, v))(s.r.choice(s.vars)))
    def blk(s, d, ctl=False):
        n = s.r.randint(1, 3)
        if not ctl and not s.sh and s.r.random() < .15: return s.tr()
        pre = s.body(d, n)
        if ctl and s.r.random() < .6:
            c = 'if (%s) %s;' % (s.cond(), s.r.choice(['break', 'continue']))
            if s.sh and s.sw: c = ''
            return '{ %s %s %s %s }' % (pre, c, s.body(d, s.r.randint(0, 2)), '' if s.r.random() < .8 or s.sh and s.sw else s.r.choice(['break;', 'return %d;' % s.r.randint(0, 99), 'if (%s) { %s break; } else { %s break; }' % (s.cond(), s.tr(), s.tr()), 'if (%s) return 4; else %s' % (s.cond(), s.r.choice(['return 5;', 'break;']))]))
        return '{ %s }' % pre
    def func(s, name, na):
        s.vars = ['a%d' % i for i in range(na)]
        ps = ', '.join('int ' + v for v in s.vars); s.labels = []; s.budget = 16; s.loop = s.sw = 0; s.declared = set(s.vars); s.top = True; s.gotos = not s.sh and s.r.random() < .5
        d = ''
        if s.gotos: d = 'int y1 = 3; int y2 = 8; '; s.vars += ['y1', 'y2']
        if s.sh: d = 'int x1 = 4; int x2; '; s.vars += ['x1', 'x2']; d += 'x2 = %d; ' % s.r.randint(0, 9)
        b = s.body(4, s.r.randint(3, 6))
        # gotos: labels inside of blocks have variables that are not read after the label unless assigned
        while '@' in b:
            b = b.replace('goto @;', 'goto %s;' % s.r.choice(s.labels) if s.labels else ';', 1)
        v = s.vars[0] if na else '0'
        t = 'int %s(%s) { %s%s return %s; }\n' % (name, ps, d, b, v)
        s.funs.append((name, na))
        return t
    def program(s):
        s.sdefs = []; g = ''
        gs = []
        if not s.sh:
            for _ in range(s.r.randint(1, 4)):
                ty = s.type(); v = s.nm('g')
                g += '%s = %s;\n' % (s.decl(ty, v), s.init(ty)); gs += s.paths(ty, v)
        fs = ''.join(s.func('f%d' % i, s.r.randint(0, 3)) for i in range(s.r.randint(1, 3)))
        m = ''.join('t(%s); ' % x for x in s.r.sample(gs, min(12, len(gs))))
        for f in s.funs:
            for _ in range(3): m += 'fuel = %d; t(%s(%s)); lines = 0;\n  ' % (s.r.randint(5, 40), f[0], ', '.join(str(s.r.randint(0, 99)) for _ in range(f[1])))
        if s.sh: m = m.replace('t(f', 'r = (f').replace(')); lines', ')); t(r); lines').replace('r = (f', 'r = f').replace(')); t(r)', '); t(r)')
        return PRE + '\n'.join(s.sdefs) + '\n' + g + fs + 'int main() { %sseed_ = %d;\n  %s\n  return %d;\n}\n' % ('int r; ' if s.sh else '', s.r.randint(1, 9999), m, s.r.randint(0, 99))
def stmts(seed, tgt): return G(seed, tgt).program()
if __name__ == '__main__':
    import sys
    print(stmts(int(sys.argv[1]), sys.argv[2]))
