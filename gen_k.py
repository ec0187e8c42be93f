"""Random C programs about calls: arguments by value (scalars, structs, unions, pointers, arrays), results, recursion,
function pointers, struct assignment, string literals (oracle: gcc on the same text)."""
import random
PRE = r'''int putchar(int c);
void p1(int n) { if (n > 9) p1(n / 10); putchar(48 + n % 10); }
void p(int n) { if (n < 0) { putchar(45); n = 0 - n; } p1(n); putchar(32); }
void nl(int n) { putchar(58); p(n); putchar(10); }
'''
SC = [('int', -100000, 100000), ('char', -128, 127), ('unsigned char', 0, 255), ('short', -32768, 32767), ('unsigned short', 0, 65535), ('unsigned int', 0, 100000)]
class G:
    def __init__(s, seed, tgt):
        s.r = random.Random('k%d' % seed); s.tgt = tgt; s.n = 0; s.structs = []; s.funs = []
        s.sc = SC + ([('long long', -10**6, 10**6)] if tgt == 'x64' else [])
    def nm(s, p): s.n += 1; return p + str(s.n)
    def struct(s):
        kind = s.r.choice(['struct', 'struct', 'struct', 'union']); ms = []
        for i in range(s.r.randint(1, 5)):
            k = s.r.random()
            if k < .25: t = s.r.choice(s.sc); ms.append(('arr', t, s.r.randint(1, 9)))
            elif k < .4 and s.structs: ms.append(('st', s.r.choice(s.structs)))
            else: ms.append(('sc', s.r.choice(s.sc)))
        st = (kind, s.nm('S'), ms); s.structs.append(st); return st
    def sdef(s, st):
        return '%s %s { %s };\n' % (st[0], st[1], ' '.join('%s m%d%s;' % (m[1][0] if m[0] != 'st' else '%s %s' % (m[1][0], m[1][1]), i, '[%d]' % m[2] if m[0] == 'arr' else '') for i, m in enumerate(st[2])))
    def paths(s, st, a):
        """scalar paths; only one member of a union"""
        out = []
        ms = list(enumerate(st[2]))
        if st[0] == 'union': ms = [ms[len(st[1]) % len(ms)]]
        for i, m in ms:
            q = '%s.m%d' % (a, i)
            if m[0] == 'sc': out.append((q, m[1]))
            elif m[0] == 'arr': out += [('%s[%d]' % (q, j), m[1]) for j in range(m[2])]
            else: out += s.paths(m[1], q)
        return out
    def val(s, t): return str(s.r.choice([s.r.randint(t[1], t[2]), t[1], t[2], 0, 1]))
    def fill(s, st, a): return ' '.join('%s = %s;' % (q, s.val(t)) for q, t in s.paths(st, a))
    def dump(s, st, a): return ' '.join('p(%s);' % q for q, t in s.paths(st, a))
    def func(s):
        n = s.r.randint(1, 6); ps = []; 
        for i in range(n):
            k = s.r.random()
            if k < .4 and s.structs: ps.append(('st', s.r.choice(s.structs)))
            elif k < .5 and s.structs: ps.append(('ptr', s.r.choice(s.structs)))
            elif k < .6: ps.append(('arr', s.r.choice(s.sc)))
            else: ps.append(('sc', s.r.choice(s.sc)))
        f = s.nm('f'); b = ''; d = ''
        def ty(i, q): 
            if q[0] == 'st': return '%s %s a%d' % (q[1][0], q[1][1], i)
            if q[0] == 'ptr': return '%s %s *a%d' % (q[1][0], q[1][1], i)
            if q[0] == 'arr': return '%s%s' % (q[1][0], s.r.choice([' *a%d' % i, ' a%d[]' % i, ' a%d[3]' % i]))
            return '%s a%d' % (q[1][0], i)
        for i in s.r.sample(range(n), n):
            q = ps[i]
            if q[0] == 'st': 
                b += s.dump(q[1], 'a%d' % i) + '\n  '
                if s.r.random() < .5:
                    b += s.fill(q[1], 'a%d' % i) + '\n  '
                if s.r.random() < .5:
                    v = s.nm('l'); d += '%s %s %s; ' % (q[1][0], q[1][1], v)
                    b += '%s = a%d; %s\n  ' % (v, i, s.dump(q[1], v))
            elif q[0] == 'ptr':
                pp = s.paths(q[1], '(*a%d)' % i)
                for x, t in s.r.sample(pp, min(3, len(pp))): b += 'p(%s); ' % x.replace('(*a%d).' % i, s.r.choice(['(*a%d).' % i, 'a%d->' % i]))
                x, t = s.r.choice(pp); b += '%s = %s;\n  ' % (x, s.val(t))
            elif q[0] == 'arr':
                b += 'p(a%d[%d]); a%d[%d] = %s; p(a%d[0]);\n  ' % (i, s.r.randint(0, 2), i, s.r.randint(0, 2), s.val(q[1]), i)
            else:
                b += 'p(a%d); ' % i
                if s.r.random() < .4: b += 'a%d = a%d %s %d; p(a%d & 255);\n  ' % (i, i, s.r.choice('+-^'), s.r.randint(1, 9), i)
        c = [(g, gp) for g, gp in s.funs if all(x[0] == 'sc' or x in ps for x in gp)]
        if c and s.r.random() < .6:
            g, gp = s.r.choice(c)
            b += 'p(%s(%s));\n  ' % (g, ', '.join('a%d' % s.r.choice([i for i, y in enumerate(ps) if y == x]) if x in ps else s.val(x[1]) for x in gp))
        s.funs.append((f, ps))
        return 'int %s(%s) {\n  %s\n  %s return %d; }\n' % (f, ', '.join(ty(i, q) for i, q in enumerate(ps)), d, b, s.r.randint(-99, 99))
    def program(s):
        t = PRE
        for _ in range(s.r.randint(1, 4)): t += s.sdef(s.struct())
        t += 'int fib(int n) { return n < 2 ? n : fib(n - 1) + fib(n - 2); }\nint ack(int a, int b) { int c; if (a == 0) return b + 1; if (b == 0) return ack(a - 1, 1); c = ack(a, b - 1); return ack(a - 1, c); }\nint sub3(int a, int b, int c) { return a * 100 - b * 10 + c; }\nint (*fp)(int, int, int);\nint slen(char *s) { int n; n = 0; while (s[n]) n = n + 1; return n; }\n'
        for i in range(s.r.randint(1, 4)): t += s.func()
        d = ''; b = ''
        g = ''
        for f, ps in s.funs:
            for _ in range(2):
                args = []
                pre = post = ''
                for q in ps:
                    v = s.nm('v')
                    if q[0] in ('st', 'ptr'):
                        k = s.r.random(); D = '%s %s %s' % (q[1][0], q[1][1], v); acc = v
                        if k < .3: D += '[3]'; acc = '%s[%d]' % (v, s.r.randint(0, 2))
                        if s.r.random() < .3: g += D + ';\n'
                        else: d += D + ';\n  '
                        pre += s.fill(q[1], acc) + '\n  '; post += s.dump(q[1], acc) + '\n  '
                        args.append(acc if q[0] == 'st' and s.r.random() < .7 else ('*&' if q[0] == 'st' else '&') + acc)
                    elif q[0] == 'arr':
                        D = '%s %s[3]' % (q[1][0], v)
                        if s.r.random() < .3: g += D + ';\n'
                        else: d += D + ';\n  '
                        pre += ' '.join('%s[%d] = %s;' % (v, i, s.val(q[1])) for i in range(3)) + '\n  '; post += 'p(%s[1]); ' % v
                        args.append(v)
                    else:
                        args.append(s.r.choice([s.val(q[1]), 'fib(%d)' % s.r.randint(0, 9), 'ack(%d, %d)' % (s.r.randint(0, 2), s.r.randint(0, 3)), 'sub3(%d, %d, fib(4))' % (s.r.randint(0, 1), s.r.randint(0, 9)), '(%s)(%s)' % (q[1][0], s.val(q[1]))]) if q[1][1] else str(s.r.randint(0, q[1][2])))
                b += pre + 'nl(%s(%s));\n  ' % (f, ', '.join(args)) + post + '\n  '
        st = ''.join(s.r.choice('abc XYZ019+-*/') for _ in range(s.r.randint(1, 12)))
        b += 'nl(slen("%s")); nl("%s"[%d]); ' % (st, st, s.r.randint(0, len(st)))
        b += 'fp = sub3; nl((*fp)(%d, %d, fib(%d))); nl(sub3(fib(6), ack(1, 2), sub3(1, 2, 3)) & 65535);\n' % (s.r.randint(0, 9), s.r.randint(0, 9), s.r.randint(0, 9)) if 0 else 'nl(sub3(fib(6), ack(1, 2), sub3(1, 2, 3)));\n'
        return t + g + 'int main() {\n  %s\n  %s  return %d;\n}\n' % (d, b, s.r.randint(0, 99))
def calls(seed, tgt): return G(seed, tgt).program()
if __name__ == '__main__':
    import sys
    print(calls(int(sys.argv[1]), sys.argv[2]))
