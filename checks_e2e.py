"""Bounded whole-program validations (labelled bounded in the evidence; never counted as proved)."""
import random, os, time, threading
from e2e import *

def result(programs, failures, note, samples=()):
    return dict(programs=programs, failures=failures, note=note, samples=list(samples)[:2])

def literals(ctx):
    rnd = random.Random(ctx.seed * 7919 + 1)
    n = 120 if ctx.tier == 'quick' else 1200
    fails, progs = [], 0
    for tgt, bits in (('x64', 64), ('i386', 31), ('sh', 31)):
        vals = [0, 1, 7, 8, 9, 10, 255, 256, 65535, 65536, 2**31 - 1] + ([2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**63 - 1, 2**63, 2**64 - 1] if bits == 64 else [])
        vals += [rnd.getrandbits(rnd.randint(1, bits)) for _ in range(n)]
        body, want = '', b''
        for v in vals:
            k = rnd.randint(0, 3)
            t = [str(v), hex(v), hex(v).upper().replace('0X', '0x'), '0' + oct(v)[2:]][k]
            if bits == 64:
                t += rnd.choice(['ULL', 'ull', 'uLL', 'LLU'])
                body += '  q(%s);\n' % t
                want += (' '.join(str((v >> s) & 255) for s in range(0, 64, 8)) + ' \n').encode()
            else:
                body += '  q(%s);\n' % t
                want += (' '.join(str((v >> s) & 255) for s in range(0, 32, 8)) + ' \n').encode()
        ty = 'unsigned long long' if bits == 64 else 'int'
        src = PRINT + 'void q(%s v) { int i; int b; for (i = 0; i < %d; i++) { b = v & 255; p1(b); putchar(32); v = v >> 8; } putchar(10); }\n' % (ty, 8 if bits == 64 else 4)
        src += 'int main() {\n' + body + '  return 0;\n}\n'
        progs += len(vals)
        f = expect(ctx, tgt, src, 'lit', want, want_rc=0)
        if f: fails.append(('lit-' + tgt, f))
    return result(progs, fails, 'random integer literals in all bases printed byte by byte by the compiled program')

# ---- random programs, oracle gcc
def one_program(ctx, tgt, seed, gen, opts=(), shell='dash'):
    """None (agrees), 'skip', or a description"""
    import gen_c, gen_s, gen_k, gen_d, gen_x
    src = getattr(gen_x if hasattr(gen_x, gen) and gen in gen_x.GENS else gen_d if hasattr(gen_d, gen) else gen_s if gen == "stmts" else gen_k if gen == "calls" else gen_c, gen)(seed, tgt)
    nm = '%s_%s_%d' % (gen, tgt, seed)
    c = os.path.join(ctx.tmp, nm + '.c'); g = os.path.join(ctx.tmp, nm + '.gcc')
    open(c, 'w').write(src)
    rc, o, e, t = run(['gcc', '-w', '-fwrapv', c, '-o', g], 60)
    if rc != 0: return 'skip'
    rc, want = execute(ctx, 'gcc', g, timeout=5)
    if rc is None or rc < 0 or len(want) > 100000: return 'skip'
    f = expect(ctx, tgt, src, nm, want, want_rc=rc, shell=shell, opts=opts, timeout=30)
    for x in (c, g, os.path.join(ctx.tmp, nm + '.' + tgt)):
        try: os.unlink(x)
        except OSError: pass
    return f and ('seed %d; the oracle is gcc -fwrapv on the same program\n' % seed) + f
def random_programs(tgts, n, thorough, gen='program', base=0):
    def go(ctx):
        from concurrent.futures import ThreadPoolExecutor
        for t in tgts: pnut(ctx, t)
        N = n if ctx.tier == 'quick' else thorough
        jobs = [(t, base + ctx.seed * 100000 + i) for i in range(N) for t in tgts]
        fails, cnt = [], 0
        with ThreadPoolExecutor(4) as ex:
            for (t, sd), f in zip(jobs, ex.map(lambda j: one_program(ctx, j[0], j[1], gen), jobs)):
                if f == 'skip': continue
                cnt += 1
                if f and len(fails) < 3: fails.append(('%s-%s-%d' % (gen, t, sd), f))
        return result(cnt, fails, 'random programs compared with gcc, targets ' + ' '.join(tgts))
    return go
_rp = {}
def random_replay(*gens, n=400):
    """replay of a failed obligation: look for a program that shows it (one search per run and target)"""
    def search(ctx, tgt, gen):
        key = (id(ctx), tgt, gen)
        with ctx.lock: lk = ctx.locks.setdefault(key, threading.Lock())
        with lk:
            if key not in _rp:
                from concurrent.futures import ThreadPoolExecutor
                pnut(ctx, tgt); out = ''
                t0 = time.time()
                with ThreadPoolExecutor(8) as ex:
                    for k in range(0, n, 40):
                        r = [f for f in ex.map(lambda j: one_program(ctx, tgt, 7000000 + j, gen), range(k, k + 40)) if f and f != 'skip']
                        if r: out = r[0]; break
                        if time.time() - t0 > 60 / max(len(gens), 1): break
                _rp[key] = out
            return _rp[key]
    def go(ctx, ob, res):
        tgt = ob.cfg if ob.cfg in TGT else 'sh' if ob.cfg.startswith('sh') else 'x64'
        for gen in gens or ('program',):
            f = search(ctx, tgt, gen)
            if f: return f
        return ''
    return go

def fixed_cases(cases):
    """(name, target, main body, expected output): programs for single findings"""
    def go(ctx):
        fails = []
        for nm, tgt, src, want in cases:
            f = expect(ctx, tgt, PRINT + src, nm, want.encode(), want_rc=0)
            if f: fails.append((nm, f))
        return result(len(cases), fails, 'fixed programs')
    return go
LVALUE_GROUPING = [
  ('lvalue-index-grouping', 'sh', 'int a[8];\nint main() { int i = 6; a[3] = 0; a[i & 3] = 5; p(a[2]); return 0; }\n', '5\n'),
  ('lvalue-base-grouping', 'sh', 'void *malloc(int n);\nint main() { int *q; int *r; int c = 1; q = malloc(16); r = malloc(16); q[2] = 1; (c ? q : r)[2] = 5; p(q[2]); return 0; }\n', '5\n'),
]
