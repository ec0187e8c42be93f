#!/usr/bin/env python3
"""Runner of the contract checks:  vf.py <PROPERTY> [--tier quick|thorough] [--only NAME] [-v]

For every obligation of the property (registered in obligations.py):
  goto-cc (real /repo sources + contracts) -> goto-instrument --dfcc
  --enforce-contract f --replace-call-with-contract g... -> cbmc
An obligation is discharged when CBMC accepts every check it generates and the
reachability assertion at the end of the harness is reachable (not vacuous).
When a check fails, the counterexample is replayed on the real code (the same
harness compiled by gcc); see DESIGN.md, section "Verdicts".
"""
import sys, os, json, subprocess, tempfile, shutil, time, re, hashlib, threading, random
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
SPECS = os.path.join(V, 'specs')
REPO = os.environ.get('VF_REPO', '/repo')

CFG = {
  'x64':  ['-Dtarget_x86_64_linux'],
  'i386': ['-Dtarget_i386_linux'],
  'mac':  ['-Dtarget_x86_64_mac'],
  'sh':   ['-Dsh'],
  'shrel': ['-DRELEASE_PNUT_SH'],
  'x64rel': ['-DRELEASE_PNUT_x86_64_linux'],
  'none': [],
}
BACKEND = {'sat': 'CBMC built-in SAT', 'z3': 'Z3 4.8.12', 'cvc5': 'cvc5 1.1.2'}
MEM_KB = 12 * 1024 * 1024

def run(cmd, timeout, cwd=None, env=None, stdin=None, mem=None):
    """returns (rc, stdout, stderr, seconds); rc None on timeout"""
    t = time.time()
    def lim():
        import resource
        os.setsid()
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem * 1024, mem * 1024))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, preexec_fn=lim)
    try:
        o, e = p.communicate(stdin, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except Exception: pass
        o, e = p.communicate()
        rc = None
    return rc, o.decode('utf8', 'replace'), e.decode('utf8', 'replace'), time.time() - t

class O:
    """One obligation."""
    def __init__(s, name, spec, cfg='x64', enforce=None, rec=False, replace=(), unwind=None, unwindset=None,
                 bounded=None, solver=None, timeout=300, defs=(), harness=None, checks=(), native=True,
                 replay=None, tier='quick', covers='', nosearch=False, loops=None, cbmc=(), frame_alarm=False, exact=False, function=None, fallback_defs=(), fallback_bound='bounded unrolling', fallback_cbmc=None, sample=None):
        s.fallback_cbmc = fallback_cbmc
        s.sample = sample if sample is not None else (1 if bounded else 0)
        s.fallback_defs, s.fallback_bound = list(fallback_defs), fallback_bound
        s.name, s.spec, s.cfg, s.enforce, s.rec = name, spec, cfg, enforce, rec
        s.replace, s.unwind, s.unwindset = list(replace), unwind, unwindset
        s.bounded, s.solver, s.timeout, s.defs = bounded, solver, timeout, list(defs)
        s.harness = harness or name
        s.checks, s.native, s.replay, s.tier = list(checks), native, replay, tier
        s.covers, s.nosearch, s.loops, s.cbmc = covers, nosearch, loops, list(cbmc)
        s.frame_alarm, s.exact, s.function = frame_alarm, exact, function or enforce
    @property
    def id(s): return s.name + '@' + s.cfg + (('/' + ','.join(d[2:] for d in s.defs)) if s.defs else '')

def harnesses(spec, seen=None):
    """names of the H_ harness functions of a spec (following its local includes)"""
    seen = seen if seen is not None else set()
    if spec in seen: return []
    seen.add(spec)
    txt = open(os.path.join(SPECS, spec)).read()
    return txt

CAPACITIES = 'MAX_CODE_SIZE STRING_POOL_SIZE HEAP_SIZE TEXT_POOL_SIZE GLO_DECL_SIZE IFDEF_DEPTH_MAX MACRO_RECURSION_MAX'.split()
def overlay(tmp):
    """The verified text: /repo's sources as they are now, with the table capacities of
    CAPACITIES (and only these #define lines) wrapped in #ifndef, so that an obligation may
    be generated for a smaller table.  Nothing else is changed or dropped."""
    d = os.path.join(tmp, 'ov', 'repo')
    os.makedirs(d)
    for f in os.listdir(REPO):
        if not f.endswith(('.c', '.h')): continue
        t = open(os.path.join(REPO, f), encoding='latin-1').read()
        t = re.sub(r'^([ \t]*#[ \t]*define (%s) .*)$' % '|'.join(CAPACITIES), r'#ifndef \2\n\1\n#endif', t, flags=re.M)
        open(os.path.join(d, f), 'w', encoding='latin-1').write(t)
    for sub in ('portable_libc',):
        shutil.copytree(os.path.join(REPO, sub), os.path.join(d, sub))
    return os.path.join(tmp, 'ov')

class Ctx:
    def __init__(s, prop, tier, seed, verbose):
        s.prop, s.tier, s.seed, s.verbose = prop, tier, seed, verbose
        s.tmp = tempfile.mkdtemp(prefix='vf-%s-' % prop, dir='/tmp')
        s.lock = threading.Lock()
        s.ov = overlay(s.tmp)
        s.native_cache = {}
        s.stop = False   # set by the first confirmed violation
        s.locks = {}
        s.t0 = time.time()
        s.budget = 400.0   # CPU seconds for native searches after failed obligations
    def log(s, *a):
        with s.lock:
            print('[%6.1fs]' % (time.time() - s.t0), *a, flush=True)

def ob_dir(ctx, ob):
    d = os.path.join(ctx.tmp, re.sub(r'[^A-Za-z0-9_]', '_', ob.id)[:100] + hashlib.md5(ob.id.encode()).hexdigest()[:6])
    os.makedirs(d, exist_ok=True)
    return d

def cbmc_obligation(ctx, ob):
    """returns dict(status=discharged|failed|undecided, ...)"""
    d = ob_dir(ctx, ob)
    h = 'H_' + ob.harness
    r = dict(id=ob.id, function=ob.function, harness=h, replaced=ob.replace, bounded=ob.bounded, status='undecided',
             checks=0, passed=0, solver_s=0.0, backend='', reason='')
    gcc = ['goto-cc'] + CFG[ob.cfg] + ob.defs + ['-DVF_OB_' + ob.harness, '-I', SPECS, '-I', ctx.ov, '--function', h,
           os.path.join(SPECS, ob.spec), '-o', d + '/a.gb']
    rc, o, e, t = run(gcc, 120)
    if rc != 0:
        r['reason'] = 'goto-cc: ' + (e + o)[-600:]; return r
    cur = d + '/a.gb'
    # only where no contract clause calls a helper function (those count as unused)
    rc = 1
    if 'VF_DROP_OK' in open(os.path.join(SPECS, ob.spec)).read(): rc, o, e, t = run(['goto-instrument', '--drop-unused-functions', d + '/a.gb', d + '/a2.gb'], 60)
    if rc == 0: cur = d + '/a2.gb'
    gi = ['goto-instrument', '--dfcc', h]
    if ob.enforce: gi += ['--enforce-contract-rec' if ob.rec else '--enforce-contract', ob.enforce]
    for f in ob.replace: gi += ['--replace-call-with-contract', f]
    if ob.loops:
        fs = []
        for fn, ls in ob.loops.items():
            lst = []
            for i, (lid, assigns, inv, syms) in enumerate(ls):
                sm = ';'.join('%s,%s::%s' % (n.split(':')[0], fn, n.split(':', 1)[1] if ':' in n else n) for n in syms)
                lst.append(dict(loop_id=str(lid), assigns=assigns, invariants=inv, symbol_map=sm))
            fs.append({fn: lst})
        json.dump(dict(sources=[ob.spec], functions=fs), open(d + '/loops.json', 'w'))
        gi += ['--loop-contracts-file', d + '/loops.json', '--apply-loop-contracts']
    gi += [cur, d + '/b.gb']
    rc, o, e, t = run(gi, 180)
    cmd_txt = ' '.join(gcc) + ' && ' + ' '.join(gi)
    if rc != 0:
        r['reason'] = 'goto-instrument: ' + '\n'.join(l for l in (e + o).split('\n') if not l.startswith(('Wrapping', 'Instrumenting')))[-600:]; r['cmd'] = cmd_txt; return r
    cb = ['cbmc', '--object-bits', '14', '--slice-formula', '--no-standard-checks']
    if 'mem' in ob.checks: cb += ['--bounds-check', '--pointer-check']
    if 'div' in ob.checks: cb += ['--div-by-zero-check']
    if ob.unwind: cb += ['--unwind', str(ob.unwind)]
    if ob.unwindset: cb += ['--unwindset', ob.unwindset]
    cb += ['--unwinding-assertions']
    cb += ob.cbmc
    r['cmd'] = cmd_txt + ' && ' + ' '.join(cb + [d + '/b.gb'])
    solvers = (ob.solver or 'sat').split(',')
    res = None
    for i, sv in enumerate(solvers):
        tmo = ob.timeout if i == len(solvers) - 1 else max(30, ob.timeout // 3)
        svo = ['--' + sv] if sv != 'sat' else []
        rc, o, e, t = run(cb + svo + [d + '/b.gb'], tmo, mem=MEM_KB)
        r['solver_s'] = round(r['solver_s'] + t, 2)
        r['backend'] = BACKEND[sv]
        if rc is None: r['reason'] = 'cbmc: timeout after %ds' % tmo; continue
        if '\nVERIFICATION ' not in o:
            r['reason'] = 'cbmc: no result (rc %s): %s' % (rc, (e + o)[-400:]); continue
        res = [dict(property=m[0], description=m[1], status=m[2]) for m in
               re.findall(r'^\[([^\]\s]+)\] (?:line \d+ )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$', o, re.M)]
        if any(p['status'] in ('UNKNOWN', 'ERROR') for p in res):
            r['reason'] = 'cbmc: solver gave up'; res = None
        if res is not None: r['reason'] = ''; break
    if res is None: return r
    fails, reach, n, ok = [], False, 0, 0
    has_reach = False
    for p in res:
        desc = p.get('description', '')
        if 'REACH' in desc:
            has_reach = True
            if p['status'] == 'FAILURE': reach = True
            continue
        n += 1
        if p['status'] == 'SUCCESS': ok += 1
        else: fails.append(p)
    r['checks'], r['passed'] = n, ok
    if has_reach and not reach and not fails:
        r['reason'] = 'vacuous: the end of the harness is unreachable'; return r
    if not has_reach: r['reason'] = 'no reachability assertion'; return r
    if n == 0: r['reason'] = 'no obligation generated'; return r
    if not fails:
        r['status'] = 'discharged'; return r
    if ob.loops:
        r['status'] = 'undecided'; r['kind'] = 'loop'
        r['reason'] = 'loop contract: ' + '; '.join(p['property'] + ' ' + p.get('description', '') for p in fails[:4])
        return r
    unw = [p for p in fails if 'unwind' in p.get('property', '') or 'unwinding' in p.get('description', '') or 'recursion' in p.get('property', '')]
    frame = [p for p in fails if 'assigns' in p.get('property', '') or 'is assignable' in p.get('description', '') or 'frees' in p.get('property', '')
             or 'Check that' in p.get('description', '')]
    sem = [p for p in fails if p not in unw and p not in frame]
    if sem: chosen = sem[0]; r['status'] = 'failed'; r['kind'] = 'semantic'
    elif frame: chosen = frame[0]; r['status'] = 'failed'; r['kind'] = 'frame'
    else:
        r['reason'] = 'loop bound exceeded: ' + unw[0].get('description', ''); r['status'] = 'undecided'; r['kind'] = 'unwind'
        chosen = unw[0]
    r['failed_checks'] = [(p['property'], p['description']) for p in (sem + frame + unw)][:12]
    # counterexample inputs
    cex_all = []
    for p in (sem + frame + unw)[:3]:
        ins = {}
        aw = ("awk -v H=%s '/^State [0-9]+ /{f=0; for(i=1;i<NF;i++) if($i==\"function\") f=($(i+1)==H)} f && /^  [A-Za-z_][A-Za-z_0-9]*=/ {print substr($0,1,200)}'" % h)
        rc, o, e, t = run(['bash', '-c', ' '.join(cb + svo + ['--trace', '--property', "'" + p['property'] + "'", d + '/b.gb']) + ' | ' + aw], min(150, ob.timeout), mem=MEM_KB)
        r['solver_s'] = round(r['solver_s'] + t, 2)
        for m in re.finditer(r'^  ([A-Za-z_]\w*)=(-?\d+|TRUE|FALSE)\S* ', o, re.M):
            v = m.group(2)
            if m.group(1) != 'vf_tmp_': ins[m.group(1)] = int(v == 'TRUE') if v in ('TRUE', 'FALSE') else int(v)
        cex_all.append(ins)
        if ob.native and len(ins) and not native_is_clean(ctx, ob, ins): break
    r['inputs'] = cex_all
    r['reason'] = r['reason'] or '; '.join('%s: %s' % x for x in r['failed_checks'][:4])
    return r

def native_prog(ctx, ob):
    defs = [x for x in ob.defs if x[2:].split('=')[0] not in CAPACITIES]
    key = (ob.spec, ob.cfg, tuple(defs))
    with ctx.lock:
        lk = ctx.locks.setdefault(key, threading.Lock())
    with lk:
        if key in ctx.native_cache: return ctx.native_cache[key]
        d = os.path.join(ctx.tmp, 'nat_' + hashlib.md5(repr(key).encode()).hexdigest()[:8])
        os.makedirs(d, exist_ok=True)
        base = ['gcc', '-w', '-g', '-O1', '-fwrapv', '-fsanitize=address', '-DVF_NATIVE', '-I', SPECS, '-I', ctx.ov] + CFG[ob.cfg] + defs
        rc, o, e, t = run(base + ['-c', os.path.join(SPECS, ob.spec), '-o', d + '/s.o'], 120)
        res = (None, 'gcc: ' + e[-800:])
        if rc == 0:
            rc, o, e, t = run(['nm', d + '/s.o'], 20)
            names = re.findall(r' T (H_\w+)', o)
            with open(d + '/tbl.c', 'w') as f:
                f.write('struct ent { const char *n; void (*f)(void); };\n')
                for n in names: f.write('void %s(void);\n' % n)
                f.write('struct ent vf_table[] = {' + ','.join('{"%s",%s}' % (n[2:], n) for n in names) + (',' if names else '') + '{0,0}};\n')
            rc, o, e, t = run(base + [d + '/s.o', d + '/tbl.c', os.path.join(SPECS, 'native_main.c'), '-o', d + '/prog'], 120)
            res = (d + '/prog', '') if rc == 0 else (None, 'gcc link: ' + e[-800:])
        ctx.native_cache[key] = res
        return res

NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:detect_odr_violation=0')

def native_replay(ctx, ob, inputs):
    prog, err = native_prog(ctx, ob)
    if not prog: return None, err
    rc, o, e, t = run([prog, ob.harness, 'replay'] + ['%s=%d' % kv for kv in inputs.items()], 20, env=NENV)
    return rc, o + e[-1500:]

def native_is_clean(ctx, ob, ins):
    rc, out = native_replay(ctx, ob, ins)
    return rc != 1

def native_search(ctx, ob, secs, inputs=None):
    prog, err = native_prog(ctx, ob)
    if not prog: return None, err, {}
    rc, o, e, t = run([prog, ob.harness, 'search', str(ctx.seed), str(secs)] + ['%s=%d' % kv for kv in (inputs or {}).items()], secs + 30, env=NENV)
    ins = dict((k, int(v)) for k, v in re.findall(r'^IN (\w+)=(-?\d+)$', o, re.M))
    return rc, o + e[-1500:], ins

def write_replay(ctx, ob, res, extra):
    os.makedirs(os.path.join(V, 'replay'), exist_ok=True)
    p = os.path.join(V, 'replay', '%s-%s.txt' % (ctx.prop, re.sub(r'[^A-Za-z0-9_]', '_', res['id'])[:80]))
    with open(p, 'w') as f:
        f.write('property: %s\nobligation: %s\nfunction under contract: %s\n' % (ctx.prop, res['id'], res.get('function')))
        f.write('failed checks:\n')
        for a in res.get('failed_checks', []): f.write('  %s: %s\n' % tuple(a))
        f.write('verifier command: %s\n' % res.get('cmd', ''))
        f.write(extra + '\n')
    return p

def decide(ctx, ob):
    if ctx.stop:
        return dict(id=ob.id, function=ob.function, status='skipped', checks=0, passed=0, solver_s=0.0, backend='', replaced=ob.replace,
                    bounded=ob.bounded, reason='not evaluated: a violation was already confirmed', violation=None)
    res = decide_(ctx, ob)
    if res['violation'] and res['violation'][1] and not any(k.get('obligation') == res['id'] for k in load_known(ctx.prop)):
        ctx.stop = True
        subprocess.run(['pkill', '-9', '-f', ctx.tmp + '/.*b.gb'], stderr=subprocess.DEVNULL)
    return res

def run_e2e(ctx, f):
    if ctx.stop: return dict(programs=0, failures=[], note='not run: a violation was already confirmed')
    return f(ctx)

def decide_(ctx, ob):
    res = cbmc_obligation(ctx, ob)
    if ctx.stop and res['status'] != 'discharged':
        res.update(status='skipped', violation=None); return res
    if ob.loops and res['status'] != 'discharged':
        # the loop contract no longer fits the code (or the code is wrong): decide by bounded unrolling
        import copy
        fb = copy.copy(ob); fb.loops = None; fb.defs = ob.defs + ob.fallback_defs; fb.bounded = ob.fallback_bound; fb.cbmc = ob.fallback_cbmc if ob.fallback_cbmc is not None else ob.cbmc
        ctx.log('loops    ', ob.id, res['reason'][:200])
        r2 = cbmc_obligation(ctx, fb)
        r2['solver_s'] += res['solver_s']
        r2['reason'] = (r2['reason'] + ' [loop contract not accepted: ' + res['reason'][:150] + ']')
        res = r2; ob = fb
    res['violation'] = None
    if res['status'] == 'discharged' and ob.sample and ob.native:
        # bounded stand-in: widen the bound by concrete executions of the same harness
        rc, out, ins = native_search(ctx, ob, ob.sample)
        res['fallback'] = 'native executions beyond the bound: ' + ' '.join(out.split('\n')[:1])[:120]
        if rc == 1:
            rc2, out2 = native_replay(ctx, ob, ins)
            if rc2 == 1:
                p = write_replay(ctx, ob, res, 'found by native execution of the harness on the real code, inputs:\n%s\n%s' % (json.dumps(ins), out2))
                res['violation'] = (p, True); res['confirmed'] = out2[:300]
                ctx.log('sampled violation', ob.id, out2[:200])
                return res
    if res['status'] == 'discharged':
        if ctx.verbose: ctx.log('ok      %-50s %5d checks %6.1fs' % (ob.id, res['checks'], res['solver_s']))
        return res
    ctx.log('%-9s %s: %s' % (res['status'], ob.id, res['reason'][:160].replace('\n', ' ')))
    # 1. replay the verifier's counterexamples on the real code
    spurious = 0
    if ob.native:
        for ins in res.get('inputs', []):
            rc, out = native_replay(ctx, ob, ins)
            if rc == 0: spurious += 1
            if rc == 1:
                p = write_replay(ctx, ob, res, 'replayed on the real code (gcc build of the same harness), inputs:\n%s\n%s' % (json.dumps(ins), out))
                res['violation'] = (p, True); res['confirmed'] = out[:300]
                return res
        # 2. search close to the counterexample and at random (bounded)
        if not ob.nosearch:
            with ctx.lock:
                secs = min(20 if ctx.tier == 'quick' else 60, ctx.budget)
                if res['status'] == 'undecided': secs = min(secs, max(2, ctx.budget / 10))
                ctx.budget -= secs
            secs = max(secs, 1)
            rc, out, ins = native_search(ctx, ob, secs, (res.get('inputs') or [{}])[0])
            if rc == 1:
                # must be reproducible
                rc2, out2 = native_replay(ctx, ob, ins)
                if rc2 == 1:
                    p = write_replay(ctx, ob, res, 'found by the native search on the real code, inputs:\n%s\n%s' % (json.dumps(ins), out2))
                    res['violation'] = (p, True); res['confirmed'] = out2[:300]
                    return res
            res['fallback'] = 'bounded native search: ' + ' '.join(out.split('\n')[:2])[:200]
    if ob.replay:
        out = ob.replay(ctx, ob, res)
        if out:
            p = write_replay(ctx, ob, res, out)
            res['violation'] = (p, True); res['confirmed'] = out[:300]
            return res
        res['fallback'] = (res.get('fallback') or '') + ' program replay found no failing input'
    if res['status'] == 'failed' and ob.exact and spurious and spurious == len(res['inputs']):
        # the harness is deterministic in its inputs and the real code satisfies the contract on the
        # verifier's counterexamples: the failure is an imprecision of the callee contracts
        res['status'] = 'undecided'; res['reason'] = 'spurious counterexample: ' + res['reason']
        return res
    if res['status'] == 'failed' and (res.get('kind') == 'semantic' or ob.frame_alarm):
        p = write_replay(ctx, ob, res, 'counterexample inputs (not confirmed natively): %s' % json.dumps(res.get('inputs', [])[:2]))
        res['violation'] = (p, False)
    return res

def load_known(prop):
    p = os.path.join(V, 'known_findings.json')
    try: return [k for k in json.load(open(p)) if k.get('property') == prop and k.get('status') == 'known']
    except Exception: return []

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only'); ap.add_argument('-v', action='store_true'); ap.add_argument('--keep', action='store_true')
    ap.add_argument('--noe2e', action='store_true')
    ap.add_argument('-j', type=int, default=min(8, os.cpu_count() or 4))
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import obligations
    P = obligations.PROPS[a.prop]
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    ctx = Ctx(a.prop, tier, seed, a.v or True)
    t0 = time.time()
    obs = [o for o in P['obligations'] if (o.tier == 'quick' or tier == 'thorough')]
    if a.only: obs = [o for o in obs if re.search(a.only, o.id)]
    results, e2e = [], []
    try:
        with ThreadPoolExecutor(a.j) as ex:
            efut = []
            if not a.noe2e and not a.only:
                efut = [(n, ex.submit(run_e2e, ctx, f)) for n, f in P.get('e2e', [])]
            futs = [ex.submit(decide, ctx, o) for o in sorted(obs, key=lambda o: -o.timeout)]
            for f in futs: results.append(f.result())
            for n, f in efut: e2e.append((n, f.result()))
        rc = report(ctx, P, obs, results, e2e, time.time() - t0, write=not a.only)
    finally:
        if not a.keep: shutil.rmtree(ctx.tmp, ignore_errors=True)
        else: print('kept', ctx.tmp)
    sys.exit(rc)

def report(ctx, P, obs, results, e2e, wall, write=True):
    known = load_known(ctx.prop)
    viol, kf = [], []
    for r in results:
        if r['violation']:
            m = [k for k in known if k.get('obligation') == r['id']]
            if m: kf.append((m[0], r)); continue
            viol.append((r['id'], r['violation'][0], r['violation'][1]))
    for n, er in e2e:
        # er: dict(programs=int, failures=[(key, text)], samples=[...], note=str)
        for key, text in er.get('failures', []):
            m = [k for k in known if k.get('case') == key and k.get('got', '') in text]
            if m: kf.append((m[0], None)); continue
            os.makedirs(os.path.join(V, 'replay'), exist_ok=True)
            p = os.path.join(V, 'replay', '%s-%s.txt' % (ctx.prop, re.sub(r'[^A-Za-z0-9_]', '_', n + '_' + key)[:80]))
            open(p, 'w').write(text)
            viol.append((n + ':' + key, p, True))
    ok = [r for r in results if r['status'] == 'discharged']
    proved = [r for r in ok if not r['bounded']]
    bounded = [r for r in ok if r['bounded']]
    und = [r for r in results if r['status'] == 'undecided']
    level = P.get('level', 'proof')
    fns = sorted(set(r['function'] for r in proved if r['function']))
    cov = dict(
        obligations=sum(max(r['checks'], 1) for r in results if not r['bounded']),
        discharged=sum(r['passed'] for r in proved),
        contracts_checked=len([r for r in results if not r['bounded']]), contracts_proved=len(proved),
        functions_under_contract=fns,
        per_contract=[dict(id=r['id'], function=r['function'], status=r['status'], checks=r['checks'], solver_s=r['solver_s'], backend=r['backend'],
                           callees_by_contract=r['replaced'], bounded=r['bounded'], note=(r['reason'][:200] + ' ' + r.get('fallback', ''))) for r in results],
        bounded_stand_ins=[dict(id=r['id'], bound=r['bounded']) for r in bounded],
        undecided=[dict(id=r['id'], reason=r['reason'][:200], fallback=r.get('fallback', '')) for r in und],
        solver_s=round(sum(r['solver_s'] for r in results), 1),
        checker_cmd='goto-cc -D<target> specs/<spec>.c --function H_x && goto-instrument --dfcc H_x --enforce-contract f [--replace-call-with-contract g] && cbmc --slice-formula --unwinding-assertions',
        trusted_base=P.get('trusted', []) + ['CBMC 6.11.0 (goto-cc, goto-instrument --dfcc, SAT back end)', 'gcc 13.3 build of the same source for replays'],
        contract_validation=[dict(name=n, **{k: v for k, v in er.items() if k != 'failures'}) for n, er in e2e],
    )
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov,
              assumptions=P.get('assumptions', []) + GLOBAL_ASSUMPTIONS,
              wall_s=round(wall, 1), violations=len(viol))
    if level == 'other': cov['explanation'] = P.get('explanation', '')
    if write:
        os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(V, 'evidence', ctx.prop + '.json'), 'w'), indent=1)
    for k, r in kf: print('KNOWN-FINDING: property=%s %s' % (ctx.prop, k.get('what', '')))
    print('%s: %d contracts, %d proved, %d bounded, %d undecided; %d checks; %d validation programs; %.1fs' % (
        ctx.prop, len(results), len(proved), len(bounded), len(und), sum(r['checks'] for r in results),
        sum(er.get('programs', 0) for n, er in e2e), wall))
    # confirmed violations first
    viol.sort(key=lambda v: not v[2])
    for n, p, conf in viol:
        print('  violated: %s%s' % (n, '' if conf else ' (no failing input found)'))
    if viol:
        n, p, conf = viol[0]
        print('VIOLATION property=%s replay=%s%s' % (ctx.prop, p, '' if conf else ' no-failing-input-found'))
        return 1
    return 0

GLOBAL_ASSUMPTIONS = [
    'signed machine arithmetic wraps (two\'s complement), as in the gcc builds of pnut; shifts follow CBMC\'s C semantics',
    'LP64 host data model (intptr_t heap of 64 bit cells), one thread, no external modification of globals',
    'partial correctness: termination is only shown where loops are completely unwound',
]
if __name__ == '__main__': main()
