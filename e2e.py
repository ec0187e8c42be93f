"""Whole-program validation of contracts and replay of counterexamples:
pnut is built from /repo's working tree (gcc), compiles generated C programs for
x86-64 Linux, i386 Linux and POSIX shell, and the output of the compiled program
is compared with an oracle computed here.  Everything runs in a scratch directory."""
import os, time, subprocess, hashlib, random, threading
from vf import run
REPO = '/repo'
TGT = {'x64': ['-Dtarget_x86_64_linux'], 'i386': ['-Dtarget_i386_linux'], 'sh': ['-Dsh', '-DRT_NO_INIT_GLOBALS']}
_lock = threading.Lock()
def pnut(ctx, tgt, extra=()):
    p = os.path.join(ctx.tmp, 'pnut-' + tgt + ('-' + hashlib.md5(repr(extra).encode()).hexdigest()[:6] if extra else ''))
    with _lock:
        if not os.path.exists(p):
            rc, o, e, t = run(['gcc', '-w', '-O1', '-fwrapv'] + TGT[tgt] + list(extra) + [REPO + '/pnut.c', '-o', p], 120, cwd=REPO)
            if rc != 0: return None
    return p
def compile_c(ctx, tgt, src, name, opts=()):
    """returns (path of the compiled program or None, message)"""
    pn = pnut(ctx, tgt)
    if not pn: return None, 'pnut does not build'
    c = os.path.join(ctx.tmp, name + '.c'); out = os.path.join(ctx.tmp, name + '.' + tgt)
    open(c, 'w').write(src)
    of = open(out, 'wb')
    p = subprocess.Popen([pn] + list(opts) + [c], stdout=of, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, cwd=ctx.tmp)
    of.close()
    try: rc = p.wait(20)
    except subprocess.TimeoutExpired:
        p.kill(); p.wait(); return None, 'pnut: timeout'
    if rc != 0:
        return None, 'pnut: exit %s: %s' % (rc, open(out, 'rb').read()[-300:].decode('latin1'))
    os.chmod(out, 0o755)
    return out, ''
def execute(ctx, tgt, prog, inp=b'', shell='dash', timeout=20, args=()):
    """returns (rc, stdout) of the compiled program"""
    cmd = ([shell, prog] if tgt == 'sh' else [prog]) + list(args)
    import resource
    def lim():
        os.setsid(); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    for k in range(50):
        try:
            p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, cwd=ctx.tmp, preexec_fn=lim)
            break
        except OSError as e:   # text file busy: another thread forked while the file was being written
            if e.errno != 26 or k == 49: raise
            time.sleep(0.05)
    try: o, _ = p.communicate(inp, timeout=timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except Exception: pass
        p.communicate(); return None, b''
    return p.returncode, o
PRELUDE = r'''
void pn(int c) { putchar(c); }
void pu(unsigned n) { if (n > 9) pu(n / 10); putchar(48 + n % 10); }
'''
# decimal printing that only relies on signed / and % with positive operands
PRINT = r'''
void p1(int n) { if (n > 9) p1(n / 10); putchar(48 + n % 10); }
void p(int n) { if (n < 0) { putchar(45); if (n < -2147483647) { p1(214748364); putchar(56); putchar(10); return; } n = 0 - n; } p1(n); putchar(10); }
'''
def expect(ctx, tgt, src, name, want, inp=b'', opts=(), shell='dash', want_rc=None, timeout=20):
    """None when the compiled program prints `want`, else a description"""
    prog, msg = compile_c(ctx, tgt, src, name, opts)
    if prog is None: got = msg
    else:
        rc, o = execute(ctx, tgt, prog, inp, shell, timeout)
        if o == want and (want_rc is None or rc == want_rc): return None
        got = 'rc=%s output=%r' % (rc, o[:2000])
    return 'target %s\n---- program ----\n%s\n---- input %r\n---- expected %r (rc %s)\n---- got %s\n' % (tgt, src, inp[:200], want[:2000], want_rc, got)
