#!/usr/bin/env python3
"""Development aid: runs every native harness for a short time on the unchanged tree (none may fail)."""
import sys, os
from concurrent.futures import ThreadPoolExecutor
import vf, obligations
props = sys.argv[1:] or sorted(obligations.PROPS)
bad = 0
for p in props:
    c = vf.Ctx(p, 'quick', 1, False); seen = set()
    obs = []
    for o in obligations.PROPS[p]['obligations']:
        if o.native and (o.harness, o.cfg, tuple(o.defs)) not in seen:
            seen.add((o.harness, o.cfg, tuple(o.defs))); obs.append(o)
    def one(o):
        return o, vf.native_search(c, o, 1)
    with ThreadPoolExecutor(8) as ex:
        for o, (rc, out, ins) in ex.map(one, obs):
            if rc != 0: bad += 1; print('BAD', o.id, rc, out[:600])
            elif 'reached=0' in out or ' 0 runs' in out: print('?? ', o.id, out[:200])
    print(p, len(obs), 'harnesses'); import shutil; shutil.rmtree(c.tmp)
sys.exit(bad != 0)
