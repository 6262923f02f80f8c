#!/usr/bin/env python3
"""tools/simlook.py CHECKMODULE-GROUPS...: not a check; shows how varied the random scripts of a model are."""
import sys, os, json, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'checks'))
sys.dont_write_bytecode = True
import common, run
orig = common.simulate
def sim(ctx, name, module, cfg, num, depth, seed, **k):
    r = orig(ctx, name, module, cfg, num, depth, seed, **k)
    sc = [json.loads(common.unescape(s)) for s in r[1].scripts]
    print('==', name, len(sc), 'scripts;', 'distinct', len(set(map(json.dumps, sc))), 'distinct ops/script',
          round(sum(len(set(map(json.dumps, s))) for s in sc) / max(1, len(sc)), 1), 'length', round(sum(map(len, sc)) / max(1, len(sc)), 1))
    print(collections.Counter(o.get('op') for s in sc for o in s).most_common(40))
    print(json.dumps(sc[0])[:1200] if sc else None)
    return r
common.simulate = sim
import generic; generic.simulate = sim
ctx = common.Ctx(sys.argv[1])
def norep(*a, **k): return True
generic.replay = norep; common.replay = norep
try:
    import debugoutput; debugoutput.simulate = sim; debugoutput.replay = norep
except Exception as e: print(e)
run.lookup(sys.argv[1])(ctx)
import shutil; shutil.rmtree(ctx.work, ignore_errors=True)
