from generic import *
def check(ctx):
    q = ctx.quick
    def pre(ctx, g, s):
        s['cfg'] = dict(scale=ctx.rng.randrange(5)); return s
    groups = [dict(name='small', consts=dict(MaxAddr=4 if q else 5), mc=dict(Depth=3), max=11000 if q else 10**6),
              dict(name='large', consts=dict(MaxAddr=26), simmc=dict(Depth=30), sim=200 if q else 4000, simdepth=30)]
    if not q: groups.append(dict(name='four', consts=dict(MaxAddr=4), mc=dict(Depth=4), max=60000))
    mbt(ctx, 'SymbolRanges', 'symbolranges.cpp', groups, inv=['Best'], prop=['Local'], pre=pre, chunk=3000)
