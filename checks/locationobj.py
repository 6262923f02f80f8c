from generic import *
def check(ctx):
    q = ctx.quick
    def g(name, n, addrs, depth, sim, threads='T_one', fmts='F_none', mx=None, simdepth=40, early=False):
        d = dict(name=name, consts=dict(N=n, Early=early), subst=dict(Threads=threads, AddrsUsed=addrs), mcsubst=dict(Fmts=fmts), mc=None if depth is None else dict(Depth=depth),
                 simmc=dict(Depth=simdepth), simdepth=simdepth, sim=sim, cfg=dict(n=n))
        if early: d['env'] = dict(EARLY='1')
        if mx: d['max'] = mx
        return d
    groups = [g('own3', 3, 'A_two', 6 if q else 8, 100 if q else 1000), g('own2', 2, 'A_three', 6 if q else 8, 100 if q else 1000),
              g('fmt', 1, 'A_all', 4 if q else 5, 0, 'T_two', 'F_all' if not q else 'F_some'),
              g('all', 5, 'A_all', None, 300 if q else 5000, 'T_two'), g('kinds', 4, 'A_kinds', None if q else 6, 200 if q else 3000, 'T_two', mx=6000)]
    groups.append(g('early', 3, 'A_early', 4 if q else 5, 60 if q else 600, simdepth=15, early=True, mx=150 if q else 3000))
    mbt(ctx, 'LocationObj', 'locationobj.cpp', groups, maxscripts=3000, variant='asan', extra=['-g'],
        inv=['OneOwner', 'NoPathNoOwner'], prop=['FreedByOwner', 'FreedOnce', 'OthersKeep', 'CopyEqual'])
