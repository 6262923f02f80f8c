from generic import *
T = dict(b='base', d='derived', a='array')
def check(ctx):
    q = ctx.quick
    def g(t, depth, objs, sim, types=None):
        return dict(name=t, subst=dict(Types='T_' + t), mc=None if depth is None else dict(Depth=depth, MaxObjs=objs), simmc=dict(Depth=40, MaxObjs=12),
                    sim=sim, cfg=dict(types=types or [T[c] for c in t]))
    groups = [g('bb', 6 if q else 9, 2, 0), g('bd', 6 if q else 9, 2, 0), g('bbd', 5 if q else 7, 2, 100 if q else 2000), g('aa', 6 if q else 9, 2, 0),
              g('bbdd', 4 if q else 5, 2, 100 if q else 2000), g('aaa', None if q else 7, 2, 60 if q else 1000),
              g('all', None, 0, 200 if q else 3000, ['base', 'derived', 'array', 'derived', 'base', 'array'])]
    mbt(ctx, 'AutoPtr', 'autoptr.cpp', groups, maxscripts=4000, variant='asan',
        inv=['OneOwner', 'OnceAtMost', 'Accounted', 'OwnNothing'], prop=['LockedKeeps', 'KeepsPointing', 'SelfAssign', 'OwnerDestroys'])
