from generic import *
CH = {'AAA', 'DEBUG', 'ELFUTILS', 'LONGLABEL12', 'NOTICE', 'SYSTEM', 'WARNING', 'VERYLONGLABEL016'}
def check(ctx):
    q = ctx.quick
    def g(name, threads, depth, some, sets, names, sim=0, **kw):
        return dict(name=name, consts=dict(Threads=set(range(1, threads + 1)), Channels=CH, Late='VERYLONGLABEL016'), subst={},
                    mcsubst=dict(Sets=sets, Names=names), mc=None if depth is None else dict(Depth=depth, Some=some),
                    simmc=dict(Depth=0, Some=some), sim=sim, **kw)
    groups = [g('modes', 2, 4 if q else 5, {'AAA'}, 'Sets1', 'Names1'), g('toggles', 2, 6 if q else 7, {'AAA'}, 'Sets2', 'Names2'),
              g('three', 3, None if q else 5, {'NOTICE'}, 'Sets2', 'Names2'),
              g('random', 5, None, {'AAA'}, 'Sets1', 'Names1', sim=400 if q else 8000)]
    mbt(ctx, 'InitThread', 'initthread.cpp', groups, maxscripts=6000, inv=['LockSet', 'NamedMargins'], prop=['OnlyOwn', 'FromRc', 'CopiesMain', 'OffIsOff', 'RcFixed'], siminv=['LockSet', 'NamedMargins'])
