from generic import *
def check(ctx):
    q = ctx.quick
    def g(name, threads, depth, menu, texts, sim=0, **kw):
        return dict(name=name, consts=dict(Threads=set(range(1, threads + 1))), subst={}, mcsubst=dict(LabelMenu=menu, Texts=texts),
                    mc=None if depth is None else dict(Depth=depth, MaxNew=4), simmc=dict(Depth=0, MaxNew=50), sim=sim, **kw)
    groups = [g('order', 1, 5 if q else 6, 'Menu1', 'Texts1', max=5000 if q else 20000), g('order2', 1, None if q else 6, 'Menu2', 'Texts1', max=20000),
              g('threads', 2, 4 if q else 5, 'Menu1', 'Texts1', max=3000 if q else 20000),
              g('random', 3, None, 'Menu3', 'Texts3', sim=250 if q else 5000),
              g('parallel', 5, None, 'Menu3', 'Texts3', sim=150 if q else 4000, simspec='ParSpec', simdepth=16)]
    mbt(ctx, 'Registry', 'registry.cpp', groups, inv=['VisitsAllOnce', 'Alphabetical', 'WidthIsLongest', 'FindIsLast'], prop=['OnlyWarningOn', 'NewIsHarmless'],
        siminv=[], traceconstraint=['Furthest'], retries=20)
