from generic import *
def check(ctx):
    q = ctx.quick
    def g(name, threads, progs=None, sim=0, **kw):
        return dict(name=name, consts=dict(Threads=set(range(1, threads + 1))), subst={}, mcsubst=dict(Progs=progs or 'Single'),
                    mc=None if progs is None else dict(Depth=0), simmc=dict(Depth=0), sim=sim, **kw)
    groups = [g('single', 1, 'Single'), g('race', 3, 'Race3', max=300 if q else 5000), g('objects', 3, 'Objects3', max=100 if q else 2000),
              g('random', 3, None, sim=300 if q else 6000, simdepth=12), g('crowd', 6, None, sim=150 if q else 4000, simdepth=3)]
    mbt(ctx, 'Fatal', 'fatal.cpp', groups, inv=['OneOwner', 'Delivered'], prop=['NeverReturns', 'OwnerStays', 'Final'],
        siminv=[], traceconstraint=['Furthest'], retries=10)
