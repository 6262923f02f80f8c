from generic import *
def check(ctx, prop='C06'):
    q = ctx.quick
    def g(name, threads, start, progs=None, sim=0, **kw):
        lock = start != 'StartNone'
        return dict(name=name, consts=dict(Threads=set(range(1, threads + 1))), subst=dict(Start=start.replace('Start', 'StartDef')), mcsubst=dict(Start=start, Progs=progs or 'ProgsOne'),
                    mc=None if progs is None else dict(Depth=0, Variant='code'), simmc=dict(Depth=0, Variant='code'), sim=sim, cfg=dict(lock=lock, jitter=0), **kw)
    groups = [g('alone', 1, 'StartNone', 'ProgsOne'), g('switch', 2, 'Start1', 'ProgsAll', max=81), g('three', 3, 'Start1', 'ProgsShort', max=125),
              g('objects', 3, 'Start2', 'ProgsTwo', max=125),
              g('random', 4, 'Start2', None, sim=300 if q else 6000, simdepth=3), g('crowd', 8, 'Start1', None, sim=60 if q else 2000, simdepth=2)]
    if not q: groups.append(g('switch3', 3, 'Start1', 'ProgsAll', max=3000))
    # The same algorithm without one of its precautions has to be found out.
    for v in ('nostate', 'nowait', 'early'):
        cfg = cfg_text('Spec', dict(Threads={1, 2}, Depth=0, Variant=v, EmitScripts=False), dict(Start='Start1', Progs='ProgsAll'), invariants=['Allowed'])
        must_fail(ctx, 'wrong algorithm ' + v, 'OutputSwitchMC', cfg)
    def pre(ctx, g, s):
        return dict(s, cfg=dict(s['cfg'], jitter=ctx.rng.choice([0, 30, 300])))
    mbt(ctx, 'OutputSwitch', 'outputswitch.cpp', groups, inv=['Allowed', 'NeverStuck', 'Whole'], prop=['Ends'],
        view=None, siminv=[], traceconstraint=['Furthest'], retries=30, pre=pre)
