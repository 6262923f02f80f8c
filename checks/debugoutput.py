"""Checks based on DebugOutput.tla: C01, C02, C03, C04, C20 and the gated part of C05."""
import json
from common import *

CH = {'AAA', 'BBBBB', 'DEBUG', 'ELFUTILS', 'LONGLABEL12', 'NOTICE', 'OFF', 'SYSTEM', 'WARNING'}

def consts(threads, objects):
    return dict(Threads=set(range(1, threads + 1)), Objects=set(range(objects)), Channels=CH, LabelWidth=11)

INV = ['NothingWrong', 'SilentIffOff', 'Indentation', 'QuietWhenIdle']
PROP = ['Private', 'PrivateObj', 'FlushExactly', 'FlushOnlyAtEnds', 'NothingPendingAfterFlush', 'OnlyIfOn']

# menu: (threads, objects, quick depth, thorough depth)
MENUS = dict(
    MenuNest=(1, 1, 7, 9), MenuCont=(1, 1, 7, 9), MenuContFlush=(1, 1, 6, 8), MenuSwitch=(1, 1, 6, 8), MenuSwitchCont=(1, 1, 7, 9),
    MenuThreads=(2, 1, 6, 8), MenuThreadEnds=(2, 1, 6, 8), MenuEmpty=(2, 1, 6, 8), MenuObjects=(1, 2, 6, 8), MenuFlush=(1, 1, 6, 8), MenuFlush2=(2, 1, 6, 8),
    MenuCerr=(1, 1, 6, 8), MenuFatal=(1, 1, 5, 6),
    MenuMarkers=(2, 2, 6, 8), MenuMargins=(2, 2, 6, 8), MenuColors=(2, 2, 4, 6), MenuFormat=(1, 1, 6, 7), MenuFormat2=(2, 1, 5, 7))

# property: menus; simulations as (threads, objects, weight)
PROPS = dict(
    C01=(['MenuNest', 'MenuCerr', 'MenuCont', 'MenuObjects'], [(1, 1, 3), (1, 2, 2), (2, 1, 1)]),
    C02=(['MenuCont', 'MenuContFlush', 'MenuSwitchCont', 'MenuCerr', 'MenuFormat', 'MenuEmpty'], [(1, 1, 3), (1, 2, 1), (2, 1, 2)]),
    C03=(['MenuSwitch', 'MenuSwitchCont'], [(1, 1, 3), (1, 2, 2), (2, 1, 1)]),
    C04=(['MenuThreads', 'MenuThreadEnds', 'MenuObjects', 'MenuFlush2', 'MenuMarkers', 'MenuMargins', 'MenuColors'], [(2, 1, 2), (2, 2, 2), (3, 2, 2)]),
    C05=(['MenuThreads', 'MenuThreadEnds', 'MenuFormat2', 'MenuEmpty'], [(2, 1, 3), (3, 1, 2), (3, 2, 1)]),
    C20=(['MenuFlush', 'MenuFlush2', 'MenuContFlush'], [(1, 1, 3), (1, 2, 1), (2, 1, 2)]),
)

def prelude(threads):
    return [dict(op='allon', t=t) for t in range(1, threads + 1)]

def explore(ctx, menus, sims, depth_plus=0):
    """Model check the menus, simulate; returns scripts grouped by (threads, objects)."""
    jobs = []
    for m in menus:
        th, ob, dq, dt = MENUS[m]
        depth = (dq if ctx.quick else dt) + depth_plus
        cfg = cfg_text('Spec', dict(consts(th, ob), Depth=depth, EmitScripts=True), dict(Menu=m, Visible='VisibleDef'),
                       invariants=INV, properties=PROP, action_constraint=['EmitC'], view='View')
        jobs.append(lambda m=m, cfg=cfg: model_check(ctx, m, 'DebugOutputMC', cfg, workers=2, timeout=800))
    res = collect(ctx, parallel(jobs, 4))
    scripts = {}
    for m in menus:
        th, ob = MENUS[m][:2]
        sc = maximal(res[m])
        ctx.cov['models'][m]['scripts'] = len(sc)
        lim = (1500 if ctx.prop == 'C05' else 12000 // len(menus)) if ctx.quick else 20000
        if len(sc) > lim: sc = ctx.rng.sample(sc, lim)
        scripts.setdefault((th, ob), []).extend(sc)
    jobs = []
    for i, (th, ob, w) in enumerate(sims):
        depth = 40
        num = w * (60 if ctx.quick else 1500)
        cfg = cfg_text('SimSpec', dict(consts(th, ob), Depth=depth, EmitScripts=True), dict(Menu='MenuNest', Visible='VisibleDef'),
                       invariants=['SimBad'], action_constraint=['EmitEnd'])
        jobs.append(lambda th=th, ob=ob, i=i, cfg=cfg, num=num, depth=depth: simulate(ctx, 'sim-%d-%d' % (th, ob), 'DebugOutputMC', cfg, num, depth + 1, ctx.sub(i)))
    for (name, r), (th, ob, w) in zip(parallel(jobs), sims):
        sc = [json.loads(unescape(s)) for s in r.scripts]
        ctx.cov['transitions'] += r.generated
        ctx.cov['models'][name] = dict(generated=r.generated, scripts=len(sc), wall_s=round(r.wall, 1))
        ctx.sims = getattr(ctx, 'sims', {})
        ctx.sims.setdefault((th, ob), []).extend(sc)
        scripts.setdefault((th, ob), []).extend(sc)
    return scripts

def queries(ops, threads, objects):
    """Ask for the state of all threads that exist."""
    gone = set()
    for o in ops:
        if o['op'] == 'join': gone.add(o['t'])
        if o['op'] == 'new': gone.discard(o['t'])
    return [dict(op='query', t=t, o=o) for t in range(1, threads + 1) if t not in gone for o in range(objects)]

def loose(ops):
    """The part of the script in which what a thread does is not influenced by the other threads."""
    out = []
    for o in ops:
        if o['op'] in ('new', 'join', 'X') or o.get('k') == 'X': break
        if o['op'] in ('list', 'afon', 'afoff', 'query'): continue
        if 'fl' in o: o = dict(o, fl=[f for f in o['fl'] if f not in ('wait', 'cerr')])
        out.append(o)
    return out

def free_runs(ctx, exe, scripts):
    """The threads run freely; the trace has the order in which they had the lock."""
    tsan = build.build_driver('debugoutput.cpp', 'tsan')
    for (th, ob), sc in sorted(scripts.items()):
        sims = ctx.sims[(th, ob)]
        # The last operation can be misuse.
        sc = [loose(s[:-1]) for s in ctx.rng.sample(sc, min(len(sc), 150 if ctx.quick else 5000))] + [loose(s[:-1]) for s in sims]
        cfg = cfg_text('TraceSpec', consts(th, ob), dict(Visible='VisibleDef'), post='Accepted')
        full = [dict(cfg=dict(lock=True, free=th, jitter=ctx.rng.choice([0, 20, 100, 400])), ops=prelude(th) + ops) for ops in sc]
        if not replay(ctx, exe, full, 'DebugOutputTrace', cfg, tag='free %d threads' % th, retries=30): return False
        full = [dict(s) for s in ctx.rng.sample(full, min(len(full), 150 if ctx.quick else 3000))]
        if not replay(ctx, tsan, full, 'DebugOutputTrace', cfg, tag='races %d threads' % th, retries=30, timeout=40): return False
    return True

def check(ctx, prop):
    menus, sims = PROPS[prop]
    exe = build.build_driver('debugoutput.cpp')
    scripts = explore(ctx, menus, sims)
    if prop == 'C05':
        if not free_runs(ctx, exe, scripts): return
    for (th, ob), sc in sorted(scripts.items()):
        full = []
        for i, ops in enumerate(sc):
            lock = th > 1 or ctx.rng.random() < 0.5
            if prop == 'C04': ops = ops + queries(ops, th, ob)
            full.append(dict(cfg=dict(lock=lock), ops=prelude(th) + ops + [dict(op='query', t=1, o=ctx.rng.randrange(ob))]))
        cfg = cfg_text('TraceSpec', consts(th, ob), dict(Visible='VisibleDef'), post='Accepted')
        if not replay(ctx, exe, full, 'DebugOutputTrace', cfg, tag='%d threads' % th):
            return
