"""The usual form of a check: one specification <Mod>.tla with <Mod>MC.tla (Spec, SimSpec, EmitC, EmitEnd, View) and <Mod>Trace.tla."""
import json
from common import *

def mbt(ctx, mod, driver, groups, inv=(), prop=(), view='View', variant='plain', timeout=10, simcount=100, simdepth=40, maxscripts=1500,
        extra=(), pre=None, env=None, wrap=(), chunk=400, workers=2, heap='3g', siminv=None, deps=(), traceconstraint=(), retries=3, regroup=None):
    """groups: list of dict(name, consts (same for MC and trace), subst, mc=dict of constants only for MC, sim=bool, cfg=script cfg).
    A group is checked exhaustively (mc given) and/or simulated (sim: number)."""
    exe = build.build_driver(driver, variant, extra=extra, deps=deps) if isinstance(driver, str) else None
    jobs = []
    for g in groups:
        consts, subst = g.get('consts', {}), g.get('subst', {})
        if g.get('mc') is not None:
            cfg = cfg_text('Spec', dict(consts, EmitScripts=True, **g['mc']), dict(subst, **g.get('mcsubst', {})), invariants=inv, properties=prop,
                           action_constraint=['EmitC'], view=g.get('view', view))
            jobs.append(lambda g=g, cfg=cfg: ('mc', g, model_check(ctx, g['name'], mod + 'MC', cfg, workers=workers, timeout=850, heap=heap)))
        if g.get('sim'):
            simmc = dict(g.get('simmc') or g.get('mc') or {})
            if 'Depth' in simmc: simmc['Depth'] = g.get('simdepth', simdepth)
            cfg = cfg_text(g.get('simspec', 'SimSpec'), dict(consts, EmitScripts=True, **simmc), dict(subst, **g.get('mcsubst', {})), invariants=siminv if siminv is not None else inv,
                           action_constraint=['EmitEnd'])
            jobs.append(lambda g=g, cfg=cfg: ('sim', g, simulate(ctx, g['name'] + '-sim', mod + 'MC', cfg, g['sim'],
                                              g.get('simdepth', simdepth) + 1, ctx.sub(g['name']))))
    scripts = {}
    for kind, g, (name, r) in parallel(jobs, 4):
        sc = [json.loads(unescape(s)) for s in r.scripts]
        ctx.cov['transitions'] += r.generated
        m = dict(generated=r.generated, wall_s=round(r.wall, 1))
        if kind == 'mc':
            ctx.cov['states'] += r.distinct
            m['distinct'] = r.distinct
            sc = maximal(sc)
            m['scripts'] = len(sc)
            lim = g.get('max', maxscripts if ctx.quick else 20 * maxscripts)
            if len(sc) > lim: sc = ctx.rng.sample(sc, lim)
        m['replayed'] = len(sc)
        ctx.cov['models'][name] = m
        scripts.setdefault(g['name'], (g, []))[1].extend(sc)
    for name, (g, sc) in scripts.items():
        full = [dict(cfg=g.get('cfg', {}), ops=ops) for ops in (regroup(ctx, g, sc) if regroup else sc)]
        if pre: full = [pre(ctx, g, s) for s in full]
        scripts[name] = (g, full)
    if driver is None: return scripts
    # A driver that depends on the scripts.
    if exe is None: exe = driver(scripts)
    for name, (g, full) in scripts.items():
        cfg = cfg_text('TraceSpec', g.get('consts', {}), g.get('subst', {}), post='Accepted', constraint=traceconstraint)
        if not replay(ctx, exe, full, mod + 'Trace', cfg, timeout=timeout, tag=name, env=dict(env or {}, **g.get('env', {})), wrap=wrap, chunk=chunk, retries=retries):
            return False
    return True
