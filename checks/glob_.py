from generic import *
import itertools
def words(letters, n):
    return [''.join(w) for k in range(n + 1) for w in itertools.product(letters, repeat=k)]
def check(ctx):
    q = ctx.quick
    exe = build.build_driver('glob_.cpp', 'asan')
    mm, ml = (5, 4) if q else (7, 6)
    def mc():
        cfg = cfg_text('Spec', dict(Letters={'A', 'B'}, MaxMask=4 if q else 5, MaxLabel=4 if q else 5, Depth=1, EmitScripts=True), invariants=['Exact', 'Sane'],
                       properties=['Terminates'], action_constraint=['EmitC'])
        return model_check(ctx, 'ab', 'GlobMC', cfg, workers=4, timeout=850)
    def sim():
        cfg = cfg_text('SimSpec', dict(Letters={'A', 'B', 'C'}, MaxMask=1, MaxLabel=16, Depth=40, EmitScripts=True), action_constraint=['EmitEnd'])
        return simulate(ctx, 'abc-sim', 'GlobMC', cfg, 150 if q else 3000, 41, ctx.sub('abc'))
    def sim2():
        cfg = cfg_text('SimSpec', dict(Letters={'A'}, MaxMask=1, MaxLabel=14, Depth=40, EmitScripts=True), action_constraint=['EmitEnd'])
        return simulate(ctx, 'a-sim', 'GlobMC', cfg, 30 if q else 600, 41, ctx.sub('a'))
    got = collect(ctx, parallel([mc, sim, sim2]))
    # The model explores masks of up to mm characters; each is tried on all labels.
    masks = sorted(set(s[0]['m'] for s in got['ab']) | set(words('AB*', mm)))
    labels = words('AB', ml)
    scripts = []
    for i in range(0, len(masks), 20):
        scripts.append(dict(cfg=dict(labels=labels, rc=(i // 20) % 4 == 0 or not q), ops=[dict(op='mask', m=m, ls=[]) for m in masks[i:i + 20]]))
    for n in ('abc-sim', 'a-sim'):
        for i, s in enumerate(got[n]):
            scripts.append(dict(cfg=dict(labels=['', 'A', 'AB', 'BA', 'CAB', 'ABCABCABC'], rc=i % 3 == 0), ops=s))
    ctx.cov['models']['ab'].update(masks=len(masks), labels=len(labels))
    replay(ctx, exe, scripts, 'GlobTrace', cfg_text('TraceSpec', post='Accepted'), timeout=20, chunk=40)
