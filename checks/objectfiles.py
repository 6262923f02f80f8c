import os, subprocess, tempfile, shutil
from generic import *
import build as B

def libs():
    """The libraries that the driver loads: path of the directory."""
    src = B.HERE + '/oflibs/lib.cpp'
    out = os.path.join(B.BUILD, 'oflibs-' + B.digest([src, __file__]))
    if os.path.exists(out): return out
    os.makedirs(B.BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='tmp-', dir=B.BUILD)
    for l in 'ABCNSX':
        open(tmp + '/line_%s.h' % l, 'w').write('#line 42 "/verif-src/%s.cpp"\nnamespace %s { __attribute__((noinline, visibility("default"))) void f() { verif_sink = 1; verif_sink = 2; } }\n' % (l, l))
    open(tmp + '/line_EXE.h', 'w').write(open(tmp + '/line_A.h').read().replace('A', 'EXE'))
    for l in 'ASCBNX':
        extra = dict(B=['-lA'], X=['-lB', '-lC'], N=['-DNEST="%s/libA.so"' % out]).get(l, [])
        B.run(['g++', '-shared', '-fPIC', '-O0', '-DLIB=' + l, '-I' + tmp, src, '-o', tmp + '/lib%s.so' % l, '-Wl,-soname,lib%s.so' % l, '-L' + tmp, '-Wl,-rpath,' + out,
               '-Wl,--no-as-needed'] + (['-g'] if l != 'C' else ['-s']) + extra)
    try: os.rename(tmp, out)
    except OSError: shutil.rmtree(tmp)
    return out

def check(ctx):
    q = ctx.quick
    d = libs()
    def g(name, use, flags, depth, sim, eager=True, progs='P_none', maxcnt=2, mx=None, simdepth=30, simspec='SimSpec'):
        r = dict(name=name, mcsubst=dict(Use=use, FlagMenu=flags, Progs=progs), mc=None if depth is None else dict(Depth=depth, MaxCnt=maxcnt),
                 simmc=dict(Depth=simdepth, MaxCnt=maxcnt), simdepth=simdepth, sim=sim, cfg=dict(eager=eager), simspec=simspec)
        if mx: r['max'] = mx
        return r
    groups = [g('deps', 'U_deps', 'L_some', 6 if q else 9, 0, mx=400 if q else 4000), g('deep', 'U_deep', 'L_plain', 6 if q else 9, 0, mx=300 if q else 4000),
              g('nest', 'U_nest', 'L_some', 6 if q else 9, 0, mx=300 if q else 4000),
              g('lazy', 'U_all', 'L_all', None, 60 if q else 1500, eager=False), g('all', 'U_all', 'L_all', None, 60 if q else 1500, progs='P_all'),
              g('par', 'U_all', 'L_all', None, 150 if q else 3000, eager=False, progs='P_all', simdepth=3, simspec='ParSpec')]
    # The algorithm of the wrappers, and wrong ones.
    def cfg(v, n, opens, start): return cfg_text('Spec', dict(Threads=set(range(1, n + 1)), Objs={'A', 'B'}, Addrs={1, 2, 3}, MaxOpen=opens, Startup=start, Variant=v), {}, invariants=['Finds', 'Exact', 'Nearly'])
    for name, n, opens, start in [('sync', 2, 4 if q else 6, set()), ('sync start', 2, 4 if q else 6, {'A'}), ('sync three', 3, 3 if q else 5, set())]:
        nm, r = model_check(ctx, name, 'LoaderSync', cfg('code', n, opens, start), workers=4, timeout=850)
        ctx.cov['states'] += r.distinct
        ctx.cov['transitions'] += r.generated
        ctx.cov['models'][name] = dict(distinct=r.distinct, generated=r.generated, wall_s=round(r.wall, 1))
    for v in ('refcount', 'stale', 'late'):
        must_fail(ctx, 'wrong algorithm ' + v, 'LoaderSync', cfg(v, 2, 3, set()))
    def pre(ctx, g, s):
        s['cfg']['verbose'] = ctx.rng.randrange(3) == 0
        return s
    mbt(ctx, 'ObjectFiles', 'objectfiles.cpp', groups, pre=lambda c, g, s: pre(c, g, dict(s, cfg=dict(s['cfg']))), extra=['-g', '-I' + d, '-rdynamic', d + '/libS.so', '-Wl,-rpath,' + d], env=dict(OFLIBS=d), timeout=20,
        inv=['OpenLoaded', 'NoneElse'], prop=['LastCloses', 'LookNothing', 'NoLoad'])
