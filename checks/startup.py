"""C21: libcwd in the constructors and destructors of global objects."""
import os, resource, tempfile, shutil
from generic import *
import build as B

def programs(variant):
    """The programs that the driver runs: path of the directory."""
    lib = B.build_lib(variant)
    src = B.HERE + '/startup/'
    out = os.path.join(lib, 'startup-' + B.digest([src + f for f in ('first.cpp', 'first.h', 'app.cpp', 'plug.cpp')] + [B.HERE + '/drv.h', __file__]))
    if os.path.exists(out): return out
    tmp = tempfile.mkdtemp(prefix='tmp-', dir=B.BUILD)
    cxx = ['g++', '-std=c++20', '-w', '-DCWDEBUG'] + B.VARIANTS[variant] + B.includes(lib + '/include')
    cwd = ['-L' + lib, '-Wl,-rpath,' + lib, '-lcwd', '-ldw', '-lelf', '-ldl', '-lpthread']
    # Without a dependency on libcwd: initialized before it.
    os.mkdir(tmp + '/before'); os.mkdir(tmp + '/after')
    B.run(cxx + ['-fPIC', '-c', src + 'first.cpp', '-o', tmp + '/first.o'])
    B.run(['g++', '-shared'] + B.VARIANTS[variant] + [tmp + '/first.o', '-Wl,-soname,libfirst.so', '-o', tmp + '/before/libfirst.so'])
    B.run(['g++', '-shared'] + B.VARIANTS[variant] + [tmp + '/first.o', '-Wl,-soname,libfirst.so', '-o', tmp + '/after/libfirst.so', '-Wl,--no-as-needed'] + cwd)
    for o in ('before', 'after'):
        B.run(cxx + ['-DPLUG="%s/libplug_%s.so"' % (out, o), src + 'app.cpp', '-o', tmp + '/app_' + o, '-Wl,--no-as-needed'] + cwd + ['-L' + tmp + '/' + o, '-lfirst', '-Wl,-rpath,' + out + '/' + o])
        B.run(cxx + ['-shared', '-fPIC', src + 'plug.cpp', '-o', tmp + '/libplug_%s.so' % o, '-L' + tmp + '/' + o, '-lfirst', '-Wl,-rpath,' + out + '/' + o])
    try: os.rename(tmp, out)
    except OSError: shutil.rmtree(tmp)
    return out

def check(ctx):
    q = ctx.quick
    # Limits can only be lowered.
    hard = resource.getrlimit(resource.RLIMIT_CORE)[1]
    if hard == resource.RLIM_INFINITY: cores = {-1, 0, 1000}
    elif hard >= 1000 * 1024: cores = {0, 1000}
    else: cores = {0}
    def g(name, cfgs, menu, depth, sim=0, mx=None, **kw):
        return dict(name=name, mcsubst=dict(Cfgs=cfgs, Menu=menu), mc=None if depth is None else dict(Depth=depth), simmc=dict(Depth=0), sim=sim, max=mx or (300 if q else 6000), **kw)
    groups = [g('state', 'CfgsFew', 'MenuState', 4 if q else 5), g('channels', 'CfgsFew', 'MenuChan', 4 if q else 5), g('continued', 'CfgsPlug', 'MenuCont', 4 if q else 5),
              g('objects', 'CfgsPlug', 'MenuObj', 3 if q else 4), g('env', 'CfgsEnv', 'MenuEnv', 2 if q else 3),
              g('random', 'CfgsAll', 'MenuEnv', None, sim=400 if q else 8000, simdepth=60)]
    for gr in groups: gr['cores'] = cores
    def regroup(ctx, gr, scripts):
        return [s for s in scripts if s[0]['cfg']['core'] in cores]
    def pre(ctx, gr, s):
        return dict(cfg=s['ops'][0]['cfg'], ops=s['ops'][1:])
    env = dict(STARTUP_DIR=programs('plain'))
    mbt(ctx, 'Startup', 'startup.cpp', groups, inv=[], prop=['Kept', 'Shared', 'Once', 'Silence'], siminv=[], regroup=regroup, pre=pre, env=env, timeout=60)
