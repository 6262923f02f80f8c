import subprocess, shutil
from generic import *

def compile_table(ctx, ops, variant):
    """The program that knows the types of ops."""
    lib = build.build_lib(variant)
    d = tempfile.mkdtemp(prefix='ti-', dir=ctx.work)
    keys = sorted(set((o['w'], o['cpp']) for o in ops if o['w'] != 'unknown'))
    size = max(1, min(600, (len(keys) + 7) // 8))
    parts = [keys[i:i + size] for i in range(0, len(keys), size)]
    flags = ['g++', '-std=c++20', '-w', '-DCWDEBUG'] + [f for f in build.VARIANTS[variant] if f not in ('-g', '-fsanitize=address') and (variant == 'tsan' or f != '-O1')] + build.includes(lib + '/include')
    def cc(n):
        src = '%s/table%d.cpp' % (d, n)
        with open(src, 'w') as f:
            f.write('#include "typeinfo.h"\nnamespace {\nstruct Init\n{\n  Init()\n  {\n')
            for w, cpp in parts[n]: f.write('    add("%s %s", &%s<%s>);\n' % (w, cpp, w, cpp))
            f.write('  }\n} init;\n}\n')
        try:
            build.run(flags + ['-c', src, '-o', src + '.o'])
        except BuildError as e:
            # Is this because of the types, or because of type_info_of?
            build.run(flags + ['-DTI_STUB', '-c', src, '-o', src + '.o'])
            raise NotCompiled(str(e))
        return src + '.o'
    objs = parallel([lambda n=n: cc(n) for n in range(len(parts))])
    exe = d + '/typeinfo'
    build.run(['g++', '-std=c++20', '-w', '-DCWDEBUG'] + build.VARIANTS[variant] + build.includes(lib + '/include') + [build.HERE + '/typeinfo.cpp', '-o', exe] + objs +
              ['-L' + lib, '-Wl,-rpath,' + lib, '-lcwd', '-ldw', '-lelf', '-ldl', '-lpthread'])
    return exe

class NotCompiled(Exception):
    pass

def check(ctx):
    q = ctx.quick
    allb = {'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'l', 'm', 'n', 'o', 's', 't', 'v', 'w', 'x', 'y', 'Dn', 'Ds', 'Du', 'Di'}
    alln = set('ABSDZzRNMEeUIVoCLlmT')
    allt = set('XYalVW')
    allv = {'i3', 'in', 'j', 'm', 'b', 'c', 'E', 'e', 'x', 'h'}
    allw = {'P', 'R', 'O', 'K', 'V', 'VK', '3', '12', '_'}
    def grp(name, depth, b, n, t, v, w, o, stack=3, **k):
        return dict(name=name, mc=dict(Depth=depth, BuiltinsUsed=b, NamesUsed=n, TemplatesUsed=t, ValuesUsed=v, WrapsUsed=w, OpsUsed=o, MaxStack=stack), **k)
    groups = [
        # Every builtin type, class and value, with every qualifier around it.
        grp('all', 2, allb, alln, allt, allv, allw, set('ifm'), stack=2),
        grp('declarators', 4 if q else 5, {'i', 'v'}, set(), set(), set(), allw, set('f')),
        grp('members', 4 if q else 5, {'i'}, {'A', 'D'}, set(), set(), {'P', 'K', 'R'}, set('fmd')),
        grp('templates', 4 if q else 5, {'i'}, {'A', 'S'}, {'X', 'Y', 'W'}, {'i3'}, {'P', 'K'}, set('id')),
        grp('random', 1, allb, alln, allt, allv, allw, set('ifmd'), sim=400 if q else 6000, simdepth=16, stack=4)]
    groups[-1]['simmc'] = groups[-1]['mc']
    groups[-1]['mc'] = None
    limit = 1000 if q else 6000
    every = []
    def regroup(ctx, g, scripts):
        flat = {}
        for s in scripts:
            for o in s: flat.setdefault((o['w'], o['cpp']), o)
        flat = [flat[k] for k in sorted(flat)]
        ctx.cov['models'].setdefault('types', {})[g['name']] = len(flat)
        if len(flat) > limit: flat = ctx.rng.sample(flat, limit)
        every.extend(flat)
        # In any order, and some more than once.
        ctx.rng.shuffle(flat)
        out = []
        for i in range(0, len(flat), 60):
            part = flat[i:i + 60]
            out.append(part + ctx.rng.sample(part, min(10, len(part))) + [dict(w='unknown', p=[], cpp='')])
        return out
    invs = ['Emit', 'Programs', 'Distinct', 'Reads']
    gathered = []
    def driver(scripts):
        """scripts: of all groups.  They are run in several ways, see below."""
        for name, (g, full) in scripts.items(): gathered.extend(full)
        return compile_table(ctx, every, 'asan')
    try:
        if not mbt(ctx, 'TypeInfo', driver, groups, inv=invs, siminv=['Emit'] if q else invs, regroup=regroup, timeout=60, chunk=15): return
        cfg = cfg_text('TraceSpec', post='Accepted')
        exe = compile_table(ctx, every, 'asan')
        # Before main() is reached.
        some = [dict(cfg={}, ops=s['ops']) for s in gathered]
        if not replay(ctx, exe, ctx.rng.sample(some, min(len(some), 30 if q else 500)), 'TypeInfoTrace', cfg, timeout=60, tag='early', env={'TI_EARLY': '1'}, chunk=15): return
    except NotCompiled as e:
        ctx.violation(dict(property=ctx.prop, why='type_info_of cannot be used for one of these types', stderr=str(e)[-6000:]))
        return
    some = ctx.rng.sample(some, min(len(some), 16 if q else 200))
    exe = compile_table(ctx, [o for s in some for o in s['ops']], 'tsan')
    replay(ctx, exe, [dict(cfg={'threads': 4}, ops=s['ops']) for s in some], 'TypeInfoTrace', cfg, timeout=40, tag='threads', chunk=4, env={'TSAN_OPTIONS': 'halt_on_error=0:exitcode=0:symbolize=0'})
