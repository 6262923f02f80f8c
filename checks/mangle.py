import subprocess
from generic import *

def real_names(ctx, n):
    """Names that a compiler generated: the symbols of the C++ library of this machine."""
    try:
        lib = subprocess.run(['g++', '-print-file-name=libstdc++.so.6'], capture_output=True, text=True).stdout.strip()
        out = subprocess.run(['nm', '-D', lib], capture_output=True, text=True).stdout
    except OSError:
        return []
    names = sorted(set(w.split('@')[0] for l in out.splitlines() for w in l.split()[-1:] if w.startswith('_Z')))
    return names if n is None else ctx.rng.sample(names, min(n, len(names)))

def check(ctx):
    q = ctx.quick
    pres = ['', '', '', 'x', 'a::b<', 'S_ ', 'The quick brown fox jumps over the lazy dog, and this no longer fits in the string itself.']
    def regroup(ctx, g, scripts):
        flat, seen = [], set()
        for s in scripts:
            for o in s:
                k = (o['t'], o['m'])
                if k in seen: continue
                seen.add(k)
                pre = ctx.rng.choice(pres)
                flat.append(dict(o, pre=pre) if pre else o)
        lim = g.get('maxnames')
        if lim and len(flat) > lim: flat = ctx.rng.sample(flat, lim)
        if g['name'] == 'real': flat += [dict(t='sym', m=m) for m in real_names(ctx, 1500 if q else None)] + [dict(t='null', m='', pre=p) for p in ('', 'abc')]
        # The names of functions that construct or destroy global objects, and what resembles them.
        if g['name'] == 'real':
            tails = ['', '_Z3foov', 'main', 'x.cpp', '_', '_ZN1A1fEi'] + [o['m'] for o in ctx.rng.sample(flat, min(8, len(flat)))]
            flat += [dict(t=t, m=h + x, pre=p) for h in ('_GLOBAL__I_', '_GLOBAL__D_') for x in tails for t, p in (('sym', ''), ('sym', 'a '), ('type', ''))]
            flat += [dict(t='sym', m=m, pre=p) for m in ('_GLOBAL__X_a', '_GLOBAL__I', '_GLOBAL__Ix', '_GLOBAL__', '_GLOBAL_', '_GLOBAL_I_a', '_GLOBAL__N_1', '_G', '_', '') for p in ('', 'a')]
        ctx.cov['models'].setdefault('names', {})[g['name']] = len(flat)
        return [flat[i:i + 250] for i in range(0, len(flat), 250)]
    all_b = set('abcdefghijlmnostvwxyz')
    wraps = {'P', 'R', 'K', 'V', 'VK', 'r', 'rK', 'rVK', 'A3', 'A0', 'A_', 'U', 'C', 'G'}
    names = {'A', 'B', 'N', 'v', 'a', 'b', 's', 'i', 'd', 'o', 'g', 'G', 'l', 'm', 'x', 'L'}
    lits = {'i0', 'i3', 'in', 'j', 'b0', 'b1', 'c', 'l', 'y', 'E', 'En', 'd', 'D', 'f', 'F', 'e', 'x', 'h', 'H', 'p', 'g', 'q', 'z', 'Z', 'k', 's'}
    ops = set('itfmdxq')
    fam = {'type', 'plain', 'class', 'template'}
    def grp(name, depth, b, n, l, w, o, f=fam, stack=3, **k):
        return dict(name=name, mc=dict(Depth=depth, BuiltinsUsed=b, NamesUsed=n, LitsUsed=l, WrapsUsed=w, OpsUsed=o, Families=f, MaxStack=stack, Mutate=0), cfg={'threads': 4}, **k)
    mix = (all_b, names, lits, wraps, ops)
    groups = [
        # Every builtin type, name, literal and qualifier; every operator.
        grp('real', 1, *mix, f=fam | {'operator', 'real', 'wide'}),
        # What is written around a name.
        grp('declarators', 4 if q else 6, {'i'}, set(), set(), wraps if not q else wraps - {'V', 'G', 'r', 'rVK'}, set('f'), f={'type', 'plain', 'template'}, maxnames=25000 if q else None),
        grp('members', 4 if q else 5, {'i'}, {'A'}, set(), {'P', 'R', 'K', 'A3'}, ops, maxnames=25000 if q else None),
        grp('templates', 4 if q else 5, {'i'}, {'A', 'N'}, {'i3'}, {'P'}, set('itd'), maxnames=25000 if q else None),
        grp('random', 1, *mix, sim=150 if q else 6000, simdepth=14, stack=4, maxnames=20000 if q else None)]
    groups[-1]['simmc'] = dict(groups[-1]['mc'], Mutate=30)
    groups[-1]['mc'] = None
    mbt(ctx, 'Mangle', 'mangle.cpp', groups, inv=['Emit', 'RoundTrip', 'Distinct'], siminv=['Emit'] if q else ['Emit', 'RoundTrip'], variant='asan', regroup=regroup, timeout=120, chunk=12)
