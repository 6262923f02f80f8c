"""C23: attach_gdb()."""
from generic import *

def check(ctx):
    q = ctx.quick
    def g(name, menu, depth, mx):
        return dict(name=name, mc=dict(Depth=depth, Menu=menu), max=mx)
    # What takes more than five seconds is sampled.
    groups = [g('plain', 'plain', 2 if q else 3, 3000), g('long', 'long', 1, 400 if q else 3000), g('none', 'none', 2, 400)]
    def regroup(ctx, gr, scripts):
        waits = lambda s: sum(op.get('how') in ('slow', 'exit') for op in s)
        slow = [s for s in scripts if waits(s)]
        n = 48 if q else 600
        if len(slow) > n: slow = [s for s in slow if waits(s) == 1]
        if len(slow) > n: slow = ctx.rng.sample(slow, n)
        scripts = [s for s in scripts if not waits(s)] + slow
        ctx.rng.shuffle(scripts)    # Spread over the processes.
        return scripts
    def pre(ctx, gr, s):
        return dict(cfg=s['ops'][0]['cfg'], ops=s['ops'][1:])
    mbt(ctx, 'AttachGdb', 'attachgdb.cpp', groups, inv=['Continues', 'Silent'], view=None, regroup=regroup, pre=pre, timeout=40)
