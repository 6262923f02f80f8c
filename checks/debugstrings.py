from generic import *
def check(ctx):
    q = ctx.quick
    def pre(ctx, g, s):
        s['cfg'] = dict(every=1 if g['name'] != 'strings' else 2); return s
    inv, prop = ['NeverNegative', 'ScopesBalance'], ['PopRestores', 'MarkUndone']
    groups = [dict(name='strings', mc=dict(Depth=3 if q else 4, Menu='strings'), max=3000 if q else 40000),
              dict(name='scopes', mc=dict(Depth=5 if q else 6, Menu='scopes'), max=6000 if q else 60000),
              dict(name='stacks', mc=dict(Depth=5 if q else 7, Menu='stacks'), max=2000 if q else 40000),
              dict(name='random', simmc=dict(Depth=50, Menu='scopes'), sim=300 if q else 8000, simdepth=50)]
    mbt(ctx, 'DebugStrings', 'debugstrings.cpp', groups, inv=inv, siminv=inv[:1], prop=prop, variant='asan', pre=pre, heap='3g')
