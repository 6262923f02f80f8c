from generic import *
def check(ctx):
    q = ctx.quick
    nums = list(range(-3, 300)) + [2 ** k + d for k in range(8, 31) for d in (-1, 0, 1) if 2 ** k + d < 2 ** 31] + [-2 ** 31, 2 ** 31 - 1, 1000, 4095, 512, 513, 514, 524]
    def pre(ctx, g, s):
        if g['name'] == 'all': s['ops'] = s['ops'] + [dict(op='errno', n=nums[i::16]) for i in range(16)] if s['ops'][0]['b'] in ([0], [65], [255]) else s['ops']
        return s
    inv = ['Unambiguous', 'Printable']
    groups = [dict(name='all', mcsubst=dict(Bytes='AllBytes'), mc=dict(Depth=1), max=300, sim=60 if q else 1500, simmc=dict(Depth=25), simdepth=25),
              dict(name='few', mcsubst=dict(Bytes='FewBytes'), mc=dict(Depth=2 if q else 3), max=11000)]
    if not q: groups.append(dict(name='pairs', mcsubst=dict(Bytes='AllBytes'), mc=dict(Depth=2), max=66000))
    groups[0]['cfg'] = {}
    mbt(ctx, 'Text', 'text.cpp', groups, inv=inv, siminv=[], variant='asan', pre=pre)
