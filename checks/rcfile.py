from generic import *
CH = {'AAA', 'AAAA', 'ABB', 'BAB', 'DEBUG', 'ELFUTILS', 'LONGLABEL12+', 'Mixed', 'NOTICE', 'SYSTEM', 'TWO WORDS', 'WARNING'}
def check(ctx):
    q = ctx.quick
    def g(name, n1, n2, menu, searches=False, **kw):
        return dict(name=name, consts=dict(Channels=CH), subst=dict(Labels='LabelsDef'), mcsubst=dict(Menu=menu),
                    mc=dict(N1=n1, N2=n2, Searches=searches, Depth=0), **kw)
    groups = [g('defaults', 2 if q else 3, 2, 'MenuDefaults'), g('syntax', 2 if q else 3, 0, 'MenuSyntax'), g('syntax2', 1, 1 if q else 2, 'MenuSyntax'),
              g('masks', 2, 2 if not q else 1, 'MenuMasks'), g('search', 1, 1, 'MenuOne', True),
              dict(name='random', consts=dict(Channels=CH), subst=dict(Labels='LabelsDef'), mcsubst=dict(Menu='MenuOne'),
                   simmc=dict(N1=0, N2=0, Searches=False, Depth=0), sim=400 if q else 8000, simdepth=24)]
    mbt(ctx, 'RcFile', 'rcfile.cpp', groups, maxscripts=4000, inv=['CommentsHaveNoEffect', 'SpacesHaveNoEffect', 'DefaultForgets', 'Independent', 'UnknownOnlyWarns'], siminv=[])
