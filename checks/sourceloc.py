import shutil
from generic import *

SRC = build.HERE + '/sourceloc'

class Program:
    """The C++ source of a script."""
    def __init__(self, ns, base, ops, inline):
        self.ns, self.base, self.inline = ns, base, inline
        self.fns, self.marks = [], 0
        self.open = []
        self.top = []           # definitions
        self.globs = []         # those at file scope
        self.roots = []
        for o in ops: getattr(self, 'op_' + o['op'])(o)
        while self.open: self.op_end(None)
    def cur(self):
        return next(x for x in reversed(self.open) if x['t'] == 'f')
    def line(self, o, code):
        self.open[-1]['body'].append('\n#line %d "%s"\n%s\n' % (o['line'], o['file'], code))
    def op_fn(self, o):
        i = len(self.fns) + 1
        f = dict(t='f', i=i, k=o['k'], inl=o['inl'], body=[], id=o['k'] + str(i))
        self.fns.append(f)
        if not self.open: self.roots.append(f)
        self.open.append(f)
    def op_blk(self, o):
        self.open.append(dict(t='b', k=o['k'], body=[], n=len(self.open)))
    def op_mark(self, o):
        self.marks += 1
        self.line(o, 'MARK(%d);' % (self.base * 1000 + self.marks))
    def op_ret(self, o):
        self.marks += 1
        self.line(o, 'verif_rec(%d);' % (self.base * 1000 + self.marks))
        self.open[-1]['body'].append('asm volatile("");\n')
    def op_again(self, o):
        self.open[-1]['body'].append(self.call(self.fns[o['i'] - 1]))
    def call(self, f):
        return dict(n='%s();', a='%s();', x='%s_' + self.ns + '();', s='%s::f();', m='{ %s v; v.f(); }', c='{ %s v; }', d='{ %s v; }', t='%s<' + str(f['i']) + '>();',
                    p='%s(verif_sink, "x");', o='%s() + 1;', l='%s();')[f['k']] % f['id'] + '\n'
    def op_end(self, o):
        b = self.open.pop()
        body = ''.join(b['body'])
        if b['t'] == 'b':
            out = dict(scope='{ volatile int v = 1;\n%s}\n', **{'if': 'if (verif_sink >= 0) {\n%s}\n', 'for': 'for (int i = 0; i < verif_sink; ++i) {\n%s}\n',
                       'try': 'try {\n%s  if (verif_sink < 0) throw 1; } catch (int) { verif_cold(); }\n', 'catch': 'try { if (verif_sink) throw 1; verif_cold(); } catch (int) {\n%s}\n',
                       'cold': 'if (__builtin_expect(verif_sink < 0, 0)) {\n%s verif_cold(); }\n'})[b['k']] % body
            self.open[-1]['body'].append(out)
            return
        body += 'asm volatile("");\n'
        attr = 'INL' if b['inl'] else 'NOI'
        # A function in a header.
        glob = 'inline ' if self.inline and not b['inl'] else ''
        f, i, k = b['id'], b['i'], b['k']
        if k == 'l':
            self.open[-1]['body'].append('auto %s = []() __attribute__((%s)) {\n%s};\n' % (f, 'always_inline' if b['inl'] else 'noinline', body) + self.call(b))
            return
        outside = not self.inline and not b['inl']
        def member(decl, name, quals=''):
            if outside: return 'struct %s { NOI %s%s()%s; };\n%s%s::%s()%s {\n%s}\n' % (f, decl, name, quals, decl.replace('static ', ''), f, name, quals, body)
            return 'struct %s { %s %s%s()%s {\n%s} };\n' % (f, attr, decl, name, quals, body)
        if k == 'n': d = '%s%s void %s() {\n%s}\n' % (glob, attr, f, body)
        elif k == 'a': d = 'namespace { %s void %s() {\n%s} }\n' % (attr, f, body)
        elif k == 's': d = member('static void ', 'f')
        elif k == 'm': d = member('void ', 'f', ' const')
        elif k == 'c': d = member('', f)
        elif k == 'd': d = member('', '~' + f)
        elif k == 't': d = 'template<int N> %s void %s() {\n%s}\n' % (attr, f, body)
        elif k == 'p': d = '%s%s void %s(int, char const*) {\n%s}\n' % (glob, attr, f, body)
        elif k == 'o': d = 'struct %s { };\n%s%s void operator+(%s, int) {\n%s}\n' % (f, glob, attr, f, body)
        elif k == 'x': d = 'extern "C" { %s%s void %s_%s() {\n%s} }\n' % (glob, attr, f, self.ns, body)
        self.top.append(d)
        if self.open: self.open[-1]['body'].append(self.call(b))
    def source(self, runner=True):
        s = '#line 1 "/verif-src/%s.cpp"\nnamespace %s {\n%s\n#line 1 "/verif-src/run.cpp"\n' % (self.ns, self.ns, ''.join(self.top))
        s += '__attribute__((used)) static void run() { ' + ''.join(self.call(f) for f in self.roots) + '}\n'
        if runner:
            s += 'extern "C" __attribute__((noinline)) void verif_run_%s(int n) { run(); asm volatile(""); }\n' % self.ns
            s += 'extern "C" void verif_fns_%s(void (*add)(char const*, void*)) {\n' % self.ns
            if self.base % 2:
                for f in self.fns:
                    if not f['inl'] and f['k'] in 'nstpx':
                        s += '  add("%s", (void*)(&%s));\n' % (f['id'], dict(n='%s', s='%s::f', t='%s<' + str(f['i']) + '>', p='%s', x='%s_' + self.ns)[f['k']] % f['id'])
            s += '}\n'
        return s + '}\n'

def compile_variant(d, v, programs, tab=True):
    """Returns the object files."""
    os.makedirs(d)
    n = max(1, (len(programs) + 15) // 16)
    parts = [programs[i:i + n] for i in range(0, len(programs), n)]
    cxx = [v['cc'], '-std=c++20', '-w', '-I' + SRC] + v['flags'].split()
    if v.get('pic', True): cxx.append('-fPIC')
    def cc(k):
        mine = list(cxx)
        if v.get('mixed') and k % 2: mine.append('-g0')
        src = '%s/part%d.cpp' % (d, k)
        with open(src, 'w') as f:
            f.write('#include "lib.h"\n')
            for p in parts[k]: f.write(p.source())
            # The same functions of a header in another translation unit.
            for p in parts[k - 1]:
                if p.inline and len(parts) > 1 and not v.get('mixed'): f.write(p.source(False))
        build.run(mine + ['-c', src, '-o', src + '.o'])
        return src + '.o'
    if v.get('mixed'):
        for k, part in enumerate(parts):
            for p in part: p.debug = 'none' if k % 2 else 'full'
    objs = parallel([lambda k=k: cc(k) for k in range(len(parts))], 8)
    build.run(['g++', '-O1', '-g', '-fPIC', '-c', SRC + '/tab.cpp', '-o', d + '/tab.o'])
    return objs + [d + '/tab.o']

def make(work, v, programs):
    """Returns (path of the library, or '' for the executable that is returned as second)."""
    d = work + '/' + v['name']
    objs = compile_variant(d, v, programs)
    if v.get('exe') is not None:
        exe = d + '/sourceloc'
        lib = build.build_lib('plain')
        build.run(['g++', '-std=c++20', '-w', '-DCWDEBUG', '-rdynamic'] + build.VARIANTS['plain'] + build.includes(lib + '/include') + [build.HERE + '/sourceloc.cpp', '-o', exe] +
                  objs + v['exe'].split() + ['-L' + lib, '-Wl,-rpath,' + lib, '-lcwd', '-ldw', '-lelf', '-ldl', '-lpthread'])
        return '', exe
    so = '%s/lib%s.so' % (d, v['name'])
    build.run([v['cc'], '-shared', '-o', so] + v.get('link', v['flags']).split() + objs)
    if v.get('post') == 'strip': build.run(['strip', '-s', so])
    if v.get('post') == 'debuglink':
        build.run(['objcopy', '--only-keep-debug', so, so + '.debug'])
        build.run(['strip', '-g', so])
        build.run(['objcopy', '--add-gnu-debuglink=' + so + '.debug', so], cwd=d)
    for o in objs: os.unlink(o)
    return so, None

VARIANTS = [
    dict(name='g0', cc='g++', flags='-O0 -g'),
    dict(name='g2', cc='g++', flags='-O2 -g -ffunction-sections'),
    dict(name='g2d4', cc='g++', flags='-O2 -gdwarf-4'),
    dict(name='g3d3', cc='g++', flags='-O3 -gdwarf-3 -gz'),
    dict(name='glto', cc='g++', flags='-O2 -g -flto'),
    dict(name='c0', cc='clang++', flags='-O0 -g'),
    dict(name='c2', cc='clang++', flags='-O2 -g -ffunction-sections'),
    dict(name='c2d4', cc='clang++', flags='-O2 -gdwarf-4'),
    dict(name='none', cc='g++', flags='-O2', debug='none'),
    dict(name='stripped', cc='g++', flags='-O2 -fno-ipa-sra -fno-ipa-cp -fno-reorder-blocks-and-partition', debug='stripped', post='strip'),
    dict(name='mixed', cc='g++', flags='-O2 -g', mixed=True),
    dict(name='link', cc='g++', flags='-O1 -g', post='debuglink'),
    dict(name='pie', cc='g++', flags='-O1 -g', exe=''),
    dict(name='nopie', cc='g++', flags='-O2 -g -fno-pic', pic=False, exe='-no-pie'),
]

def check(ctx):
    q = ctx.quick
    allk = set('nsmcdtpoaxl')
    allb = {'scope', 'if', 'for', 'try', 'catch', 'cold'}
    groups = [
        dict(name='inlining', mc=dict(Depth=5 if q else 6, KindsUsed={'n'}, BlocksUsed=set(), MaxOpen=4), max=100 if q else 1500),
        dict(name='blocks', mc=dict(Depth=4 if q else 5, KindsUsed={'c'}, BlocksUsed=allb, MaxOpen=4), max=60 if q else 1500),
        dict(name='kinds', mc=dict(Depth=3 if q else 4, KindsUsed=allk, BlocksUsed=set(), MaxOpen=3), max=60 if q else 1500),
        dict(name='random', mc=None, simmc=dict(Depth=1, KindsUsed=allk, BlocksUsed=allb, MaxOpen=6), sim=40 if q else 600, simdepth=60)]
    inv = ['HasPlace', 'Itself', 'Distinct', 'Named']
    groups = mbt(ctx, 'SourceLoc', None, groups, inv=inv)
    scripts = [ops['ops'] for name in groups for ops in groups[name][1]]
    scripts = [ops for ops in scripts if any(o['op'] in ('mark', 'ret') for o in ops)]
    cfg = cfg_text('TraceSpec', post='Accepted')
    exe = build.build_driver('sourceloc.cpp', 'plain', extra=['-rdynamic'])
    batches = [scripts[i:i + 300] for i in range(0, len(scripts), 300)]
    for nr, batch in enumerate(batches):
        programs = [Program('V%d' % i, i, ops, i % 3 == 0) for i, ops in enumerate(batch)]
        def one(v):
            d = tempfile.mkdtemp(prefix='sl-', dir=ctx.work)
            lib, own = make(d, v, programs)
            # Something else is looked up first.
            other = lambda p: (p.base * 7 + 5) % len(programs) if p.base % 2 else -1
            full = [dict(cfg=dict(ns=p.ns, base=p.base, lib=lib, seed=ctx.seed + p.base, first=other(p), verbose=p.base % 5 == 0, debug=p.debug if v.get('mixed') else v.get('debug', 'full'), **({'threads': 2} if p.base % 7 == 0 else {})), ops=ops)
                    for p, ops in zip(programs, batch)]
            if q and not v.get('debug'): full = full[VARIANTS.index(v) % 2::2]
            ok = replay(ctx, own or exe, full, 'SourceLocTrace', cfg, timeout=60, tag=v['name'], chunk=100)
            shutil.rmtree(d)
            return ok
        if not all(one(v) for v in VARIANTS): return
