#!/usr/bin/env python3
"""Build all of libcwd (debug.cxx and dwarf.cxx included) from /repo's working tree,
outside /repo, plus the drivers in /verif/harness.  Output is cached by content hash in
/verif/build (git-ignored)."""
import hashlib, os, re, subprocess, sys, glob, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('LIBCWD_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))

class BuildError(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-6000:])
    return p.stdout

def files(*roots):
    out = []
    for r in roots:
        if os.path.isfile(r):
            out.append(r); continue
        for d, dn, fn in os.walk(r):
            dn[:] = [x for x in dn if x not in ('.git', '_build')]
            out += [os.path.join(d, f) for f in fn]
    return sorted(out)

def digest(paths, *extra):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(b'\0')
        with open(p, 'rb') as f: h.update(f.read())
        h.update(b'\0')
    for e in extra: h.update(repr(e).encode())
    return h.hexdigest()[:20]

def configure(gen, over={}):
    """What cmake's configure step writes, with the project's default options."""
    top = open(REPO + '/CMakeLists.txt').read()
    m = re.search(r'project\(libcwd\s+VERSION (\d+)\.(\d+)\.(\d+)', top)
    if not m: raise BuildError('no version')
    ver = m.groups()
    v = dict(CW_CONFIG_GLIBCXX_DEBUG='0', CW_CONFIG_LOCATION='1', CW_CONFIG_DEBUG='0', CW_CONFIG_DEBUGOUTPUT='0',
             CW_CONFIG_DEBUGT='0', CW_CONFIG_BUILTIN_RETURN_ADDRESS_OFFSET='-1', VERSION_MAJOR=ver[0],
             VERSION_MINOR=ver[1], VERSION_REVISION=ver[2], libcwd_datadir=os.environ.get('LIBCWD_DATADIR', '../share'))
    v.update(over)
    defs = {'HAVE_PWD_H', 'HAVE_SYS_RESOURCE_H', 'HAVE_DLOPEN', 'HAVE_GETEGID', 'HAVE_GETGROUPS', 'HAVE_GETGID', 'HAVE_BUILTIN_EXPECT'}
    def conf(src, dst, cmakedefine):
        t = open(src).read()
        if cmakedefine:
            t = re.sub(r'#cmakedefine01 (\w+)', lambda m: '#define %s %d' % (m[1], m[1] in defs), t)
            t = re.sub(r'#cmakedefine (\w+)', lambda m: ('#define %s' % m[1]) if m[1] in defs else '/* #undef %s */' % m[1], t)
        t = re.sub(r'@(\w+)@', lambda m: v.get(m[1], ''), t)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        open(dst, 'w').write(t)
    conf(REPO + '/include/cmake-config.h.in', gen + '/config.h', True)
    conf(REPO + '/include/libcwd/config.h.in', gen + '/libcwd/config.h', False)
    conf(REPO + '/include/cwd_sys.h.in', gen + '/cwd_sys.h', False)
    return '.'.join(ver)

VARIANTS = {
    'plain': ['-g', '-O0'],
    'opt': ['-g1', '-O2'],
    'asan': ['-g', '-O1', '-fsanitize=address', '-fno-omit-frame-pointer'],
    'tsan': ['-g', '-O1', '-fsanitize=thread'],
    'checked': ['-g', '-O1'],
}
# With the consistency checks of the library itself.
OPTIONS = {'checked': dict(CW_CONFIG_DEBUG='1', CW_CONFIG_DEBUGT='1')}

def includes(gen):
    return ['-I' + gen, '-I' + REPO + '/include', '-I' + REPO, '-I' + HERE + '/shim', '-I' + gen + '/libcwd', '-I' + HERE]

def repo_inputs():
    return files(REPO + '/src', REPO + '/include', REPO + '/debug.h', REPO + '/sys.h', REPO + '/CMakeLists.txt', HERE + '/shim')

PLAIN = os.environ.get('VERIF_PLAIN', 'plain')     # Also usable as 'plain': 'checked'.

def build_lib(variant='plain'):
    if variant == 'plain': variant = PLAIN
    flags = VARIANTS[variant]
    key = digest(repo_inputs(), flags, variant, 'v4', os.environ.get('LIBCWD_DATADIR'))
    out = os.path.join(BUILD, 'lib-%s-%s' % (variant, key))
    lib = out + '/libcwd.so'
    if os.path.exists(lib):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='tmp-', dir=BUILD)
    try:
        gen = tmp + '/include'
        version = configure(gen, OPTIONS.get(variant, {}))
        srcs = sorted(glob.glob(REPO + '/src/*.cxx') + glob.glob(REPO + '/src/utils/*.cxx'))
        base = ['g++', '-std=c++20', '-fPIC', '-w', '-DCWDEBUG', '-DVERSION="%s"' % version] + flags + includes(gen)
        def cc(s):
            o = tmp + '/' + os.path.relpath(s, REPO).replace('/', '_') + '.o'
            run(base + ['-c', s, '-o', o]); return o
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(cc, srcs))
        run(['g++', '-shared', '-Wl,-soname,libcwd.so', '-o', tmp + '/libcwd.so'] + flags + objs + ['-ldw', '-lelf', '-ldl', '-lpthread'])
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return out

def build_driver(src, variant='plain', extra=(), deps=(), name=None, with_lib=True):
    """Compile /verif/harness/<src>.cpp against the library; returns path of the executable."""
    if variant == 'plain': variant = PLAIN
    lib = build_lib(variant)
    path = os.path.join(HERE, src)
    key = digest([path] + sorted(glob.glob(HERE + '/*.h')) + list(deps), lib, list(extra), VARIANTS[variant])
    exe = os.path.join(lib, (name or os.path.basename(src).split('.')[0]) + '-' + key)
    if os.path.exists(exe):
        return exe
    tmp = exe + '.tmp%d' % os.getpid()
    run(['g++', '-std=c++20', '-w', '-DCWDEBUG'] + VARIANTS[variant] + includes(lib + '/include') + [path, '-o', tmp] +
        list(extra) + ['-L' + lib, '-Wl,-rpath,' + lib, '-lcwd', '-ldw', '-lelf', '-ldl', '-lpthread'])
    os.rename(tmp, exe)
    return exe

if __name__ == '__main__':
    for v in sys.argv[1:] or ['plain']:
        print(build_lib(v))
