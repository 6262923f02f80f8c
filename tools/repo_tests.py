#!/usr/bin/env python3
"""Build every /repo/tests/*.cpp against the full library (shim threadsafe) and run them; developer aid, not a check."""
import sys, os, glob, subprocess, re, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import build
from concurrent.futures import ThreadPoolExecutor
lib = build.build_lib('plain')
T = build.REPO + '/tests'
d = tempfile.mkdtemp(prefix='rt-')
inc = build.includes(lib + '/include') + ['-I' + T + '/support', '-I' + T]
L = ['-L' + lib, '-Wl,-rpath,' + lib, '-lcwd', '-ldw', '-lelf', '-ldl', '-lpthread']
build.run(['g++', '-std=c++20', '-w', '-g', '-DCWDEBUG'] + inc + ['-c', T + '/support/test_support.cpp', '-o', d + '/s.o'])
def one(src):
    n = os.path.basename(src)[:-4]
    try:
        build.run(['g++', '-std=c++20', '-w', '-g', '-DCWDEBUG', src, d + '/s.o', '-rdynamic', '-o', d + '/' + n] + inc + L)
    except Exception as e:
        return n, 'BUILD ' + str(e)[-300:]
    try:
        p = subprocess.run([d + '/' + n], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, cwd=d)
    except subprocess.TimeoutExpired:
        return n, 'TIMEOUT'
    return n, 'ok' if p.returncode == 0 else 'FAIL %d %s' % (p.returncode, p.stdout[-300:].decode(errors='replace'))
with ThreadPoolExecutor(8) as ex:
    for n, r in ex.map(one, sorted(glob.glob(T + '/*.cpp'))):
        print(n, r)
shutil.rmtree(d)
