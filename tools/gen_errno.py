#!/usr/bin/env python3
"""Writes spec/Errno.tla from the names and numbers of the platform (Linux asm-generic, as in errno.h)."""
import re, os
d = {}
alias = {}
for f in ('errno-base.h', 'errno.h'):
    for m in re.finditer(r'^#define\s+(E\w+)\s+(\w+)', open('/usr/include/asm-generic/' + f).read(), re.M):
        if m[2].isdigit(): d.setdefault(int(m[2]), set()).add(m[1])
        else: alias[m[1]] = m[2]
for a, n in dict(alias, ENOTSUP='EOPNOTSUPP').items():
    for k in d:
        if n in d[k]: d[k].add(a)
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'spec', 'Errno.tla')
with open(out, 'w') as f:
    f.write('------------------------------- MODULE Errno -------------------------------\n')
    f.write('\\* The error numbers of the platform and their macro names (written by tools/gen_errno.py).\n')
    f.write('ErrnoNames == <<\n')
    f.write(',\n'.join('  {%s}' % ', '.join('"%s"' % x for x in sorted(d.get(k, ()))) for k in range(1, max(d) + 1)))
    f.write('\n>>\n=============================================================================\n')
