#!/usr/bin/env python3
"""Writes spec/Reals.tla: floating point literals (their bytes, as in a mangled name) and their decimal text with 17 (double) or
8 (float) digits, calculated with exact arithmetic.  Values whose last digit is nearly a matter of rounding are not used."""
import os, random, struct
from fractions import Fraction
random.seed(20261119)
def exact(bits, double):
    """(sign, exact value) or a word."""
    eb, fb = (11, 52) if double else (8, 23)
    s, e, f = bits >> (eb + fb), (bits >> fb) & ((1 << eb) - 1), bits & ((1 << fb) - 1)
    if e == (1 << eb) - 1: return s, 'nan' if f else 'inf'
    bias = (1 << (eb - 1)) - 1
    return s, (Fraction(f) if e == 0 else Fraction(f + (1 << fb))) * Fraction(2) ** ((1 if e == 0 else e) - bias - fb)
def text(bits, double):
    s, v = exact(bits, double)
    if v == 'nan': return 'nan'
    sg = '-' if s else ''
    if v == 'inf': return sg + 'inf'
    if v == 0: return sg + '0'
    p = 17 if double else 8
    e = 0
    while v >= Fraction(10) ** (e + 1): e += 1
    while v < Fraction(10) ** e: e -= 1
    m = v / Fraction(10) ** (e - p + 1)
    d = m.numerator // m.denominator
    r = m - d
    if abs(r - Fraction(1, 2)) < Fraction(1, 10): return None
    if r > Fraction(1, 2): d += 1
    t = str(d)
    if len(t) > p: return None
    t = t.rstrip('0')
    return sg + t[0] + ('.' + t[1:] if len(t) > 1 else '') + ('' if e == 0 else 'e%+d' % e)
def bits_of(x, double): return struct.unpack('>Q' if double else '>I', struct.pack('>d' if double else '>f', x))[0]
tab = {}
def add(bits, double):
    t = text(bits, double)
    if t is not None: tab['x%0*x' % (16 if double else 8, bits)] = t
for double in (True, False):
    eb, fb = (11, 52) if double else (8, 23)
    for x in (0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 12.34, -12.34, 100.0, 1e10, 1e-10, 255.0, -255.0, 1 / 3, 123456.789, 0.1, 65536.0, 1e30, 1e-30): add(bits_of(x, double), double)
    top = ((1 << eb) - 1) << fb
    for b in (top, top | 1 << (eb + fb), top | 1 << (fb - 1), top - 1, (top - 1) | 1 << (eb + fb), 1 << fb, 1, 2, 3, 1 << (fb - 1), (1 << fb) - 1, 1 | 1 << (eb + fb)): add(b, double)
    for _ in range(110 if double else 50): add(random.getrandbits(1 + eb + fb), double)
    for _ in range(15): add(random.getrandbits(random.randint(1, fb)) | random.getrandbits(1) << (eb + fb), double)        # not normalized
    for _ in range(25): add(random.randint(0, (1 << eb) - 2) << fb | random.getrandbits(1) << (eb + fb), double)           # powers of two
    for _ in range(25): add(bits_of(random.randint(-10 ** 6, 10 ** 6) / 10 ** random.randrange(6), double), double)
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'Reals.tla')
with open(out, 'w') as f:
    f.write('-------------------------------- MODULE Reals --------------------------------\n(* Generated by tools/gen_reals.py. *)\nReals == [\n  ')
    f.write(',\n  '.join('%s |-> "%s"' % kv for kv in sorted(tab.items())))
    f.write(']\n=============================================================================\n')
print(len(tab))
