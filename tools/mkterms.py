#!/usr/bin/env python3
"""writes spec/term_data.py: moments of the 24 terms of sampled years, in seconds relative to uniform motion (run once, on a reviewed tree, natively)"""
import os
import sys
sys.path.insert(0, '/repo')
sys.dont_write_bytecode = True
from lunar_python import LunarYear
YEARS = sorted(set(range(1, 9999, 7)) | set(range(1, 9999, 47)) | set(range(1600, 2201)))
A = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz-_'
out = []
lo = hi = 0
for y in YEARS:
    s = ''
    for i, jd in enumerate(LunarYear.fromYear(y).getJieQiJulianDays()[1:25]):
        u = 2451545 - 10 + ((y - 2000) * 24 + i) * 365.2422 / 24
        v = int(round((jd - u) * 86400)) + 64 ** 4 // 2
        lo, hi = min(lo, v - 64 ** 4 // 2), max(hi, v - 64 ** 4 // 2)
        t = ''
        for _ in range(4):
            t = A[v % 64] + t
            v //= 64
        s += t
    out.append((y, s))
print(lo, hi)
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'term_data.py'), 'w') as f:
    f.write('# -*- coding: utf-8 -*-\n"""moments of the 24 terms of sampled years (see tools/mkterms.py)"""\nDIGITS = %r\nTERMS = {\n' % A)
    for y, s in out:
        f.write('    %d: %r,\n' % (y, s))
    f.write('}\n')
