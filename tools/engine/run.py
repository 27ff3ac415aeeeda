#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""fidelity of the engine on ordinary Python constructs (its own test cases, not the analysed package):
python3 tools/engine/run.py"""
import importlib.util
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from absint import driver
from absint.core import Infeasible, Undetermined, BeyondBound
from absint.interp import Interp
from absint.values import *


def plain(I, v):
    c = v.__class__
    if c is Obj and I.tupled(v) is not None:
        return tuple(plain(I, x) for x in I.tupled(v))
    if c in (PyList, It, Rng):
        return [plain(I, x) for x in I.iterate(v)]
    if c is tuple:
        return tuple(plain(I, x) for x in v)
    if c is PyDict:
        return {plain(I, unkey(k)): plain(I, x) for k, x in v.d.items()}
    if c is PySet:
        return set(plain(I, unkey(x)) for x in v.s)
    return v


def main():
    spec = importlib.util.spec_from_file_location('cases', os.path.join(HERE, 'cases.py'))
    mod = importlib.util.module_from_spec(spec)
    sys.modules['cases'] = mod
    spec.loader.exec_module(mod)
    I = Interp({'cases': HERE})
    I.resolve_path = lambda name: (os.path.join(HERE, 'cases.py'), False)
    m = I.load('cases')
    I.freeze()
    bad = 0
    for n in sorted(x for x in dir(mod) if x.startswith('case_')):
        want = getattr(mod, n)()
        try:
            I.reset()
            got = plain(I, I.call(m.ns[n], [], {}))
        except Exception as e:
            got = '%s %s %s' % (e.__class__.__name__, e, getattr(e, 'exc', ''))
        if got != want:
            bad += 1
            print('DIFFERS', n)
            if isinstance(want, list) and isinstance(got, list):
                for i, (a, b) in enumerate(zip(want, got)):
                    if a != b:
                        print('   item %d: want %r got %r' % (i, a, b))
            else:
                print('   want %r\n   got  %r' % (want, got))
    top = 9999
    for n in sorted(x for x in dir(mod) if x.startswith('sym_')):
        f = getattr(mod, n)
        seen = set()
        parts = und = 0
        I.ex.reset() if hasattr(I.ex, 'reset') else None
        more = True
        while more:
            I.reset()
            try:
                x = I.st.sym('n', 0, top)
                r = I.call(m.ns[n], [x], {})
                w = I.st.find_model()
                if w is not None:
                    k = int(I.st.value(x, w))
                    got = plain(I, conc(I, r, w))
                    if got != f(k):
                        bad += 1
                        print('DIFFERS %s(%d): want %r got %r' % (n, k, f(k), got))
                    seen.add(k)
                parts += 1
            except Infeasible:
                pass
            except (Undetermined, BeyondBound) as e:
                und += 1
                if und < 3:
                    print('undetermined', n, e)
            except PyRaise as e:
                bad += 1
                print('RAISES', n, e.exc)
            more = I.ex.advance()
        print('%s: %d partitions, %d undetermined' % (n, parts, und))
    print('bad: %d' % bad)
    return 1 if bad else 0


def conc(I, v, w):
    from absint.core import Lin
    c = v.__class__
    if c is Lin:
        k = I.st.value(v, w)
        return int(k) if k == int(k) else float(k)
    if c is SStr:
        return ''.join(p if p.__class__ is str else '%0*d' % (p[1], int(conc(I, p[0], w))) for p in v.p)
    if c is PyList:
        return PyList([conc(I, x, w) for x in v.items])
    if c is tuple:
        return tuple(conc(I, x, w) for x in v)
    return v


if __name__ == '__main__':
    sys.exit(main())
