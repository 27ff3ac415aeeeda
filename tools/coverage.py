#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""statements of the package that no obligation interprets: VERIF_LINES=DIR python3 check.py ... ; python3 tools/coverage.py DIR"""
import ast
import os
import sys
repo = '/repo'
hit = set()
for f in os.listdir(sys.argv[1]):
    for l in open(os.path.join(sys.argv[1], f)):
        m, n = l.split()
        hit.add((m, int(n)))
tot = 0
miss = 0
for d, _, fs in sorted(os.walk(repo + '/lunar_python')):
    for f in sorted(fs):
        if not f.endswith('.py'):
            continue
        p = os.path.join(d, f)
        mod = os.path.relpath(p, repo)[:-3].replace('/', '.')
        if mod.endswith('.__init__'):
            mod = mod[:-9]
        tree = ast.parse(open(p, encoding='utf-8').read())

        def walk(n, q):
            global tot, miss
            for c in ast.iter_child_nodes(n):
                qq = q
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    qq = q + [c.name]
                elif isinstance(c, ast.stmt) and not (isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant)) and q and not isinstance(n, ast.ClassDef) and not isinstance(c, (ast.Pass, ast.Import, ast.ImportFrom)):
                    tot += 1
                    if (mod, c.lineno) not in hit:
                        miss += 1
                        print('%s:%d %s: %s' % (mod, c.lineno, '.'.join(q), ast.unparse(c).split('\n')[0][:110]))
                walk(c, qq)
        walk(tree, [])
print('%d statements, %d never interpreted' % (tot, miss))
