#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""apply behaviour-preserving edits to a copy of /repo and run the checks on it: they must stay quiet and decided.
python3 tools/refactor.py FILE DIR [C01 C02 ...]    (FILE calls ref(file, old, new); DIR is created, removed with git clean by hand)"""
import json
import os
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EDITS = []


def ref(file, old, new, count=1):
    EDITS.append((file, old, new, count))


def main():
    exec(compile(open(sys.argv[1], encoding='utf-8').read(), sys.argv[1], 'exec'), {'ref': ref})
    d = sys.argv[2]
    if os.path.exists(d):
        shutil.rmtree(d)
    subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
    for f, old, new, n in EDITS:
        p = os.path.join(d, 'lunar_python', f)
        t = open(p, encoding='utf-8', newline='').read()
        if t.count(old) != n:
            print('ANCHOR x%d %s: %s' % (t.count(old), f, old[:80]))
            return 1
        open(p, 'w', encoding='utf-8', newline='').write(t.replace(old, new))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=d)
    r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--rootdir=' + d, '-o', 'python_files=*Test.py test_*.py *_test.py', 'test'], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(r.stdout[-300:])
    if ' failed' in r.stdout or ' error' in r.stdout or ' passed' not in r.stdout:
        print(r.stdout[-3000:])
        return 1
    ids = sys.argv[3:] or [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'), encoding='utf-8')]
    for i in ids:
        r = subprocess.run([sys.executable, os.path.join(ROOT, 'check.py'), '--property', i, '--repo', d, '--no-evidence'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd='/tmp')
        o = r.stdout.strip().split('\n')
        bad = r.returncode != 0 or ' 0 undetermined' not in o[-1] or ' 0 unfinished' not in o[-1] or ' 0 beyond' not in o[-1]
        print(i, 'BAD rc=%d' % r.returncode if bad else 'ok', '\n'.join(o[-4:])[:900] if bad else o[-1][-20:], flush=True)


if __name__ == '__main__':
    sys.exit(main())
