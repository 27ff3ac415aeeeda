#!/usr/bin/env python3
"""run each seeded bug's own check on a patched clone of /repo: python3 tools/bugcheck.py [id...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.environ.get('SEEDED', '/verif/seeded')
for id in sys.argv[1:] or sorted(d for d in os.listdir(SEEDED) if os.path.isdir(os.path.join(SEEDED, d))):
    tmp = tempfile.mkdtemp(prefix='plant-')
    try:
        r = os.path.join(tmp, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
        subprocess.run(['git', 'apply', os.path.join(SEEDED, id, 'patch.diff')], cwd=r, check=True)
        prop = json.load(open(os.path.join(SEEDED, id, 'meta.json')))['property']
        t = time.time()
        c = subprocess.run(['python3', os.path.join(ROOT, 'check.py'), '--property', prop, '--repo', r, '--no-evidence', '--procs', os.environ.get('PROCS', '8')], cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        hit = c.returncode == 1 and 'VIOLATION property=' + prop in c.stdout
        print(id, prop, 'caught' if hit else 'MISSED rc %d' % c.returncode, '%.0fs' % (time.time() - t), flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
