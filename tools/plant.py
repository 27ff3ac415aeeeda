#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""plant bugs: python3 tools/plant.py FILE [id...]   (FILE defines bug(id, property, file, [(old, new)...], demo, needs, breaks))
each bug is applied to a scratch copy of /repo, the stable tests and the demonstration are run there, and on success
seeded/<id>/ is written"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BUGS = []
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONUTF8='1', TZ='UTC', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')


def bug(id, prop, file, subs, demo, needs, breaks):
    BUGS.append((id, prop, file, subs, demo, needs, breaks))


DEMO_SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONUTF8=1
exec %s "$(dirname "$0")/demo.py"
''' % PY
DEMO_HEAD = '''# -*- coding: utf-8 -*-
import os
import sys
sys.path.insert(0, os.getcwd())
'''


def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def main():
    exec(compile(open(sys.argv[1], encoding='utf-8').read(), sys.argv[1], 'exec'), {'bug': bug})
    want = sys.argv[2:]
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    for id, prop, file, subs, demo, needs, breaks in BUGS:
        out = os.path.join(ROOT, 'seeded', id)
        if (want and id not in want) or (not want and os.path.exists(out)):
            continue
        tmp = tempfile.mkdtemp(prefix='plant-')
        try:
            r = os.path.join(tmp, 'repo')
            sh(['git', 'clone', '-q', '/repo', r], tmp)
            d = os.path.join(tmp, 'd')
            os.makedirs(d)
            with open(os.path.join(d, 'demo.py'), 'w', encoding='utf-8') as f:
                f.write(DEMO_HEAD + demo.strip('\n') + '\n')
            with open(os.path.join(d, 'demo.sh'), 'w') as f:
                f.write(DEMO_SH)
            c = sh(['bash', os.path.join(d, 'demo.sh')], r)
            if c.returncode != 0:
                print(id, 'DEMO FAILS ON CLEAN TREE', c.stdout[-800:])
                continue
            items = [(file, a, b) for a, b in subs] if file else subs
            bad = False
            for fn, old, new in items:
                p = os.path.join(r, 'lunar_python', fn)
                t = open(p, encoding='utf-8', newline='').read()
                if t.count(old) != 1:
                    print(id, 'ANCHOR x%d in %s: %s' % (t.count(old), fn, old[:60]))
                    bad = True
                    break
                open(p, 'w', encoding='utf-8', newline='').write(t.replace(old, new))
            if bad:
                continue
            x = sh(['bash', os.path.join(d, 'demo.sh')], r, 300)
            if x.returncode == 0:
                print(id, 'DEMO PASSES WITH THE BUG')
                continue
            ju = os.path.join(tmp, 'j.xml')
            t = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'pytest_timeout', '--timeout=300', '--rootdir=' + r, '-o', 'python_files=*Test.py test_*.py *_test.py',
                    '-o', 'junit_family=xunit2', '--junitxml=' + ju, 'test'], r)
            import xml.etree.ElementTree as ET
            ok = set()
            for e in ET.parse(ju).getroot().iter('testcase'):
                if not any(c.tag in ('failure', 'error', 'skipped') for c in e):
                    ok.add('%s::%s' % (e.get('classname'), e.get('name')))
            miss = [s for s in stable if s not in ok]
            if miss:
                print(id, 'TESTS CATCH IT', miss[:3], len(miss))
                continue
            diff = sh(['git', 'diff'], r).stdout
            os.makedirs(out, exist_ok=True)
            for fn in ('demo.py', 'demo.sh'):
                shutil.copy(os.path.join(d, fn), os.path.join(out, fn))
            with open(os.path.join(out, 'patch.diff'), 'w', encoding='utf-8', newline='') as f:
                f.write(subprocess.run(['git', 'diff'], cwd=r, stdout=subprocess.PIPE).stdout.decode('utf-8'))
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(out, 'meta.json'), 'w', encoding='utf-8'), ensure_ascii=False, indent=1)
            if os.environ.get('NOCHECK'):
                print(id, 'KEPT', flush=True)
                continue
            c = sh(['python3', os.path.join(ROOT, 'check.py'), '--property', prop, '--repo', r, '--no-evidence'], ROOT, 900)
            print(id, prop, 'KEPT; check', 'CATCHES' if c.returncode == 1 and 'VIOLATION property=' + prop in c.stdout else 'MISSES (rc %d)' % c.returncode, (c.stdout.strip().splitlines() or [''])[-4 if c.returncode == 1 else -1][:300])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
