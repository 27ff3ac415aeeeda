#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""single source of properties.jsonl, MANIFEST.json and spec/properties_config.json"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, specs=None, explanation='', lints=None, bounds='', assumptions=None, note='', na=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, specs=specs, explanation=explanation,
                  lints=lints or [], bounds=bounds, assumptions=assumptions or [], note=note, na=na, technique=technique))


exec(open(os.path.join(ROOT, 'tools', 'properties.py'), encoding='utf-8').read())

TECH = ('static abstract interpretation of the Python source (AST) with disjunctive completion: intervals, congruences and affine equalities for numbers, '
        'structured text for strings; every obligation is decided for all members of every partition')


def main():
    P.sort(key=lambda p: int(p['id'][1:]))
    assert len({p['id'] for p in P}) == len(P)
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in P:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}, ensure_ascii=False) + '\n')
    checks = []
    na = []
    cfg = {}
    for p in P:
        if p['na'] or (not p['specs'] and not p['lints']):
            na.append({'property': p['id'], 'reason': p['na'] or 'no check built yet'})
            continue
        c = 'python3 check.py --property %s --tier ' % p['id']
        checks.append({'property': p['id'], 'quick_cmd': c + 'quick', 'thorough_cmd': c + 'thorough', 'technique': p['technique'] or TECH,
                       'level': 'other', 'level_note': p['note'] or 'holds for every member of the quantified domain of each obligation that the analysis discharges; bounds: ' + (p['bounds'] or 'stated in the evidence')})
        cfg[p['id']] = {'specs': p['specs'] or [], 'lints': p['lints'], 'explanation': p['explanation'], 'bounds': p['bounds'], 'assumptions': p['assumptions']}
    json.dump({'version': 1, 'setup_cmd': 'python3 tools/selftest.py', 'checks': checks, 'not_applicable': na, 'notes': NOTES},
              open(os.path.join(ROOT, 'MANIFEST.json'), 'w', encoding='utf-8'), ensure_ascii=False, indent=1)
    json.dump({'assumptions': ASSUMPTIONS, 'properties': cfg}, open(os.path.join(ROOT, 'spec', 'properties_config.json'), 'w', encoding='utf-8'), ensure_ascii=False, indent=1)


main()
