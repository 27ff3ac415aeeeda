# -*- coding: utf-8 -*-
"""evidence, known findings and exit status"""
import json
import os
import sys
import time
import traceback
from . import driver
from .values import PyRaise, ExcInst
from .core import Undetermined

ROOT = driver.ROOT
LIMIT = {'quick': 780.0, 'thorough': 840.0}


def known_findings():
    """lines: property=<id> obligation=<name> match=<text>"""
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p, encoding='utf-8'):
            l = l.strip()
            if l.startswith('finding: '):
                f = {}
                for part in l[len('finding: '):].split(' | '):
                    k, _, v = part.partition('=')
                    f[k.strip()] = v.strip()
                out.append(f)
    return out


def is_known(v, prop, kf):
    for f in kf:
        if f.get('property') != prop:
            continue
        if f.get('obligation') and f['obligation'] != v['obligation']:
            continue
        w = v['witness'] or {}
        ok = True
        for k, val in f.items():
            if k.startswith('witness.') and str(w.get(k[8:])) != val:
                ok = False
        if f.get('message') and f['message'] not in v['message']:
            ok = False
        if ok:
            return f
    return None


def check(prop, tier, only=None, repo=None, procs=None, limit=None, verbose=False, write=True, specs=None):
    t0 = time.time()
    cfg = json.load(open(os.path.join(ROOT, 'spec', 'properties_config.json'), encoding='utf-8'))
    c = cfg['properties'].get(prop) or {'specs': [], 'explanation': ''}
    if specs:
        c = dict(c, specs=specs.split(','), lints=[])
        write = False
    viol = []
    results = []
    struct = []
    eng_err = None
    try:
        eng, results = driver.run(prop, tier, c['specs'], limit or LIMIT[tier], repo, only, procs)
    except PyRaise as e:
        ex = e.exc
        nm = ex.cls.__name__ if ex.__class__ is ExcInst else ex.cls.name
        viol.append({'obligation': 'module loading', 'args': {}, 'message': 'loading the package raises %s %s' % (nm, getattr(ex, 'args', '')),
                     'detail': '', 'construct': '%s:%s %s' % (e.where or ('?', '?', '?')), 'functions': [], 'witness': {}})
    except Undetermined as e:
        eng_err = 'module loading: %s' % e
    for name in c.get('lints', []):
        if only and only != name:
            continue
        from . import lints
        try:
            st, vs = getattr(lints, name)(repo or driver.REPO, tier)
            struct.append(st)
            viol.extend(vs)
        except Undetermined as e:
            eng_err = '%s: %s' % (name, e)
    obs = {}
    cover = set()
    nw = 0
    for ob, args, r in results:
        o = obs.setdefault(ob.name, {'rule': ob.rule, 'anchor': ob.anchor, 'instances': 0, 'partitions': 0, 'discharged': 0, 'assertions': 0, 'infeasible': 0,
                                     'beyond_bound': 0, 'undetermined': 0, 'refuted': 0, 'unfinished_instances': 0, 'wall_s': 0.0})
        o['instances'] += 1
        o['partitions'] += r.partitions
        o['discharged'] += r.proved
        o['assertions'] += r.checks
        o['infeasible'] += r.infeasible
        o['beyond_bound'] += r.beyond
        o['undetermined'] += sum(r.und.values())
        o['refuted'] += len(r.viol)
        o['wall_s'] = round(o['wall_s'] + r.wall, 2)
        if r.timeout:
            o['unfinished_instances'] += 1
        for k, n in r.und.items():
            d = o.setdefault('undetermined_reasons', {})
            if len(d) < 12:
                d[k] = d.get(k, 0) + n
        for k, n in r.beyond_why.items():
            d = o.setdefault('beyond_reasons', {})
            d[k] = d.get(k, 0) + n
        cover |= r.cover
        viol.extend(r.viol)
        if verbose and r.nowit and nw < 2:
            nw += 1
            x = dict(r.nowit[0])
            x.pop('functions')
            print('NO WITNESS', json.dumps(x, ensure_ascii=False, default=str)[:900])
    kf = known_findings()
    new, known = [], []
    for v in viol:
        f = is_known(v, prop, kf)
        (known if f else new).append(v)
    for f in kf:
        if f.get('property') == prop:
            hit = [v for v in known if is_known(v, prop, [f])]
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (prop, f.get('what', '')))
    tot = {k: sum(o[k] for o in obs.values()) for k in ('instances', 'partitions', 'discharged', 'assertions', 'infeasible', 'beyond_bound', 'undetermined', 'refuted', 'unfinished_instances')}
    fns = sorted('%s:%s' % x for x in cover if x[0].startswith('lunar_python'))
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': {'explanation': c['explanation'], 'totals': tot, 'obligations': obs, 'functions_analysed': fns, 'functions_count': len(fns),
                       'structural_rules': struct, 'bounds': c.get('bounds', ''), 'engine_error': eng_err},
          'assumptions': c.get('assumptions', []) + cfg['assumptions'],
          'wall_s': round(time.time() - t0, 2)}
    if new:
        ev['violations'] = [{k: v[k] for k in ('obligation', 'args', 'message', 'detail', 'construct', 'witness')} for v in new[:10]]
    if known:
        ev['coverage']['known_findings'] = [v['message'] for v in known]
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    if not only and write:
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w', encoding='utf-8') as f:
            json.dump(ev, f, ensure_ascii=False, indent=1, default=str)
    print('%s %s: %d obligations, %d instances, %d partitions (%d discharged, %d infeasible, %d beyond bound, %d undetermined, %d refuted, %d unfinished), %d functions of lunar_python analysed, %d structural rules, %.1fs' % (
        prop, tier, len(obs), tot['instances'], tot['partitions'], tot['discharged'], tot['infeasible'], tot['beyond_bound'], tot['undetermined'], tot['refuted'],
        tot['unfinished_instances'], len(fns), len(struct), time.time() - t0))
    if eng_err:
        print('note: %s' % eng_err)
    if verbose:
        for n, o in sorted(obs.items()):
            print('  ', n, {k: v for k, v in o.items() if k not in ('rule', 'anchor')})
    if not new:
        return 0
    rp = os.path.join(ROOT if write else '/tmp', 'evidence' if write else '.', 'replay-%s.json' % prop)
    with open(rp, 'w', encoding='utf-8') as f:
        json.dump(new, f, ensure_ascii=False, indent=1, default=str)
    for v in new[:6]:
        print('violation of %s by %s: %s %s' % (prop, v['construct'], v['message'], v['detail']))
        print('   obligation %s %s, concrete member of the refuted partition: %s' % (v['obligation'], v['args'], v['witness']))
    print('VIOLATION property=%s replay=%s' % (prop, rp))
    return 1
