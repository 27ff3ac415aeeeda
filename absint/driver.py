# -*- coding: utf-8 -*-
"""runs specification functions over all trace partitions of the analysed source and collects verdicts"""
import os
import sys
import time
import json
import hashlib
import itertools
import multiprocessing
from .core import Lin, Infeasible, Undetermined, BeyondBound, lin_add
from .values import *
from . import interp
from .interp import Interp
from . import strings as S

REPO = os.environ.get('LUNAR_REPO', '/repo')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class SpecFail(Exception):
    def __init__(self, msg, detail=None):
        Exception.__init__(self)
        self.msg = msg
        self.detail = detail


class Obligation(object):
    def __init__(self, fn, props, grid, anchor, tier, name, budget, rule):
        self.fn = fn
        self.props = props
        self.grid = grid
        self.anchor = anchor
        self.tier = tier
        self.name = name
        self.budget = budget
        self.rule = rule

    def instances(self, tier):
        """list of keyword dictionaries"""
        names, lists = [], []
        for k, v in self.grid.items():
            names.append(k)
            lists.append(v[tier] if isinstance(v, dict) else v)
        return [dict(zip(names, c)) for c in itertools.product(*lists)]


def native(I, v):
    c = v.__class__
    if c is PyList or c is Rng:
        return [native(I, x) for x in I.iterate(v)]
    if c is tuple:
        return tuple(native(I, x) for x in v)
    if c is PyDict:
        return {native(I, k): native(I, x) for k, x in v.d.items()}
    return v


def load_engine(specs, repo=None):
    """interpreter with the analysed package and the given spec modules loaded"""
    I = Interp({'lunar_python': os.path.join(repo or REPO, 'lunar_python'), 'spec': os.path.join(ROOT, 'spec')})
    I.obligations = []
    install_spec(I)
    I.load('lunar_python')
    for s in specs:
        I.load('spec.' + s)
    I.freeze()
    return I


def show(I, v, depth=0):
    """rendering of an abstract value for reports"""
    c = v.__class__
    if c is Lin:
        k = I.const_of(v)
        if k is not None:
            return repr(k)
        lo, hi = I.st.bounds(v)
        return '[%s..%s]' % (lo, hi)
    if c is SStr:
        return ''.join(p if p.__class__ is str else '{%s}' % show(I, p[0]) for p in v.p)
    if c is PyList:
        return '[' + ', '.join(show(I, x, depth + 1) for x in v.items[:12]) + ']'
    if c is tuple:
        return '(' + ', '.join(show(I, x, depth + 1) for x in v[:12]) + ')'
    if c is PyDict:
        return '{' + ', '.join('%s: %s' % (k, show(I, x, depth + 1)) for k, x in list(v.d.items())[:8]) + '}'
    if c is Obj:
        if depth > 1:
            return '<%s>' % v.cls.name
        return '<%s %s>' % (v.cls.name, ', '.join('%s=%s' % (k.split('__')[-1], show(I, x, depth + 2)) for k, x in list(v.attrs.items())[:6]))
    return repr(v)


def install_spec(I):
    """primitives available to specification modules"""
    B = I.builtins

    def bi(name):
        def deco(f):
            B[name] = Builtin('spec.' + name, f)
            return f
        return deco

    @bi('obligation')
    def _ob(args, kw):
        props = list(native(I, args[0]) if args[0].__class__ is PyList else [args[0]])
        grid = {}
        tier = kw.pop('tier', 'quick')
        anchor = kw.pop('anchor', '')
        budget = kw.pop('budget', 200000)
        rule = kw.pop('rule', '')
        for k, v in kw.items():
            grid[k] = native(I, v)

        def deco(a, k):
            fn = a[0]
            I.obligations.append(Obligation(fn, props, grid, anchor, tier, fn.module.name.split('.')[-1] + '.' + fn.name, budget, rule))
            return fn
        return Builtin('obligation', deco)

    @bi('sym')
    def _sym(args, kw):
        v = I.st.sym(args[0], args[1], args[2])
        if len(args) < 4 or args[3]:
            I.st.inputs.append((args[0], v))
        return I.simp(v)

    @bi('fresh')
    def _fresh(args, kw):
        return I.simp(I.st.sym(args[0], args[1], args[2]))

    @bi('choice')
    def _choice(args, kw):
        v = I.choice(I.iter_list(args[1]))
        I.st.inputs.append((args[0], v))
        return v

    @bi('note')
    def _note(args, kw):
        I.st.inputs.append((args[0], args[1]))

    @bi('assume')
    def _assume(args, kw):
        if not I.truth(args[0]):
            raise Infeasible()

    @bi('require')
    def _require(args, kw):
        if not I.truth(args[0]):
            raise SpecFail(args[1] if len(args) > 1 else 'requirement')
        I.checks += 1

    @bi('require_eq')
    def _require_eq(args, kw):
        a, b = args[0], args[1]
        if a.__class__ is Top or b.__class__ is Top:
            raise Undetermined('value not modelled: %s' % (a.why if a.__class__ is Top else b.why))
        if not I.eq(a, b):
            raise SpecFail(args[2] if len(args) > 2 else 'values differ', lambda: 'got %s, expected %s' % (show(I, a), show(I, b)))
        I.checks += 1

    @bi('fail')
    def _fail(args, kw):
        raise SpecFail(args[0])

    @bi('infeasible')
    def _infeasible(args, kw):
        raise Infeasible()

    @bi('undetermined')
    def _und(args, kw):
        raise Undetermined(args[0])

    @bi('beyond')
    def _bey(args, kw):
        raise BeyondBound(args[0])

    @bi('concrete')
    def _concrete(args, kw):
        return I.enum(args[0], args[1] if len(args) > 1 else 400)

    @bi('decided')
    def _decided(args, kw):
        """constant value when the partition pins it, else None"""
        return I.const_of(args[0])

    @bi('key_of')
    def _key_of(args, kw):
        """hashable normal form of a number (equal keys = equal values in this partition)"""
        a = I.st.nf(I.lin(args[0]))
        return '%s|%s' % (a.c, sorted(a.t.items()))

    @bi('bounds')
    def _bounds(args, kw):
        return I.st.bounds(I.lin(args[0]))

    @bi('raised')
    def _raised(args, kw):
        """name of the exception class raised by the call, or None"""
        depth = len(I.stack)
        try:
            I.call(args[0], list(args[1:]), kw)
        except PyRaise as e:
            del I.stack[depth:]
            return e.exc.cls.__name__ if e.exc.__class__ is ExcInst else e.exc.cls.name
        return None

    @bi('patch')
    def _patch(args, kw):
        cls, name, v = args
        if cls.__class__ is Cls and not (cls.lookup(name) is not MISSING):
            if cls.name == 'ShouXingUtil':
                raise Undetermined('%s.%s is gone' % (cls.name, name))
            raise SpecFail('public anchor %s.%s is gone' % (cls.name, name))
        old = cls.ns.get(name, MISSING)
        I.patched.append((cls, name, old))
        cls.ns[name] = Static(v) if old.__class__ is Static else v

    @bi('new_date')
    def _nd(args, kw):
        return I.new_date(args[0])

    @bi('date_ord')
    def _do(args, kw):
        return I.date_ord(*args)

    @bi('cal_ord')
    def _co(args, kw):
        from . import calendar_ref as C
        return C.to_ord(*args)

    @bi('cal_from')
    def _cf(args, kw):
        from . import calendar_ref as C
        return C.from_ord(args[0])

    @bi('mark')
    def _mark(args, kw):
        """remember the state of modules, classes, functions and their closures"""
        I.memo[('spec', 'mark')] = I.static_state()

    @bi('rewind')
    def _rewind(args, kw):
        """go back to the remembered state, as if nothing had been called since"""
        I.restore(I.memo[('spec', 'mark')])
        I.steps = 0

    @bi('is_same')
    def _is(args, kw):
        return args[0] is args[1]

    @bi('is_shared')
    def _shared(args, kw):
        """the object is part of the program's static (module/class level) state"""
        return bool(getattr(args[0], 'static', False))

    @bi('kind_of')
    def _kind(args, kw):
        v = args[0]
        c = v.__class__
        return {Lin: 'int', int: 'int', bool: 'bool', float: 'float', str: 'str', SStr: 'str', PyList: 'list', PyDict: 'dict', tuple: 'tuple',
                PySet: 'set', Obj: 'object', Top: 'top'}.get(c, 'none' if v is None else c.__name__)

    @bi('class_name')
    def _cn(args, kw):
        return args[0].cls.name if args[0].__class__ is Obj else ''

    @bi('attr_values')
    def _av(args, kw):
        """instance attribute values of an abstract object"""
        o = args[0]
        return PyList(list(o.attrs.values())) if o.__class__ is Obj else PyList([])

    @bi('public_methods')
    def _pm(args, kw):
        """names of the public zero-argument methods (besides self) of a class"""
        out = []
        cls = args[0]
        if cls.__class__ is Obj:
            cls = cls.cls
        seen = set()
        for c in cls.mro:
            if not isinstance(c, Cls):
                continue
            for n, v in c.ns.items():
                if n in seen:
                    continue
                seen.add(n)
                if n.startswith('_') or v.__class__ is not Func:
                    continue
                a = v.args
                req = len(a.posonlyargs) + len(a.args) - len(v.defaults)
                if req <= 1 and (len(a.args) + len(a.posonlyargs)) >= 1:
                    out.append(n)
        return PyList(sorted(out))

    @bi('n_events')
    def _ne(args, kw):
        k = args[0]
        return sum(1 for e in I.events if e[0] == k)

    @bi('locks_held')
    def _lh(args, kw):
        return sum(l.held for l in I.locks)

    @bi('inject_at')
    def _inject(args, kw):
        """make the n-th call of an analysed function raise"""
        left = [args[0]]
        count = [0]

        def hook(J, fn):
            if not fn.module.name.startswith('lunar_python'):
                return
            count[0] += 1
            if count[0] == left[0]:
                raise PyRaise(ExcInst(RuntimeError, ('injected failure',)))
        I.inject = hook
        I.inject_count = count

    @bi('inject_off')
    def _injoff(args, kw):
        n = I.inject_count[0] if I.inject is not None else 0
        I.inject = None
        return n

    @bi('preempt_at')
    def _preempt(args, kw):
        """another thread runs the given call to its end at the n-th preemption point: statements of the package executed without a lock (every
        one of the first 60, then every 25th), and, under a lock, the statements following a write to shared state"""
        n, fn = args
        c = {'points': 0, 'raw': 0, 'done': None, 'writes': 0, 'after': 0}
        I.preempted = c

        def hook():
            if I.thread:
                return
            held = any(l.held for l in I.locks)
            if held:
                w = sum(1 for e in I.events if e[0] in ('write', 'mutate'))
                if w != c['writes']:
                    c['writes'] = w
                    c['after'] = 4
                if c['after'] <= 0:
                    return
                c['after'] -= 1
            c['raw'] += 1
            if c['raw'] > 60 and c['raw'] % 25:
                return
            c['points'] += 1
            if c['points'] - 1 == n:
                I.preempt = None
                I.thread = 1
                c['done'] = '%s:%s' % (I.where()[0], I.where()[1])
                I.call(fn, [], {})
                I.thread = 0
        I.preempt = hook

    @bi('preempted')
    def _preempted(args, kw):
        I.preempt = None
        return I.preempted['done']

    @bi('set_order')
    def _so(args, kw):
        I.set_reverse = bool(args[0])

    @bi('set_clock')
    def _clock(args, kw):
        I.memo['now'] = {'year': args[0], 'month': 6, 'day': 15, 'hour': 12, 'minute': 30, 'second': 30, 'microsecond': 0}

    @bi('memo_get')
    def _mg(args, kw):
        return I.memo.get(('spec', args[0]))

    @bi('memo_set')
    def _ms(args, kw):
        I.memo[('spec', args[0])] = args[1]


class Result(object):
    def __init__(self):
        self.proved = 0
        self.infeasible = 0
        self.beyond = 0
        self.beyond_why = {}
        self.und = {}
        self.viol = []
        self.checks = 0
        self.partitions = 0
        self.cover = set()
        self.timeout = False
        self.wall = 0.0
        self.nowit = []


def anchor_line(I, anchor):
    """file:line of Class.method"""
    try:
        cn, _, mn = anchor.partition('.')
        for m in I.modules.values():
            c = m.ns.get(cn)
            if isinstance(c, Cls):
                if not mn:
                    return '%s: class %s' % (c.module.path, cn)
                f = c.lookup(mn)
                f = f.fn if f.__class__ in (Static, ClassM) else f
                if f.__class__ is Func:
                    return '%s:%d: %s' % (f.module.path, f.line, f.qual)
    except Exception:
        pass
    return anchor


def witness(I):
    m = I.st.find_model()
    if m is None:
        return None
    out = {}
    for n, v in I.st.inputs:
        if v.__class__ is Lin:
            try:
                out[n] = I.st.value(v, m)
            except KeyError:
                out[n] = '?'
        else:
            out[n] = show(I, v)
    return out


def run_instance(I, ob, args, deadline, max_viol=3):
    r = Result()
    t0 = time.time()
    I.ex.script = []
    while True:
        I.reset()
        I.patched = []
        I.checks = 0
        I.cover = set()
        r.partitions += 1
        fail = None
        try:
            I.call(ob.fn, [], dict(args))
            if I.checks:
                r.proved += 1
            else:
                r.infeasible += 1
        except Infeasible:
            r.infeasible += 1
        except BeyondBound as e:
            r.beyond += 1
            r.beyond_why[str(e)] = r.beyond_why.get(str(e), 0) + 1
        except Undetermined as e:
            k = str(e)
            r.und[k] = r.und.get(k, 0) + 1
        except RecursionError:
            r.und['recursion'] = r.und.get('recursion', 0) + 1
        except SpecFail as e:
            fail = (e.msg, e.detail() if e.detail else '', None)
        except PyRaise as e:
            ex = e.exc
            nm = ex.cls.__name__ if ex.__class__ is ExcInst else ex.cls.name
            txt = ', '.join(show(I, a) for a in (ex.args if ex.__class__ is ExcInst else ()))
            fail = ('uncaught %s: %s' % (nm, txt), 'raised in %s' % (e.where,), e.where)
        r.checks += I.checks
        r.cover |= I.cover
        if fail:
            w = witness(I)
            rec = {'obligation': ob.name, 'args': {k: v for k, v in args.items()}, 'message': fail[0], 'detail': fail[1],
                   'construct': ('%s:%s %s' % (fail[2][0], fail[2][1], fail[2][2])) if fail[2] and fail[2][0].find('/spec/') < 0 else anchor_line(I, ob.anchor),
                   'functions': sorted('%s:%s' % c for c in I.cover if c[0].startswith('lunar_python')), 'witness': w}
            if w is None:
                r.nowit.append(rec)
                r.und['refuted partition without a concrete member'] = r.und.get('refuted partition without a concrete member', 0) + 1
            else:
                r.viol.append(rec)
                if len(r.viol) >= max_viol:
                    break
        for cls, name, old in reversed(I.patched):
            if old is MISSING:
                cls.ns.pop(name, None)
            else:
                cls.ns[name] = old
        if not I.ex.advance():
            break
        if r.partitions >= ob.budget or time.time() > deadline:
            r.timeout = True
            break
    r.wall = time.time() - t0
    return r


_ENG = None


def _work(job):
    oi, args, deadline = job
    ob = _ENG.obligations[oi]
    if time.time() > deadline:
        r = Result()
        r.timeout = True
        return oi, args, r
    try:
        r = run_instance(_ENG, ob, args, deadline)
    except BaseException as e:      # engine failure is never a verdict
        import traceback
        r = Result()
        r.und['engine: %s: %s' % (e.__class__.__name__, traceback.format_exc()[-600:])] = 1
    if interp.LINES is not None:
        with open(os.path.join(os.environ['VERIF_LINES'], str(os.getpid())), 'a') as f:
            for k, hit in list(interp.LINES.items()):
                if hit is True:
                    f.write('%s %d\n' % k)
                    interp.LINES[k] = None
    return oi, args, r


def run(prop, tier, specs, limit, repo=None, only=None, procs=None):
    """run every obligation of one property; returns (engine, [(ob, args, Result)])"""
    global _ENG
    t0 = time.time()
    I = load_engine(specs, repo)
    _ENG = I
    jobs = []
    for i, ob in enumerate(I.obligations):
        if prop not in ob.props:
            continue
        if ob.tier == 'thorough' and tier != 'thorough':
            continue
        if only and not ob.name.endswith(only):
            continue
        for a in ob.instances(tier):
            jobs.append((i, a, t0 + limit))
    procs = procs or min(8, os.cpu_count() or 1)
    out = []
    if procs == 1 or len(jobs) <= 1:
        for j in jobs:
            out.append(_work(j))
    else:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(procs) as p:
            for r in p.imap_unordered(_work, jobs, chunksize=1):
                out.append(r)
    return I, [(I.obligations[i], a, r) for i, a, r in out]
