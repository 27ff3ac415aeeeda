# -*- coding: utf-8 -*-
"""more of the standard library: helpers that ordinary rewrites of calendar code reach for.
Anything absent answers an unknown value (no verdict), never a false exception."""
import itertools
import re
from .core import Lin, Undetermined
from .values import *
from . import strings as S


def fields_class(I, c, names, defaults=None):
    """make c behave like a tuple of the named fields"""
    names = list(names)
    defaults = defaults or {}
    c.ns['!fields'] = names

    def tup(o):
        return tuple(o.attrs[n] for n in names)

    def other(x):
        if x.__class__ is Obj and x.cls.lookup('!fields') is not MISSING:
            return tuple(x.attrs[n] for n in x.cls.lookup('!fields'))
        return x

    def m(n, f):
        c.ns[n] = Builtin('method:' + n, f)

    def init(a, k):
        o, a = a[0], a[1:]
        if len(a) > len(names):
            I.err(TypeError, 'too many arguments')
        for n, v in zip(names, a):
            o.attrs[n] = v
        for n, v in k.items():
            if n not in names or n in o.attrs:
                I.err(TypeError, 'unexpected argument %s' % n)
            o.attrs[n] = v
        for n in names:
            if n not in o.attrs:
                if n not in defaults:
                    I.err(TypeError, 'missing argument %s' % n)
                o.attrs[n] = defaults[n]
    m('__init__', init)
    m('__iter__', lambda a, k: tup(a[0]))
    m('__getitem__', lambda a, k: I.getitem(tup(a[0]), a[1]))
    m('__len__', lambda a, k: len(names))
    m('__contains__', lambda a, k: I.contains(tup(a[0]), a[1]))
    m('__eq__', lambda a, k: I.eq(tup(a[0]), other(a[1])))
    m('__ne__', lambda a, k: not I.eq(tup(a[0]), other(a[1])))
    for n, op in (('__lt__', 'Lt'), ('__le__', 'LtE'), ('__gt__', 'Gt'), ('__ge__', 'GtE')):
        m(n, (lambda op: lambda a, k: I.compare(op, tup(a[0]), other(a[1])))(op))
    m('__add__', lambda a, k: I.binop('Add', tup(a[0]), other(a[1])))
    m('_asdict', lambda a, k: PyDict(dict(a[0].attrs)))

    def replace(a, k):
        d = dict(a[0].attrs)
        d.update(k)
        return Obj(a[0].cls, d)
    m('_replace', replace)
    m('index', lambda a, k: [i for i, x in enumerate(tup(a[0])) if I.eq(x, a[1])][0])
    c.ns['_fields'] = tuple(names)
    c.ns['_make'] = ClassM(Builtin('_make', lambda a, k: I.call(a[0], I.iter_list(a[1]), {})))
    return c


def finish_class(I, c, n):
    """what a metaclass of the standard library would do to the class statement n"""
    for b in c.mro[1:]:
        if not isinstance(b, Cls):
            continue
        if '!namedtuple' in b.ns:
            names = c.ns.get('!ann', [])
            own = {k: c.ns.pop(k) for k in names if k in c.ns}
            methods = dict(c.ns)
            fields_class(I, c, names, own)
            c.ns.update(methods)
            for k, v in own.items():
                pass
            return
        if '!enum' in b.ns:
            kind = b.ns['!enum']
            members = []
            auto = 0
            for k, v in list(c.ns.items()):
                if k[:1] in '_!' or v.__class__ in (Func, Static, ClassM, Prop, Builtin, Cls):
                    continue
                if kind != 'Enum':
                    raise Undetermined('enumeration of kind %s' % kind)
                if v == ('auto',):
                    v = auto + 1
                if v.__class__ is int:
                    auto = v
                for o in members:
                    if I.eq(o.attrs['_value_'], v):
                        break
                else:
                    o = Obj(c, {'name': k, 'value': v, '_name_': k, '_value_': v})
                    members.append(o)
                    init = c.lookup('__init__')
                    if init is not MISSING:
                        I.call(init, [o] + (list(v) if v.__class__ is tuple else [v]), {})
                c.ns[k] = o
            c.ns['!members'] = members
            c.ns['__members__'] = PyDict({k: v for k, v in c.ns.items() if v.__class__ is Obj and v.cls is c})

            def find(a, k):
                for o in members:
                    if a[1] is o or I.eq(o.attrs['_value_'], a[1]):
                        return o
                I.err(ValueError, 'not a member of %s' % c.name)
            c.ns['__new__'] = Builtin('__new__', find)
            c.ns['__init__'] = Builtin('method:__init__', lambda a, k: None)
            return
        if '!abc' in b.ns:
            continue


class Field(object):
    pass


def dataclass(I):
    def make(c, kw):
        names, own = [], {}
        for b in reversed(c.mro):
            if isinstance(b, Cls):
                for k in b.ns.get('!ann', []):
                    if k not in names:
                        names.append(k)
                    if k in b.ns:
                        own[k] = b.ns[k]

        def init(a, k):
            o = a[0]
            it = iter(a[1:])
            took = 0
            k = dict(k)
            for n in names:
                d = own.get(n, MISSING)
                fld = d.attrs if d.__class__ is Obj and d.cls.name == '!field' else None
                if fld is not None and 'init' in fld and not I.truth(fld['init']):
                    v = MISSING
                elif took < len(a) - 1:
                    v = next(it)
                    took += 1
                elif n in k:
                    v = k.pop(n)
                else:
                    v = MISSING
                if v is MISSING:
                    if fld is not None:
                        if 'default_factory' in fld:
                            v = I.call(fld['default_factory'], [], {})
                        elif 'default' in fld:
                            v = fld['default']
                    elif d is not MISSING:
                        v = d
                if v is MISSING:
                    I.err(TypeError, 'missing argument %s' % n)
                o.attrs[n] = v
            if k or took < len(a) - 1:
                I.err(TypeError, 'unexpected arguments')
            post = o.cls.lookup('__post_init__')
            if post is not MISSING:
                I.call(post, [o], {})

        def tup(o):
            return tuple(o.attrs[n] for n in names)
        if '__init__' not in c.ns and I.truth(kw.get('init', True)):
            c.ns['__init__'] = Builtin('method:__init__', init)
        if '__eq__' not in c.ns and I.truth(kw.get('eq', True)):
            c.ns['__eq__'] = Builtin('method:__eq__', lambda a, k: a[1].__class__ is Obj and a[1].cls is a[0].cls and I.eq(tup(a[0]), tup(a[1])))
        if I.truth(kw.get('order', False)):
            for n, op in (('__lt__', 'Lt'), ('__le__', 'LtE'), ('__gt__', 'Gt'), ('__ge__', 'GtE')):
                c.ns[n] = Builtin('method:' + n, (lambda op: lambda a, k: I.compare(op, tup(a[0]), tup(a[1])))(op))
        if '__repr__' not in c.ns and '__str__' not in c.ns:
            c.ns['__repr__'] = Builtin('method:__repr__', lambda a, k: Top('repr of a data class'))
        if I.truth(kw.get('frozen', False)):
            c.ns['!fields'] = names
        c.ns['!data'] = names
        return c

    def deco(a, k):
        if a:
            return make(a[0], k)
        return Builtin('dataclass', lambda b, kk: make(b[0], k))
    return deco


def context_manager(I):
    from .coroutine import Coroutine
    c = Cls('_GeneratorContextManager', {}, [], None)

    def enter(a, k):
        f, args, kw = a[0].attrs['!call']
        from .interp import Frame
        slf = []
        while f.__class__ in (Bound, Static, ClassM):
            if f.__class__ is Bound:
                slf.insert(0, f.self)
            f = f.fn
        fr = Frame(I.bind(f, slf + args, kw), f.frame, f)
        co = Coroutine(I, f, fr)
        a[0].attrs['!co'] = co
        r = co.resume()
        if r is None:
            I.err(RuntimeError, "generator didn't yield")
        return r[0]

    def exit_(a, k):
        co = a[0].attrs['!co']
        if a[1] is None:
            if co.resume() is not None:
                I.err(RuntimeError, "generator didn't stop")
            return False
        e = PyRaise(a[2])
        try:
            if co.resume(e) is not None:
                I.err(RuntimeError, "generator didn't stop")
        except PyRaise as x:
            if x is e or x.exc is e.exc:
                return False
            raise
        return True
    c.ns['__enter__'] = Builtin('method:enter', enter)
    c.ns['__exit__'] = Builtin('method:exit', exit_)

    def cm(a, k):
        f = a[0]
        b = Builtin('method:contextmanager', lambda args, kw: Obj(c, {'!call': (f, list(args), kw)}))
        b.refs = [f]
        return b
    return Builtin('contextmanager', cm)


def regex(I, ns):
    flags = {n: int(getattr(re, n)) for n in ('I', 'IGNORECASE', 'M', 'MULTILINE', 'S', 'DOTALL', 'X', 'VERBOSE', 'A', 'ASCII', 'U', 'UNICODE')}
    ns.update(flags)
    M = Cls('re.Match', {}, [], None)
    P = Cls('re.Pattern', {}, [], None)

    def lift(v):
        if v.__class__ is list:
            return PyList([lift(x) for x in v])
        if v.__class__ is dict:
            return PyDict({k: lift(x) for k, x in v.items()})
        if v.__class__ is re.Match:
            return Obj(M, {'!m': v})
        return v

    def low(v):
        if v.__class__ is SStr:
            return S.enum_str(I, v)
        if v.__class__ is Lin:
            return I.enum(v)
        if v.__class__ is Top:
            raise Undetermined('pattern matching on unknown value')
        if v.__class__ in (Func, Bound, Builtin):
            return lambda m: low(I.call(v, [lift(m)], {}))
        return v
    for n in ('group', 'groups', 'start', 'end', 'span', 'groupdict', '__getitem__'):
        def f(a, k, n=n):
            try:
                return lift(getattr(a[0].attrs['!m'], n)(*[low(x) for x in a[1:]]))
            except IndexError:
                I.err(IndexError, 'no such group')
        M.ns[n] = Builtin('method:' + n, f)

    def run(p, n, a, k):
        a = [low(x) for x in a]
        k = {q: low(x) for q, x in k.items()}
        if any(x is not None and x.__class__ not in (str, int, bool) and not callable(x) for x in a):
            I.err(TypeError, 'expected string')
        r = getattr(p, n)(*a, **k)
        if n == 'finditer':
            return It(iter([lift(x) for x in r]))
        return lift(r)
    for n in ('match', 'fullmatch', 'search', 'findall', 'finditer', 'sub', 'subn', 'split'):
        P.ns[n] = Builtin('method:' + n, lambda a, k, n=n: run(a[0].attrs['!p'], n, a[1:], k))

    def compiled(a, k):
        p = a[0]
        if p.__class__ is Obj and p.cls is P:
            return p.attrs['!p']
        return re.compile(low(p), low(k.get('flags', a[1] if len(a) > 1 else 0)))
    ns['compile'] = Builtin('re.compile', lambda a, k: Obj(P, {'!p': compiled(a, k), 'pattern': a[0]}))
    for n in ('match', 'fullmatch', 'search', 'findall', 'finditer', 'split'):
        ns[n] = Builtin('re.' + n, lambda a, k, n=n: run(compiled([a[0]] + list(a[2:3]), k), n, a[1:2], {}))
    ns['sub'] = Builtin('re.sub', lambda a, k: run(compiled([a[0]], k), 'sub', a[1:], {q: x for q, x in k.items() if q == 'count'}))
    ns['escape'] = Builtin('re.escape', lambda a, k: re.escape(low(a[0])))


def extend(I, name, ns):
    def fn(n, f):
        ns[n] = Builtin(n, f)

    def pred(f, x):
        return I.truth(x if f is None else I.call(f, [x], {}))
    if name == 'itertools':
        c = ns['chain'].fn

        def chain_from(a, k):
            def g():
                for y in I.iterate(a[0]):
                    for x in I.iterate(y):
                        yield x
            return It(g())
        ch = Cls('chain', {'__new__': Builtin('__new__', lambda a, k: c(a[1:], k)), 'from_iterable': Static(Builtin('from_iterable', chain_from))}, [], None)
        ns['chain'] = ch

        def pairwise(a, k):
            xs = I.iter_list(a[0])
            return It(iter(list(zip(xs, xs[1:]))))
        fn('pairwise', pairwise)
        fn('zip_longest', lambda a, k: It(iter(list(itertools.zip_longest(*[I.iter_list(x) for x in a], fillvalue=k.get('fillvalue'))))))
        fn('starmap', lambda a, k: It(I.call(a[0], I.iter_list(x), {}) for x in I.iterate(a[1])))
        fn('filterfalse', lambda a, k: It(x for x in I.iterate(a[1]) if not pred(a[0], x)))
        fn('compress', lambda a, k: It(x for x, s in zip(I.iterate(a[0]), I.iterate(a[1])) if I.truth(s)))

        def dropwhile(a, k):
            def g():
                on = False
                for x in I.iterate(a[1]):
                    if not on and pred(a[0], x):
                        continue
                    on = True
                    yield x
            return It(g())
        fn('dropwhile', dropwhile)

        def groupby(a, k):
            key = a[1] if len(a) > 1 else k.get('key')
            out = []
            for x in I.iterate(a[0]):
                kk = x if key is None else I.call(key, [x], {})
                if out and I.eq(out[-1][0], kk):
                    out[-1][1].append(x)
                else:
                    out.append((kk, [x]))
            return It(iter([(kk, It(iter(xs))) for kk, xs in out]))
        fn('groupby', groupby)
        for n in ('combinations', 'permutations', 'combinations_with_replacement'):
            fn(n, lambda a, k, n=n: It(iter(list(getattr(itertools, n)(I.iter_list(a[0]), *[I.enum(x) for x in a[1:]])))))
        p = ns['product'].fn

        def product(a, k):
            r = I.enum(k.get('repeat', 1))
            return p([PyList(x) for x in [I.iter_list(y) for y in a] * r], {})
        fn('product', product)

        def tee(a, k):
            xs = I.iter_list(a[0])
            return tuple(It(iter(list(xs))) for _ in range(a[1] if len(a) > 1 else 2))
        fn('tee', tee)

        def batched(a, k):
            xs = I.iter_list(a[0])
            n = I.enum(a[1])
            return It(iter([tuple(xs[i:i + n]) for i in range(0, len(xs), n)]))
        fn('batched', batched)
        acc = ns['accumulate'].fn

        def accumulate(a, k):
            a = list(a)
            if 'func' in k:
                a.append(k['func'])
            if k.get('initial') is not None:
                return acc([PyList([k['initial']] + I.iter_list(a[0]))] + a[1:], {})
            return acc(a, {})
        fn('accumulate', accumulate)
    elif name == 'operator':
        def itemgetter(a, k):
            if len(a) == 1:
                return Builtin('ig', lambda b, kk: I.getitem(b[0], a[0]))
            return Builtin('ig', lambda b, kk: tuple(I.getitem(b[0], x) for x in a))
        fn('itemgetter', itemgetter)

        def path(o, p):
            for q in p.split('.'):
                o = I.getattr(o, q)
            return o

        def attrgetter(a, k):
            if len(a) == 1:
                return Builtin('ag', lambda b, kk: path(b[0], a[0]))
            return Builtin('ag', lambda b, kk: tuple(path(b[0], x) for x in a))
        fn('attrgetter', attrgetter)
        fn('methodcaller', lambda a, k: Builtin('mc', lambda b, kk: I.call(I.getattr(b[0], a[0]), list(a[1:]), k)))
        fn('neg', lambda a, k: I.binop('Sub', 0, a[0]))
        fn('not_', lambda a, k: not I.truth(a[0]))
        fn('truth', lambda a, k: I.truth(a[0]))
        fn('getitem', lambda a, k: I.getitem(a[0], a[1]))
        fn('contains', lambda a, k: I.contains(a[0], a[1]))
        fn('concat', lambda a, k: I.binop('Add', a[0], a[1]))
        fn('is_', lambda a, k: I.compare('Is', a[0], a[1]))
        fn('is_not', lambda a, k: I.compare('IsNot', a[0], a[1]))
        for n, op in (('and_', 'BitAnd'), ('or_', 'BitOr'), ('xor', 'BitXor'), ('pow', 'Pow'), ('lshift', 'LShift'), ('rshift', 'RShift')):
            fn(n, (lambda op: lambda a, k: I.binop(op, a[0], a[1]))(op))
    elif name == 'functools':
        def cached_property(a, k):
            f = a[0]

            def get(b, kk):
                v = I.call(f, [b[0]], {})
                b[0].attrs[f.name] = v
                return v
            return Prop(Builtin('cached_property', get))
        fn('cached_property', cached_property)

        def total_ordering(a, k):
            c = a[0]
            have = [n for n in ('__lt__', '__le__', '__gt__', '__ge__') if c.lookup(n) is not MISSING]
            if have:
                r = have[0]

                def ask(x, y):
                    return I.truth(I.call(c.lookup(r), [x, y], {}))
                d = {'__lt__': lambda a: ask(*a), '__gt__': lambda a: not ask(*a) and not I.eq(a[0], a[1]), '__le__': lambda a: ask(*a) or I.eq(a[0], a[1]), '__ge__': lambda a: not ask(*a)}
                if r == '__le__':
                    d = {'__le__': lambda a: ask(*a), '__gt__': lambda a: not ask(*a), '__lt__': lambda a: ask(*a) and not I.eq(a[0], a[1]), '__ge__': lambda a: not ask(*a) or I.eq(a[0], a[1])}
                if r == '__gt__':
                    d = {'__gt__': lambda a: ask(*a), '__le__': lambda a: not ask(*a), '__lt__': lambda a: not ask(*a) and not I.eq(a[0], a[1]), '__ge__': lambda a: ask(*a) or I.eq(a[0], a[1])}
                if r == '__ge__':
                    d = {'__ge__': lambda a: ask(*a), '__lt__': lambda a: not ask(*a), '__gt__': lambda a: ask(*a) and not I.eq(a[0], a[1]), '__le__': lambda a: not ask(*a) or I.eq(a[0], a[1])}
                for n in d:
                    if n not in have:
                        c.ns[n] = Builtin('method:' + n, (lambda f: lambda b, kk: f(b))(d[n]))
            return c
        fn('total_ordering', total_ordering)
        fn('update_wrapper', lambda a, k: a[0])

        def partialmethod(a, k):
            f, pre = a[0], list(a[1:])
            b = Builtin('method:partialmethod', lambda b, kk: I.call(f, [b[0]] + pre + list(b[1:]), dict(k, **kk)))
            b.refs = [f]
            return b
        fn('partialmethod', partialmethod)
    elif name == 'collections':
        def namedtuple(a, k):
            names = a[1]
            names = names.replace(',', ' ').split() if names.__class__ is str else I.iter_list(names)
            d = {}
            if k.get('defaults') is not None:
                ds = I.iter_list(k['defaults'])
                d = dict(zip(names[len(names) - len(ds):], ds))
            return fields_class(I, Cls(a[0], {}, [], None), names, d)
        fn('namedtuple', namedtuple)

        def counter(a, k):
            d = PyDict({})
            d.tag = ('default', Builtin('int', lambda b, kk: 0))
            for x in (I.iterate(a[0]) if a else ()):
                q = I.skey(d.d, x)
                d.d[q] = I.binop('Add', d.d.get(q, 0), 1)
            return d
        fn('Counter', counter)

        def deque(a, k):
            if k.get('maxlen') is not None or len(a) > 1:
                raise Undetermined('bounded deque')
            return PyList(I.iter_list(a[0]) if a else [])
        fn('deque', deque)
        fn('ChainMap', lambda a, k: Top('ChainMap'))
    elif name == 'bisect':
        for n in ('bisect_left', 'bisect_right', 'bisect'):
            f0 = ns[n].fn

            def g(a, k, f0=f0):
                a = list(a)
                key = k.get('key')
                if key is not None:
                    a[0] = PyList([I.call(key, [x], {}) for x in I.iterate(a[0])])
                if 'lo' in k and len(a) == 2:
                    a.append(k['lo'])
                if k.get('hi') is not None:
                    a.append(k['hi'])
                return f0(a, {})
            fn(n, g)

        def insort(a, k):
            i = ns['bisect_right'].fn(list(a[:2]), k)
            x = a[1]
            I.mutated(a[0], 'insort')
            a[0].items.insert(i, x)
        fn('insort', insort)
        fn('insort_right', insort)
    elif name == 'math':
        fn('prod', lambda a, k: _prod(I, a, k))
        fn('isclose', lambda a, k: Top('math.isclose'))
        fn('hypot', lambda a, k: Top('math.hypot'))
        for n in ('isfinite', 'isinf'):
            fn(n, lambda a, k, n=n: (n == 'isfinite') if a[0].__class__ in (Lin, int, bool) else getattr(__import__('math'), n)(a[0]))
        ns['tau'] = 2 * ns['pi']
        ns['nan'] = float('nan')
        fn('fsum', lambda a, k: I.call(I.builtins['sum'], [a[0]], {}))
    elif name == 'threading':
        loc = Cls('local', {}, [], None)

        def attrs(o):
            return o.attrs['!by'].d.setdefault(I.thread, PyDict({})).d
        loc.ns['__init__'] = Builtin('method:init', lambda a, k: a[0].attrs.__setitem__('!by', PyDict({})))

        def get(a, k):
            d = attrs(a[0])
            if a[1] not in d:
                I.err(AttributeError, a[1])
            return d[a[1]]
        loc.ns['__getattr__'] = Builtin('method:getattr', get)
        loc.ns['__setattr__'] = Builtin('method:setattr', lambda a, k: attrs(a[0]).__setitem__(a[1], a[2]))
        ns['local'] = loc
        fn('get_ident', lambda a, k: 1000 + (I.thread or 0))
    elif name == 'calendar':
        fn('isleap', lambda a, k: _leap(I, a[0]))

        def monthrange(a, k):
            m = a[1]
            if not I.compare('GtE', m, 1) or not I.compare('LtE', m, 12):
                I.err(ValueError, 'bad month number')
            n = 29 if I.eq(m, 2) and _leap(I, a[0]) else I.getitem((0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31), m)
            return (Top('weekday of the first of a month'), n)
        fn('monthrange', monthrange)
        ns['mdays'] = PyList([0, 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31])
    elif name == 'contextlib':
        ns['contextmanager'] = context_manager(I)
        sup = Cls('suppress', {}, [], None)
        sup.ns['__init__'] = Builtin('method:init', lambda a, k: a[0].attrs.__setitem__('!t', tuple(a[1:])))
        sup.ns['__enter__'] = Builtin('method:enter', lambda a, k: None)
        sup.ns['__exit__'] = Builtin('method:exit', lambda a, k: a[2] is not None and I.match_exc(a[2], a[0].attrs['!t']))
        ns['suppress'] = sup
        nul = Cls('nullcontext', {}, [], None)
        nul.ns['__init__'] = Builtin('method:init', lambda a, k: a[0].attrs.__setitem__('!v', a[1] if len(a) > 1 else None))
        nul.ns['__enter__'] = Builtin('method:enter', lambda a, k: a[0].attrs['!v'])
        nul.ns['__exit__'] = Builtin('method:exit', lambda a, k: False)
        ns['nullcontext'] = nul
    elif name == 'enum':
        for n in ('Enum', 'IntEnum', 'Flag', 'IntFlag', 'StrEnum'):
            ns[n] = Cls(n, {'!enum': n}, [], None)
        fn('auto', lambda a, k: ('auto',))
        fn('unique', lambda a, k: a[0])
    elif name == 'dataclasses':
        ns['dataclass'] = Builtin('dataclass', dataclass(I))
        fc = Cls('!field', {}, [], None)
        fn('field', lambda a, k: Obj(fc, dict(k)))

        def replace(a, k):
            d = {n: a[0].attrs[n] for n in a[0].cls.lookup('!data')}
            d.update(k)
            return I.call(a[0].cls, [], d)
        fn('replace', replace)
        fn('astuple', lambda a, k: tuple(a[0].attrs[n] for n in a[0].cls.lookup('!data')))
        fn('asdict', lambda a, k: PyDict({n: a[0].attrs[n] for n in a[0].cls.lookup('!data')}))
    elif name == 'typing':
        for n in ('FrozenSet', 'Type', 'Mapping', 'MutableMapping', 'MutableSequence', 'Generator', 'Literal', 'Hashable', 'Collection', 'Container', 'Deque',
                  'DefaultDict', 'NoReturn', 'Text', 'Awaitable', 'SupportsInt', 'AnyStr', 'Self', 'Annotated', 'TypeAlias', 'Reversible', 'Never', 'Required', 'NotRequired'):
            ns[n] = BType(n, lambda a, k: None)
        fn('TypeVar', lambda a, k: BType('TypeVar', lambda b, kk: None))
        fn('NewType', lambda a, k: Builtin('NewType', lambda b, kk: b[0]))
        for n in ('overload', 'final', 'no_type_check', 'runtime_checkable', 'override'):
            fn(n, lambda a, k: a[0])
        ns['NamedTuple'] = Cls('NamedTuple', {'!namedtuple': True}, [], None)
        ns['Generic'] = Cls('Generic', {}, [], None)
        ns['Protocol'] = Cls('Protocol', {}, [], None)
        ns['TypedDict'] = Top('TypedDict')
    elif name == 'abc':
        ns['ABC'] = Cls('ABC', {'!abc': True}, [], None)
        fn('abstractmethod', lambda a, k: a[0])
        ns['ABCMeta'] = Top('ABCMeta')
    elif name == 're':
        regex(I, ns)
    elif name == 'string':
        import string
        for n in ('digits', 'ascii_letters', 'ascii_lowercase', 'ascii_uppercase', 'hexdigits', 'punctuation', 'whitespace'):
            ns[n] = getattr(string, n)
    elif name == 'warnings':
        for n in ('warn', 'simplefilter', 'filterwarnings'):
            fn(n, lambda a, k: None)
    elif name == 'logging':
        lg = Cls('Logger', {}, [], None)
        for n in ('debug', 'info', 'warning', 'error', 'exception', 'critical', 'log', 'addHandler', 'setLevel'):
            lg.ns[n] = Builtin('method:' + n, lambda a, k: None)
            fn(n, lambda a, k: None)
        fn('getLogger', lambda a, k: Obj(lg))
        fn('NullHandler', lambda a, k: None)
        for n, v in (('DEBUG', 10), ('INFO', 20), ('WARNING', 30), ('ERROR', 40)):
            ns[n] = v
    elif name in ('collections.abc',):
        for n in ('Iterable', 'Iterator', 'Sequence', 'Mapping', 'Callable', 'Generator', 'Hashable', 'Set', 'MutableMapping', 'Collection', 'Sized', 'Container'):
            ns[n] = BType(n, lambda a, k: None)
    elif name == 'types':
        fn('MappingProxyType', lambda a, k: a[0])
        sn = Cls('SimpleNamespace', {}, [], None)
        sn.ns['__init__'] = Builtin('method:init', lambda a, k: a[0].attrs.update(k))
        ns['SimpleNamespace'] = sn
    elif name == 'sys':
        ns['maxsize'] = 2 ** 63 - 1
        ns['version_info'] = (3, 12, 3, 'final', 0)
        fn('intern', lambda a, k: a[0])
    elif name == 'fractions' or name == 'decimal':
        pass


def _prod(I, a, k):
    r = k.get('start', 1)
    for x in I.iterate(a[0]):
        r = I.binop('Mult', r, x)
    return r


def _leap(I, y):
    if not I.eq(I.binop('Mod', y, 4), 0):
        return False
    if not I.eq(I.binop('Mod', y, 100), 0):
        return True
    return I.eq(I.binop('Mod', y, 400), 0)
