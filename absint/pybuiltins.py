# -*- coding: utf-8 -*-
"""abstract semantics of the built-in functions, the methods of built-in types and the few standard
library modules.  What is not modelled answers Undetermined (no verdict), never a false exception."""
import math
import functools
from fractions import Fraction
from .core import Lin, Undetermined, BeyondBound, toq, lin_add, norm, ffloor
from .values import *
from . import strings as S


def _noarg(args, n, name, I, lo=None):
    lo = n if lo is None else lo
    if not (lo <= len(args) <= n):
        I.err(TypeError, '%s() takes %d arguments (%d given)' % (name, n, len(args)))


def to_int(I, a):
    c = a.__class__
    if c is Lin:
        return I.trunc(a)
    if c in (int, bool, float):
        try:
            return int(a)
        except (ValueError, OverflowError) as e:
            I.err(e.__class__, str(e))
    if c is str or c is SStr:
        return S.to_int(I, a)
    if c is Top:
        return a
    if c is Obj:
        for m in ('__int__', '__index__'):
            f = a.cls.lookup(m)
            if f is not MISSING:
                return I.call(f, [a], {})
    I.err(TypeError, "int() argument must be a string or a number, not '%s'" % I.tname(a))


def to_float(I, a):
    c = a.__class__
    if c is Lin:
        return Lin(a.c, dict(a.t), True)
    if c in (int, bool, float):
        return float(a)
    if c is str:
        try:
            return float(a)
        except ValueError:
            I.err(ValueError, 'could not convert string to float')
    if c is SStr:
        v = S.to_int(I, a)
        return to_float(I, v)
    if c is Top:
        return a
    I.err(TypeError, "float() argument must be a string or a number")


def isinst(I, v, t):
    if t.__class__ is tuple:
        return any(isinst(I, v, x) for x in t)
    if v.__class__ is Top:
        raise Undetermined('isinstance of unknown value')
    if t.__class__ is Cls:
        if v.__class__ is Obj:
            return t in v.cls.mro
        return False
    if t.__class__ is BType:
        n = t.name
        c = v.__class__
        if n == 'object':
            return True
        if n == 'int':
            return c in (int, bool) or (c is Lin and not v.f)
        if n == 'float':
            return c is float or (c is Lin and v.f)
        if n == 'str':
            return c in (str, SStr)
        if n == 'bool':
            return c is bool
        if n == 'list':
            return c is PyList
        if n == 'dict':
            return c is PyDict
        if n == 'tuple':
            return c is tuple or c is Obj and v.cls.lookup('!fields') is not MISSING and v.cls.lookup('!data') is MISSING
        if n == 'set':
            return c is PySet and not v.frozen
        if n == 'frozenset':
            return c is PySet and v.frozen
        if n == 'range':
            return c is Rng
        if n == 'type':
            return c in (Cls, BType, type)
        if n in ('Sequence', 'Iterable', 'Mapping', 'Callable', 'Hashable'):
            known = {'Sequence': (PyList, tuple, str, SStr, Rng), 'Iterable': (PyList, tuple, str, SStr, Rng, PyDict, PySet, It), 'Mapping': (PyDict,),
                     'Callable': (Func, Bound, Builtin, BType, Cls), 'Hashable': (int, bool, str, SStr, float, Lin)}[n]
            if c in known:
                return True
            if c in (int, bool, float, Lin, str, SStr, PyList, PyDict, PySet, tuple, type(None)) and not (n == 'Hashable'):
                return False
        raise Undetermined('isinstance %s' % n)
    if isinstance(t, type):
        if v.__class__ is ExcInst:
            return issubclass(v.cls, t)
        if v.__class__ is Obj:
            return any(isinstance(b, type) and issubclass(b, t) for b in v.cls.mro)
        return False
    raise Undetermined('isinstance with %r' % (t,))


def isint(v):
    return v.__class__ in (int, bool) or (v.__class__ is Lin and not v.f)


def lt(I, a, b):
    return I.compare('Lt', a, b)


def sort_items(I, items, key=None, reverse=False):
    keyed = [(I.call(key, [x], {}) if key is not None else x, x) for x in items]
    if not any(k.__class__ in (Lin, SStr, Obj) for k, _ in keyed):
        def cmpf(p, q):
            if lt(I, p[0], q[0]):
                return -1
            if lt(I, q[0], p[0]):
                return 1
            return 0
        return [x for _, x in sorted(keyed, key=functools.cmp_to_key(cmpf), reverse=reverse)]
    # insertion sort (stable); each comparison may split the partition
    out = []
    for k, x in keyed:
        i = len(out)
        while i > 0 and (lt(I, k, out[i - 1][0]) if not reverse else lt(I, out[i - 1][0], k)):
            i -= 1
        out.insert(i, (k, x))
    return [x for _, x in out]


def install(I):
    from .interp import NATIVE_EXC
    B = {}

    def bi(name):
        def deco(f):
            B[name] = Builtin(name, f)
            return f
        return deco

    def bt(name):
        def deco(f):
            B[name] = BType(name, f)
            return f
        return deco

    for n, e in NATIVE_EXC.items():
        B[n] = e

    @bt('object')
    def _object(args, kw):
        return Obj(objcls)
    objcls = Cls('object', {}, [], None)

    @bi('len')
    def _len(args, kw):
        _noarg(args, 1, 'len', I)
        return I.length(args[0])

    @bt('range')
    def _range(args, kw):
        for a in args:
            if a.__class__ is Top:
                raise Undetermined('range of unknown value: %s' % a.why)
            if not isint(a):
                I.err(TypeError, "'%s' object cannot be interpreted as an integer" % I.tname(a))
        args = [I.const_of(a) if a.__class__ is Lin and I.const_of(a) is not None else a for a in args]
        if len(args) == 1:
            return Rng(0, args[0], 1)
        if len(args) == 2:
            return Rng(args[0], args[1], 1)
        if len(args) == 3:
            return Rng(*args)
        I.err(TypeError, 'range expected 1 to 3 arguments')

    @bt('int')
    def _int(args, kw):
        if not args:
            return 0
        if len(args) > 1 or kw:
            base = args[1] if len(args) > 1 else kw['base']
            if args[0].__class__ not in (str, SStr):
                I.err(TypeError, "int() can't convert non-string with explicit base")
            return S.to_int(I, args[0], I.enum(base))
        return to_int(I, args[0])

    @bt('float')
    def _float(args, kw):
        return to_float(I, args[0]) if args else 0.0

    @bt('str')
    def _str(args, kw):
        return I.str_of(args[0]) if args else ''

    @bi('repr')
    def _repr(args, kw):
        return I.str_of(args[0], True)

    @bi('format')
    def _format(args, kw):
        return S.format_spec(I, args[0], args[1] if len(args) > 1 else '')

    @bt('bool')
    def _bool(args, kw):
        return I.truth(args[0]) if args else False

    @bt('list')
    def _list(args, kw):
        return PyList(I.iter_list(args[0]) if args else [])

    @bt('tuple')
    def _tuple(args, kw):
        return tuple(I.iter_list(args[0])) if args else ()

    @bt('set')
    def _set(args, kw):
        return I.mkset(I.iterate(args[0]) if args else ())

    @bt('frozenset')
    def _fset(args, kw):
        return I.mkset(I.iterate(args[0]) if args else (), True)

    @bt('dict')
    def _dict(args, kw):
        d = {}
        if args:
            if args[0].__class__ is PyDict:
                d.update(args[0].d)
            else:
                for p in I.iterate(args[0]):
                    k, v = I.iter_list(p)
                    d[I.skey(d, k)] = v
        d.update(kw)
        return PyDict(d)

    @bi('abs')
    def _abs(args, kw):
        a = args[0]
        if a.__class__ is Lin:
            return I.neg(a) if I.cmp(a, 0, '<') else a
        if a.__class__ is Top:
            return a
        if not I.isnum(a):
            I.err(TypeError, 'bad operand type for abs()')
        return abs(a)

    def minmax(name, op):
        @bi(name)
        def f(args, kw):
            xs = I.iter_list(args[0]) if len(args) == 1 else list(args)
            key = kw.get('key')
            if not xs:
                if 'default' in kw:
                    return kw['default']
                I.err(ValueError, '%s() arg is an empty sequence' % name)
            best = xs[0]
            bk = I.call(key, [best], {}) if key is not None else best
            for x in xs[1:]:
                k = I.call(key, [x], {}) if key is not None else x
                if I.compare(op, k, bk):
                    best, bk = x, k
            return best
    minmax('min', 'Lt')
    minmax('max', 'Gt')

    @bi('sum')
    def _sum(args, kw):
        t = args[1] if len(args) > 1 else kw.get('start', 0)
        for x in I.iterate(args[0]):
            t = I.binop('Add', t, x)
        return t

    @bi('any')
    def _any(args, kw):
        for x in I.iterate(args[0]):
            if I.truth(x):
                return True
        return False

    @bi('all')
    def _all(args, kw):
        for x in I.iterate(args[0]):
            if not I.truth(x):
                return False
        return True

    @bi('sorted')
    def _sorted(args, kw):
        return PyList(sort_items(I, I.iter_list(args[0]), kw.get('key'), I.truth(kw.get('reverse', False))))

    @bi('reversed')
    def _reversed(args, kw):
        return It(iter(list(reversed(I.iter_list(args[0])))))

    @bi('enumerate')
    def _enumerate(args, kw):
        s = args[1] if len(args) > 1 else kw.get('start', 0)

        def g():
            i = s
            for x in I.iterate(args[0]):
                yield (i, x)
                i = I.binop('Add', i, 1)
        return It(g())

    @bi('zip')
    def _zip(args, kw):
        return It(zip(*[I.iterate(a) for a in args]))

    @bi('map')
    def _map(args, kw):
        return It(I.call(args[0], list(t), {}) for t in zip(*[I.iterate(a) for a in args[1:]]))

    @bi('filter')
    def _filter(args, kw):
        f = args[0]
        return It(x for x in I.iterate(args[1]) if I.truth(x if f is None else I.call(f, [x], {})))

    @bi('iter')
    def _iter(args, kw):
        if args[0].__class__ is It:
            return args[0]
        return It(I.iterate(args[0]))

    @bi('next')
    def _next(args, kw):
        it = args[0]
        if it.__class__ is Obj and it.cls.lookup('__next__') is not MISSING:
            return I.call(it.cls.lookup('__next__'), [it], {})
        if it.__class__ is not It:
            I.err(TypeError, 'object is not an iterator')
        if not hasattr(it.it, '__next__'):
            it.it = iter(it.it)
        try:
            return next(it.it)
        except StopIteration:
            if len(args) > 1:
                return args[1]
            I.err(StopIteration, '')

    @bi('ord')
    def _ord(args, kw):
        a = args[0]
        if a.__class__ is SStr:
            if len(a.p) == 1 and a.p[0].__class__ is tuple and a.p[0][1] == 1:
                return I.add(a.p[0][0], 48)
            a = S.enum_str(I, a)
        if a.__class__ is not str or len(a) != 1:
            I.err(TypeError, 'ord() expected a character')
        return ord(a)

    @bi('chr')
    def _chr(args, kw):
        a = args[0]
        if a.__class__ is Lin:
            lo, hi = I.st.bounds(a)
            if 48 <= lo and hi <= 57:
                return S.mk(I, [(I.lin(I.sub(a, 48)), 1)])
            a = I.enum(a)
        try:
            return chr(a)
        except (ValueError, TypeError) as e:
            I.err(e.__class__, str(e))

    @bi('hex')
    def _hex(args, kw):
        a = I.enum(args[0], 400) if args[0].__class__ is Lin else args[0]
        if a.__class__ not in (int, bool):
            I.err(TypeError, 'hex')
        return hex(a)

    @bi('bin')
    def _bin(args, kw):
        return bin(I.enum(args[0], 400))

    @bi('round')
    def _round(args, kw):
        a = args[0]
        nd = args[1] if len(args) > 1 else kw.get('ndigits')
        if a.__class__ is Top:
            return a
        if not I.isnum(a):
            I.err(TypeError, 'round')
        if nd is None:
            return I.round(a)
        if a.__class__ is not Lin:
            return round(a, nd)
        raise Undetermined('round to digits')

    @bi('divmod')
    def _divmod(args, kw):
        return (I.binop('FloorDiv', args[0], args[1]), I.binop('Mod', args[0], args[1]))

    @bi('pow')
    def _pow(args, kw):
        if len(args) == 3:
            return pow(*[I.enum(a) for a in args])
        return I.binop('Pow', args[0], args[1])

    @bi('isinstance')
    def _isinstance(args, kw):
        return isinst(I, args[0], args[1])

    @bi('issubclass')
    def _issubclass(args, kw):
        a, b = args
        if a.__class__ is Cls:
            return b in a.mro
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(a, b)
        raise Undetermined('issubclass')

    @bt('type')
    def _type(args, kw):
        v = args[0]
        c = v.__class__
        if c is Obj:
            return v.cls
        m = {int: 'int', bool: 'bool', float: 'float', str: 'str', SStr: 'str', PyList: 'list', PyDict: 'dict', tuple: 'tuple', PySet: 'set'}.get(c)
        if c is Lin:
            m = 'float' if v.f else 'int'
        if m:
            return B[m]
        if c is ExcInst:
            return v.cls
        raise Undetermined('type of %r' % (v,))

    @bi('hasattr')
    def _hasattr(args, kw):
        try:
            I.getattr(args[0], args[1])
            return True
        except PyRaise as e:
            if e.exc.__class__ is ExcInst and e.exc.cls is AttributeError:
                return False
            raise

    @bi('getattr')
    def _getattr(args, kw):
        n = args[1]
        if n.__class__ is SStr:
            n = S.enum_str(I, n)
        try:
            return I.getattr(args[0], n)
        except PyRaise as e:
            if len(args) > 2 and e.exc.__class__ is ExcInst and e.exc.cls is AttributeError:
                return args[2]
            raise

    @bi('setattr')
    def _setattr(args, kw):
        I.setattr(args[0], args[1], args[2])

    @bi('callable')
    def _callable(args, kw):
        return args[0].__class__ in (Func, Bound, Builtin, BType, Cls, Static, ClassM)

    @bi('print')
    def _print(args, kw):
        I.events.append(('print', None, None, I.where()))

    @bt('staticmethod')
    def _static(args, kw):
        return Static(args[0])

    @bt('classmethod')
    def _classm(args, kw):
        return ClassM(args[0])

    @bt('property')
    def _prop(args, kw):
        return Prop(args[0] if args else None, args[1] if len(args) > 1 else None)

    @bi('id')
    def _id(args, kw):
        I.events.append(('id', None, None, I.where()))
        return Top('id()')

    @bi('hash')
    def _hash(args, kw):
        I.events.append(('hash', None, None, I.where()))
        return Top('hash()')

    B['NotImplemented'] = Top('NotImplemented')
    B['Ellipsis'] = Ellipsis
    return B


# ---------------------------------------------------------------------------- standard library
def native1(I, name, f):
    def g(args, kw):
        a = args[0]
        if a.__class__ is Lin:
            k = I.const_of(a)
            if k is None:
                return Top('math.%s' % name)
            a = k
        if a.__class__ is Top:
            return a
        if a.__class__ not in (int, float, bool):
            I.err(TypeError, 'must be real number, not %s' % I.tname(a))
        bs = []
        for b in args[1:]:
            b = I.const_of(b)
            if b is None or b.__class__ is Top:
                return Top('math.%s' % name)
            bs.append(b)
        try:
            return f(a, *bs)
        except (ValueError, OverflowError) as e:
            I.err(e.__class__, str(e))
    return Builtin('math.' + name, g)


def stdmodule(I, name):
    ns = {}
    if name == 'math':
        for n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sqrt', 'fabs', 'fmod', 'exp', 'log', 'pow', 'degrees', 'radians', 'gcd', 'isnan', 'modf', 'copysign'):
            ns[n] = native1(I, n, getattr(math, n))
        ns['pi'] = math.pi
        ns['e'] = math.e
        ns['inf'] = math.inf

        def rnd(f, g):
            def h(args, kw):
                a = args[0]
                if a.__class__ is Lin:
                    return g(a)
                if a.__class__ is Top:
                    return a
                if a.__class__ not in (int, float, bool):
                    I.err(TypeError, 'must be real number, not %s' % I.tname(a))
                try:
                    return f(a)
                except (ValueError, OverflowError) as e:
                    I.err(e.__class__, str(e))
            return h
        ns['floor'] = Builtin('math.floor', rnd(math.floor, I.floor))
        ns['ceil'] = Builtin('math.ceil', rnd(math.ceil, I.ceil))
        ns['trunc'] = Builtin('math.trunc', rnd(math.trunc, I.trunc))
    elif name == 'threading':
        def mklock(kind):
            def f(args, kw):
                return LockObj(kind)
            return f
        ns['Lock'] = Builtin('Lock', mklock('Lock'))
        ns['RLock'] = Builtin('RLock', mklock('RLock'))
    elif name == 'datetime':
        dt = Cls('datetime', {}, [], None)

        def now(args, kw):
            I.events.append(('clock', None, None, I.where()))
            o = Obj(dt)
            h = I.memo.get('now')
            if h is not None:
                o.attrs.update(h)
            else:
                for k, lo, hi in (('year', 1, 9999), ('month', 1, 12), ('day', 1, 31), ('hour', 0, 23), ('minute', 0, 59), ('second', 0, 59), ('microsecond', 0, 999999)):
                    o.attrs[k] = I.st.sym('now.' + k, lo, hi)
            return o
        dt.ns['now'] = Static(Builtin('datetime.now', now))
        dt.ns['today'] = dt.ns['now']
        ns['datetime'] = dt
    elif name == 'functools':
        def reduce_(args, kw):
            xs = I.iter_list(args[1])
            if len(args) > 2:
                acc = args[2]
            else:
                if not xs:
                    I.err(TypeError, 'reduce() of empty sequence')
                acc = xs.pop(0)
            for x in xs:
                acc = I.call(args[0], [acc, x], {})
            return acc
        ns['reduce'] = Builtin('reduce', reduce_)

        def cmp_to_key(args, kw):
            f = args[0]
            c = Cls('K', {}, [], None)

            def ltm(a, k):
                return I.compare('Lt', I.call(f, [a[0].attrs['v'], a[1].attrs['v']], {}), 0)
            c.ns['__lt__'] = Builtin('method:lt', ltm)

            def mkk(a, k):
                return Obj(c, {'v': a[0]})
            return Builtin('cmp_to_key', mkk)
        ns['cmp_to_key'] = Builtin('cmp_to_key', cmp_to_key)

        def partial(args, kw):
            f, pre = args[0], list(args[1:])

            def g(a, k):
                kk = dict(kw)
                kk.update(k)
                return I.call(f, pre + a, kk)
            return Builtin('partial', g)
        ns['partial'] = Builtin('partial', partial)
        ns['wraps'] = Builtin('wraps', lambda a, k: Builtin('wraps', lambda b, kk: b[0]))

        def cached(f):
            d = PyDict({})
            d.static = not I.loading
            kind = 'method:cached' if f.__class__ is Func else 'cached'

            def g(a, k):
                key = tuple(a) + tuple(sorted(k.items()))
                if I.symbolic(key):
                    # only a call with the very same symbolic arguments is known to be remembered
                    for q in d.d:
                        if q.__class__ is SymKey and I.same(q.v, key):
                            return d.d[q]
                    v = I.call(f, a, k)
                    I.symkeys = True
                    d.d[SymKey(key)] = v
                    return v
                key = I.key(key)
                if key in d.d:
                    return d.d[key]
                v = I.call(f, a, k)
                d.d[key] = v
                return v
            b = Builtin(kind, g)
            b.refs = [d, f]
            return b

        def lru(args, kw):
            if args and args[0].__class__ in (Func, Builtin):
                return cached(args[0])
            return Builtin('lru_cache', lambda a, k: cached(a[0]))
        ns['lru_cache'] = Builtin('lru_cache', lru)
        ns['cache'] = Builtin('cache', lru)
    elif name == 'itertools':
        def chain(args, kw):
            def g():
                for a in args:
                    for x in I.iterate(a):
                        yield x
            return It(g())
        ns['chain'] = Builtin('chain', chain)

        def count(args, kw):
            def g():
                x = args[0] if args else 0
                s = args[1] if len(args) > 1 else 1
                while True:
                    yield x
                    I.tick()
                    x = I.binop('Add', x, s)
            return It(g())
        ns['count'] = Builtin('count', count)

        def islice(args, kw):
            a = [I.enum(x) if x.__class__ is Lin else x for x in args[1:]]
            import itertools
            return It(itertools.islice(I.iterate(args[0]), *a))
        ns['islice'] = Builtin('islice', islice)

        def cycle(args, kw):
            xs = I.iter_list(args[0])

            def g():
                while xs:
                    for x in xs:
                        I.tick()
                        yield x
            return It(g())
        ns['cycle'] = Builtin('cycle', cycle)

        def accumulate(args, kw):
            def g():
                acc = None
                first = True
                for x in I.iterate(args[0]):
                    acc = x if first else (I.call(args[1], [acc, x], {}) if len(args) > 1 else I.binop('Add', acc, x))
                    first = False
                    yield acc
            return It(g())
        ns['accumulate'] = Builtin('accumulate', accumulate)

        def takewhile(args, kw):
            def g():
                for x in I.iterate(args[1]):
                    if not I.truth(I.call(args[0], [x], {})):
                        return
                    yield x
            return It(g())
        ns['takewhile'] = Builtin('takewhile', takewhile)

        def repeat(args, kw):
            n = I.enum(args[1]) if len(args) > 1 else None

            def g():
                i = 0
                while n is None or i < n:
                    I.tick()
                    yield args[0]
                    i += 1
            return It(g())
        ns['repeat'] = Builtin('repeat', repeat)

        def product(args, kw):
            import itertools
            return It(itertools.product(*[I.iter_list(a) for a in args]))
        ns['product'] = Builtin('product', product)
    elif name == 'collections':
        ns['OrderedDict'] = I.builtins['dict']

        def defaultdict(args, kw):
            d = PyDict({})
            if args and args[0] is not None:
                d.tag = ('default', args[0])
            return d
        ns['defaultdict'] = Builtin('defaultdict', defaultdict)
        ns['deque'] = I.builtins['list']

        def namedtuple(args, kw):
            names = args[1]
            names = names.replace(',', ' ').split() if names.__class__ is str else I.iter_list(names)
            c = Cls(args[0], {}, [], None)

            def init(a, k):
                o = a[0]
                for n, v in zip(names, a[1:]):
                    o.attrs[n] = v
                for n, v in k.items():
                    o.attrs[n] = v
            c.ns['__init__'] = Builtin('method:init', init)
            c.ns['__iter__'] = Builtin('method:iter', lambda a, k: tuple(a[0].attrs[n] for n in names))
            c.ns['__getitem__'] = Builtin('method:getitem', lambda a, k: I.getitem(tuple(a[0].attrs[n] for n in names), a[1]))
            c.ns['__len__'] = Builtin('method:len', lambda a, k: len(names))
            return c
        ns['namedtuple'] = Builtin('namedtuple', namedtuple)
    elif name == 'bisect':
        def bis(right):
            def f(args, kw):
                xs = I.iter_list(args[0])
                x = args[1]
                lo = I.enum(args[2]) if len(args) > 2 else 0
                hi = I.enum(args[3]) if len(args) > 3 else len(xs)
                while lo < hi:
                    mid = (lo + hi) // 2
                    if (lt(I, x, xs[mid]) if right else not lt(I, xs[mid], x)):
                        hi = mid
                    else:
                        lo = mid + 1
                return lo
            return f
        ns['bisect_right'] = ns['bisect'] = Builtin('bisect_right', bis(True))
        ns['bisect_left'] = Builtin('bisect_left', bis(False))
    elif name == 'operator':
        for n, op in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('mod', 'Mod'), ('floordiv', 'FloorDiv'), ('truediv', 'Div')):
            ns[n] = Builtin(n, (lambda op: lambda a, k: I.binop(op, a[0], a[1]))(op))
        for n, op in (('lt', 'Lt'), ('le', 'LtE'), ('gt', 'Gt'), ('ge', 'GtE'), ('eq', 'Eq'), ('ne', 'NotEq')):
            ns[n] = Builtin(n, (lambda op: lambda a, k: I.compare(op, a[0], a[1]))(op))
        ns['itemgetter'] = Builtin('itemgetter', lambda a, k: Builtin('ig', lambda b, kk: I.getitem(b[0], a[0])))
        ns['attrgetter'] = Builtin('attrgetter', lambda a, k: Builtin('ag', lambda b, kk: I.getattr(b[0], a[0])))
    elif name == 'copy':
        def copy_(args, kw):
            v = args[0]
            if v.__class__ is PyList:
                return PyList(list(v.items))
            if v.__class__ is PyDict:
                return PyDict(dict(v.d))
            if v.__class__ is PySet:
                return PySet(set(v.s))
            if v.__class__ is Obj:
                return Obj(v.cls, dict(v.attrs))
            return v

        def deep(v, seen):
            if id(v) in seen:
                return seen[id(v)]
            if v.__class__ is PyList:
                r = PyList([])
                seen[id(v)] = r
                r.items = [deep(x, seen) for x in v.items]
                return r
            if v.__class__ is PyDict:
                r = PyDict({})
                seen[id(v)] = r
                r.d = {k: deep(x, seen) for k, x in v.d.items()}
                return r
            if v.__class__ is tuple:
                return tuple(deep(x, seen) for x in v)
            if v.__class__ is PySet:
                return PySet(set(v.s))
            if v.__class__ is Obj:
                r = Obj(v.cls, {})
                seen[id(v)] = r
                r.attrs = {k: deep(x, seen) for k, x in v.attrs.items()}
                return r
            return v
        ns['copy'] = Builtin('copy', copy_)
        ns['deepcopy'] = Builtin('deepcopy', lambda a, k: deep(a[0], {}))
    elif name == 'typing':
        for n in ('List', 'Dict', 'Tuple', 'Optional', 'Any', 'Union', 'Set', 'Iterable', 'Iterator', 'Sequence', 'Callable', 'ClassVar', 'Final'):
            ns[n] = BType(n, lambda a, k: None)
        ns['cast'] = Builtin('cast', lambda a, k: a[1])
        ns['TYPE_CHECKING'] = False
    elif name == '__future__':
        for n in ('annotations', 'division', 'unicode_literals', 'print_function', 'absolute_import'):
            ns[n] = None
    from .stdlib2 import extend
    extend(I, name, ns)
    return Module(name, ns, None)


# ---------------------------------------------------------------------------- methods of built-in types
def method(I, o, a):
    c = o.__class__
    if a[:2] == '__' and c in (str, SStr, PyList, PyDict, PySet, tuple):
        if a == '__contains__':
            return Builtin(a, lambda ar, k: I.contains(o, ar[0]))
        if a == '__len__':
            return Builtin(a, lambda ar, k: I.length(o))
        if a == '__getitem__':
            return Builtin(a, lambda ar, k: I.getitem(o, ar[0]))
        if a == '__eq__':
            return Builtin(a, lambda ar, k: I.eq(o, ar[0]))
    if c is str or c is SStr:
        return str_method(I, o, a)
    if c is PyList:
        return list_method(I, o, a)
    if c is PyDict:
        return dict_method(I, o, a)
    if c is PySet:
        return set_method(I, o, a)
    if c is tuple:
        if a == 'index':
            return Builtin('index', lambda ar, k: _index(I, o, ar))
        if a == 'count':
            return Builtin('count', lambda ar, k: sum(1 for x in o if I.eq(x, ar[0])))
        if a in dir(()):
            raise Undetermined('tuple method %s' % a)
    elif c is LockObj:
        if a == 'acquire':
            def acq(ar, k):
                I.lock_acquire(o)
                return True
            return Builtin('acquire', acq)
        if a == 'release':
            return Builtin('release', lambda ar, k: I.lock_release(o))
        if a == 'locked':
            return Builtin('locked', lambda ar, k: o.held > 0)
        if a == '__enter__':
            return Builtin('enter', lambda ar, k: I.lock_acquire(o))
        if a == '__exit__':
            return Builtin('exit', lambda ar, k: I.lock_release(o))
    elif c in (int, bool, Lin, float):
        if a == 'is_integer':
            return Builtin('is_integer', lambda ar, k: I.eq(I.floor(o) if c in (Lin, float) else o, o))
        if a == 'real':
            return o
        if a in dir(0) or a in dir(0.0):
            raise Undetermined('number method %s' % a)
    elif c is BType:
        if a == '__name__':
            return o.name
        if o.name == 'dict' and a == 'fromkeys':
            def fromkeys(ar, k):
                d = {}
                for x in I.iterate(ar[0]):
                    d[I.skey(d, x)] = ar[1] if len(ar) > 1 else None
                return PyDict(d)
            return Builtin('fromkeys', fromkeys)
        if o.name == 'str' and a == 'join':
            return Builtin('str.join', lambda ar, k: I.call(str_method(I, ar[0], 'join'), ar[1:], {}))
        if o.name in ('object',) and a in ('__init__', '__new__', '__setattr__'):
            if a == '__init__':
                return Builtin('object.__init__', lambda ar, k: None)
            if a == '__new__':
                return Builtin('object.__new__', lambda ar, k: Obj(ar[0]))
            if a == '__setattr__':
                return Builtin('object.__setattr__', lambda ar, k: ar[0].attrs.__setitem__(ar[1], ar[2]))
        if o.name in ('str', 'list', 'dict', 'set', 'int'):
            return Builtin('%s.%s' % (o.name, a), lambda ar, k: I.call(method(I, ar[0], a), ar[1:], k))
        raise Undetermined('type attribute %s.%s' % (o.name, a))
    elif c is ExcInst:
        if a == 'args':
            return o.args
        raise Undetermined('exception attribute %s' % a)
    elif c is Func:
        if a == '__name__':
            return o.name
        if o.attrs and a in o.attrs:
            return o.attrs[a]
        if a in ('__doc__', '__dict__', '__module__', '__qualname__'):
            return Top(a)
        I.err(AttributeError, "'function' object has no attribute '%s'" % a)
    elif c is Prop:
        if a == 'setter':
            def setter(ar, k):
                return Prop(o.fget, ar[0])
            return Builtin('setter', setter)
    elif c is It:
        if a == '__next__':
            return Builtin('next', lambda ar, k: I.call(I.builtins['next'], [o], {}))
        raise Undetermined('iterator attribute')
    elif c is Rng or c is slice:
        if c is Rng and a in ('start', 'stop', 'step'):
            return {'start': o.a, 'stop': o.b, 'step': o.s}[a]
        if c is slice and a in ('start', 'stop', 'step'):
            return getattr(o, a)
    elif c is Bound:
        if a in ('__func__',):
            return o.fn
        if a == '__self__':
            return o.self
        return I.getattr(o.fn, a)
    elif c in (Builtin, Static, ClassM) or isinstance(o, type):
        if c is Builtin and o.name.endswith('cached'):
            if a == 'cache_clear':
                return Builtin('cache_clear', lambda ar, k: o.refs[0].d.clear())
            if a == '__wrapped__':
                return o.refs[1]
        if a == '__name__':
            return getattr(o, 'name', None) or o.__name__
        raise Undetermined('attribute %s of %r' % (a, o))
    if o is None or c in (int, float, bool, Lin, tuple, LockObj, Prop, Rng):
        I.err(AttributeError, "'%s' object has no attribute '%s'" % (I.tname(o), a))
    raise Undetermined('attribute %s of %r' % (a, o))


def _index(I, xs, ar):
    x = ar[0]
    start = I.enum(ar[1]) if len(ar) > 1 else 0
    for i in range(start, len(xs)):
        if I.eq(xs[i], x):
            return i
    I.err(ValueError, 'not in list')


def list_method(I, o, a):
    def b(f):
        return Builtin('list.' + a, f)
    if a == 'append':
        def f(ar, k):
            _noarg(ar, 1, 'append', I)
            I.mutated(o, 'append')
            o.items.append(ar[0])
        return b(f)
    if a == 'extend':
        def f(ar, k):
            I.mutated(o, 'extend')
            o.items.extend(I.iter_list(ar[0]))
        return b(f)
    if a == 'insert':
        def f(ar, k):
            I.mutated(o, 'insert')
            o.items.insert(I.enum(ar[0]), ar[1])
        return b(f)
    if a == 'pop':
        def f(ar, k):
            I.mutated(o, 'pop')
            try:
                return o.items.pop(*[I.enum(x) for x in ar])
            except IndexError:
                I.err(IndexError, 'pop')
        return b(f)
    if a == 'popleft':
        def f(ar, k):
            I.mutated(o, 'popleft')
            if not o.items:
                I.err(IndexError, 'pop')
            return o.items.pop(0)
        return b(f)
    if a == 'appendleft':
        def f(ar, k):
            I.mutated(o, 'appendleft')
            o.items.insert(0, ar[0])
        return b(f)
    if a == 'remove':
        def f(ar, k):
            I.mutated(o, 'remove')
            del o.items[_index(I, o.items, ar)]
        return b(f)
    if a == 'clear':
        def f(ar, k):
            I.mutated(o, 'clear')
            del o.items[:]
        return b(f)
    if a == 'reverse':
        def f(ar, k):
            I.mutated(o, 'reverse')
            o.items.reverse()
        return b(f)
    if a == 'sort':
        def f(ar, k):
            I.mutated(o, 'sort')
            o.items[:] = sort_items(I, list(o.items), k.get('key'), I.truth(k.get('reverse', False)))
        return b(f)
    if a == 'copy':
        return b(lambda ar, k: PyList(list(o.items)))
    if a == 'index':
        return b(lambda ar, k: _index(I, o.items, ar))
    if a == 'count':
        return b(lambda ar, k: sum(1 for x in o.items if I.eq(x, ar[0])))
    if a == '__len__':
        return b(lambda ar, k: len(o.items))
    if a == '__getitem__':
        return b(lambda ar, k: I.getitem(o, ar[0]))
    if a == '__contains__':
        return b(lambda ar, k: I.contains(o, ar[0]))
    if a in dir([]):
        raise Undetermined('list method %s' % a)
    I.err(AttributeError, "'list' object has no attribute '%s'" % a)


def dict_method(I, o, a):
    def b(f):
        return Builtin('dict.' + a, f)
    if a == 'get':
        def f(ar, k):
            d = ar[1] if len(ar) > 1 else k.get('default')
            kk = I.dkey(o.d, ar[0])
            return d if kk is MISSING else o.d[kk]
        return b(f)
    if a == 'keys':
        return b(lambda ar, k: PyList([unkey(x) for x in o.d]))
    if a == 'values':
        return b(lambda ar, k: PyList(list(o.d.values())))
    if a == 'items':
        return b(lambda ar, k: PyList([(unkey(x), y) for x, y in o.d.items()]))
    if a == 'copy':
        return b(lambda ar, k: PyDict(dict(o.d)))
    if a == 'update':
        def f(ar, k):
            I.mutated(o, 'update')
            for x in ar:
                if x.__class__ is PyDict:
                    o.d.update(x.d)
                else:
                    for p in I.iterate(x):
                        kk, v = I.iter_list(p)
                        o.d[I.skey(o.d, kk)] = v
            o.d.update(k)
        return b(f)
    if a == 'setdefault':
        def f(ar, k):
            kk = I.skey(o.d, ar[0])
            if kk not in o.d:
                I.mutated(o, 'setdefault')
                o.d[kk] = ar[1] if len(ar) > 1 else None
            return o.d[kk]
        return b(f)
    if a == 'pop':
        def f(ar, k):
            I.mutated(o, 'pop')
            kk = I.dkey(o.d, ar[0])
            if kk is not MISSING:
                return o.d.pop(kk)
            if len(ar) > 1:
                return ar[1]
            I.err(KeyError, ar[0])
        return b(f)
    if a == 'popitem':
        def f(ar, k):
            I.mutated(o, 'popitem')
            if not o.d:
                I.err(KeyError, 'popitem')
            last = k.get('last', True)
            kk = list(o.d)[-1 if last else 0]
            return (unkey(kk), o.d.pop(kk))
        return b(f)
    if a == 'move_to_end':
        def f(ar, k):
            I.mutated(o, 'move_to_end')
            kk = I.dkey(o.d, ar[0])
            if kk is MISSING:
                I.err(KeyError, ar[0])
            v = o.d.pop(kk)
            if k.get('last', True) is False:
                o.d = dict([(kk, v)] + list(o.d.items()))
            else:
                o.d[kk] = v
        return b(f)
    if a == 'clear':
        def f(ar, k):
            I.mutated(o, 'clear')
            o.d.clear()
        return b(f)
    if a == '__contains__':
        return b(lambda ar, k: I.contains(o, ar[0]))
    if a == '__getitem__':
        return b(lambda ar, k: I.getitem(o, ar[0]))
    if a in dir({}):
        raise Undetermined('dict method %s' % a)
    I.err(AttributeError, "'dict' object has no attribute '%s'" % a)


def set_method(I, o, a):
    def b(f):
        return Builtin('set.' + a, f)
    if a == 'add':
        def f(ar, k):
            I.mutated(o, 'add')
            o.s.add(I.skey(o.s, ar[0]))
        return b(f)
    if a in ('discard', 'remove'):
        def f(ar, k):
            I.mutated(o, a)
            kk = I.dkey(o.s, ar[0])
            if kk is MISSING:
                if a == 'remove':
                    I.err(KeyError, ar[0])
                return
            o.s.discard(kk)
        return b(f)
    if a == 'update':
        def f(ar, k):
            I.mutated(o, 'update')
            for x in ar:
                for y in I.iterate(x):
                    o.s.add(I.skey(o.s, y))
        return b(f)
    if a == 'clear':
        def f(ar, k):
            I.mutated(o, 'clear')
            o.s.clear()
        return b(f)
    if a == 'copy':
        return b(lambda ar, k: PySet(set(o.s)))
    if a in ('union', 'intersection', 'difference'):
        def f(ar, k):
            r = set(o.s)
            for x in ar:
                ys = set(I.key(y) for y in I.iterate(x))
                r = getattr(r, a)(ys)
            return PySet(r)
        return b(f)
    if a in ('issubset', 'issuperset', 'isdisjoint'):
        return b(lambda ar, k: getattr(o.s, a)(set(I.key(y) for y in I.iterate(ar[0]))))
    if a in dir(set()):
        raise Undetermined('set method %s' % a)
    I.err(AttributeError, "'set' object has no attribute '%s'" % a)


def str_method(I, o, a):
    def b(f):
        return Builtin('str.' + a, f)

    def need(x):
        if x.__class__ is Top:
            raise Undetermined('string operation on unknown value: %s' % x.why)
        if x.__class__ not in (str, SStr):
            I.err(TypeError, 'must be str, not %s' % I.tname(x))
        return x
    if a == 'join':
        def f(ar, k):
            out = []
            for i, x in enumerate(I.iterate(ar[0])):
                if x.__class__ is Top:
                    return x
                if x.__class__ not in (str, SStr):
                    I.err(TypeError, 'sequence item %d: expected str instance' % i)
                if i:
                    out.extend(S.parts(o))
                out.extend(S.parts(x))
            return S.mk(I, out)
        return b(f)
    if a == 'format':
        return b(lambda ar, k: S.str_format(I, o if o.__class__ is str else S.enum_str(I, o), ar, k))
    if a == 'find':
        def f(ar, k):
            need(ar[0])
            if len(ar) == 1:
                return S.find(I, o, ar[0])
            return S.enum_str(I, o).find(S.enum_str(I, ar[0]), *[I.enum(x) for x in ar[1:]])
        return b(f)
    if a == 'index':
        def f(ar, k):
            need(ar[0])
            r = S.find(I, o, ar[0]) if len(ar) == 1 else S.enum_str(I, o).find(S.enum_str(I, ar[0]), *[I.enum(x) for x in ar[1:]])
            if r.__class__ is int and r < 0:
                I.err(ValueError, 'substring not found')
            return r
        return b(f)
    if a == 'replace':
        def f(ar, k):
            need(ar[0])
            need(ar[1])
            return S.replace(I, o, ar[0], ar[1], *[I.enum(x) for x in ar[2:]])
        return b(f)
    if a == 'split':
        def f(ar, k):
            if not ar or ar[0] is None:
                return PyList(S.enum_str(I, o).split())
            return PyList(list(S.split(I, o, need(ar[0]), *[I.enum(x) for x in ar[1:]])))
        return b(f)
    if a == 'zfill':
        def f(ar, k):
            w = I.enum(ar[0])
            n = S.length(o)
            if n >= w:
                return o
            p0 = S.parts(o)[0]
            if p0.__class__ is str and p0[:1] in '+-':
                return S.mk(I, [p0[0], '0' * (w - n), p0[1:]] + S.parts(o)[1:])
            return S.mk(I, ['0' * (w - n)] + S.parts(o))
        return b(f)
    if a in ('rjust', 'ljust'):
        def f(ar, k):
            w = I.enum(ar[0])
            ch = ar[1] if len(ar) > 1 else ' '
            n = S.length(o)
            if n >= w:
                return o
            pad = ch * (w - n)
            return S.mk(I, [pad] + S.parts(o) if a == 'rjust' else S.parts(o) + [pad])
        return b(f)
    if a in ('startswith', 'endswith'):
        def f(ar, k):
            opts = ar[0] if ar[0].__class__ is tuple else (ar[0],)
            if len(ar) > 1:
                raise Undetermined('startswith offsets')
            for p in opts:
                need(p)
                n, m = S.length(o), S.length(p)
                if m > n:
                    continue
                seg = S.slice_(I, o, 0, m, None) if a == 'startswith' else S.slice_(I, o, n - m, n, None)
                if m == 0 or S.equal(I, seg, p):
                    return True
            return False
        return b(f)
    if a == 'encode':
        raise Undetermined('str.encode')
    if a == '__len__':
        return b(lambda ar, k: S.length(o))
    if a == '__contains__':
        return b(lambda ar, k: S.contains(I, o, need(ar[0])))
    if a in ('isdigit', 'isdecimal', 'isnumeric') and o.__class__ is SStr:
        return b(lambda ar, k: all(p.__class__ is tuple or p.isdigit() for p in o.p))
    if a in ('upper', 'lower', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'count', 'rfind', 'rindex', 'partition', 'rpartition', 'rsplit',
             'splitlines', 'isdigit', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower', 'isdecimal', 'isnumeric', 'swapcase', 'center'):
        def f(ar, k):
            s = S.enum_str(I, o)
            av = [S.enum_str(I, x) if x.__class__ is SStr else I.enum(x) if x.__class__ is Lin else x for x in ar]
            if any(x.__class__ not in (str, int, type(None)) for x in av):
                raise Undetermined('str.%s argument' % a)
            try:
                r = getattr(s, a)(*av)
            except ValueError as e:
                I.err(ValueError, str(e))
            if r.__class__ is list:
                return PyList(r)
            return r
        return b(f)
    if a in dir(''):
        raise Undetermined('str method %s' % a)
    I.err(AttributeError, "'str' object has no attribute '%s'" % a)
