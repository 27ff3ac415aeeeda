# -*- coding: utf-8 -*-
"""abstract heap values and the structured-string domain"""
from .core import Lin, Undetermined


class Top(object):
    """any value; carries the reason precision was lost"""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return 'Top(%s)' % self.why


class PyList(object):
    __slots__ = ('items', 'static', 'tag')

    def __init__(self, items, static=False):
        self.items = items
        self.static = static
        self.tag = None

    def __repr__(self):
        return 'PyList(%r)' % (self.items,)


class PyDict(object):
    __slots__ = ('d', 'static', 'tag')

    def __init__(self, d, static=False):
        self.d = d
        self.static = static
        self.tag = None

    def __repr__(self):
        return 'PyDict(%r)' % (self.d,)


class PySet(object):
    __slots__ = ('s', 'static', 'tag', 'frozen')

    def __init__(self, s, static=False, frozen=False):
        self.s = s
        self.static = static
        self.tag = None
        self.frozen = frozen


class SymKey(object):
    """dictionary key or set element whose value is symbolic"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'SymKey(%r)' % (self.v,)


def unkey(k):
    return k.v if k.__class__ is SymKey else k


class Module(object):
    def __init__(self, name, ns, path=None):
        self.name = name
        self.ns = ns
        self.path = path

    def __repr__(self):
        return '<module %s>' % self.name


class Cls(object):
    def __init__(self, name, ns, bases, module):
        self.name = name
        self.ns = ns
        self.bases = bases
        self.module = module
        self.static = False
        m = [self]
        for b in bases:
            for c in (b.mro if isinstance(b, Cls) else [b]):
                if c not in m:
                    m.append(c)
        self.mro = m

    def lookup(self, name):
        for c in self.mro:
            if isinstance(c, Cls) and name in c.ns:
                return c.ns[name]
        return MISSING

    def __repr__(self):
        return '<class %s>' % self.name


class _Missing(object):
    def __repr__(self):
        return '<missing>'


MISSING = _Missing()


class Obj(object):
    __slots__ = ('cls', 'attrs', 'static', 'tag')

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = {} if attrs is None else attrs
        self.static = False
        self.tag = None

    def __repr__(self):
        return '<%s obj>' % self.cls.name


class Func(object):
    __slots__ = ('name', 'args', 'body', 'frame', 'module', 'defaults', 'kwdefaults', 'qual', 'isgen', 'line', 'localnames', 'cls', 'attrs')

    def __repr__(self):
        return '<func %s>' % self.qual


class Bound(object):
    __slots__ = ('fn', 'self')

    def __init__(self, fn, slf):
        self.fn = fn
        self.self = slf


class Static(object):
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class ClassM(object):
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class Prop(object):
    __slots__ = ('fget', 'fset')

    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset


class Builtin(object):
    __slots__ = ('name', 'fn', 'refs')

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class BType(object):
    """builtin type usable with isinstance and as a constructor"""
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return '<type %s>' % self.name


class ExcInst(object):
    __slots__ = ('cls', 'args')

    def __init__(self, cls, args=()):
        self.cls = cls
        self.args = args

    def __repr__(self):
        return '%s%r' % (self.cls.__name__, self.args)


class PyRaise(Exception):
    """the analysed program raises"""

    def __init__(self, exc, where=None):
        Exception.__init__(self)
        self.exc = exc
        self.where = where


class It(object):
    """iterator over a python iterator of abstract values"""
    __slots__ = ('it',)

    def __init__(self, it):
        self.it = it


class Rng(object):
    __slots__ = ('a', 'b', 's')

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class LockObj(object):
    __slots__ = ('held', 'kind', 'name', 'owner')

    def __init__(self, kind):
        self.held = 0
        self.owner = 0
        self.kind = kind
        self.name = kind


class SStr(object):
    """string = concatenation of constant pieces and fixed-width zero padded decimals.
    parts: str | (Lin, width); 0 <= Lin < 10**width holds in the store."""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return 'SStr(%r)' % (self.p,)
