# -*- coding: utf-8 -*-
"""constructs the engine must interpret as Python does: case_* are compared natively; sym_* also with a symbolic argument"""
import bisect
import calendar
import collections
import contextlib
import enum
import functools
import itertools
import math
import operator
import re
from collections import namedtuple, OrderedDict, Counter, defaultdict
from dataclasses import dataclass, field
from functools import lru_cache, partial, reduce
from typing import NamedTuple, Optional, List


class Color(enum.Enum):
    RED = 1
    BLUE = 2
    NAVY = 2

    @property
    def low(self):
        return self.name.lower()


class P(NamedTuple):
    x: int
    y: int = 5

    def total(self):
        return self.x + self.y


N = namedtuple('N', 'a b c')


@dataclass
class D:
    a: int
    b: List[int] = field(default_factory=list)
    c: str = 'z'

    def __post_init__(self):
        self.d = self.a * 2


@dataclass(frozen=True, order=True)
class F:
    a: int
    b: int = 3


class Meta:
    registry = {}

    def __init_subclass__(cls, **kw):
        Meta.registry[cls.__name__] = cls


class Sub(Meta):
    pass


class Desc:
    def __set_name__(self, owner, name):
        self.name = name

    def __get__(self, o, t=None):
        return (self.name, o is None)


class UsesDesc:
    one = Desc()

    @functools.cached_property
    def heavy(self):
        self.n = getattr(self, 'n', 0) + 1
        return self.n


def case_match():
    out = []
    for v in (0, 1, 2, 7, 'a', 'bc', (1, 2), [1, 2, 3], {'k': 4, 'z': 5}, None, P(3, 4), True, 2.5):
        match v:
            case 0 | 7:
                out.append('zero or seven')
            case True:
                out.append('true')
            case int(n) if n > 1:
                out.append('int %d' % n)
            case int():
                out.append('int')
            case 'a' | 'b':
                out.append('a/b')
            case str() as s:
                out.append('str ' + s)
            case P(x, y=w):
                out.append('P %d %d' % (x, w))
            case (a, b):
                out.append('pair %s' % (a + b))
            case [a, *rest]:
                out.append('list %d %d' % (a, len(rest)))
            case {'k': q, **kw}:
                out.append('map %d %s' % (q, sorted(kw)))
            case None:
                out.append('none')
            case _:
                out.append('other')
    return out


def case_enum():
    return [Color.RED.name, Color.NAVY.name, Color(2).value, Color['RED'].low, [c.name for c in Color], Color.RED == Color.BLUE, Color.BLUE is Color.NAVY, len({Color.RED: 1, Color.NAVY: 2, Color.BLUE: 3})]


def case_tuples():
    a, b = P(1), N(1, 2, 3)
    x, y = a
    return [x, y, a.total(), a == (1, 5), b[1], b[-1], list(b), b._replace(a=9).a, a < P(1, 6), {a: 7}[(1, 5)], sorted([P(3, 1), P(2, 9)])[0].x, len(b), b + (4,), 3 in b, isinstance(b, tuple), N._make([4, 5, 6]).c, max(P(1, 2), P(1, 3)).y]


def case_dataclass():
    d, e = D(4), D(4)
    d.b.append(1)
    return [d.d, d.c, e.b, d == e, D(1, [2], 'q') == D(1, [2], 'q'), F(1) < F(1, 4), {F(1, 2): 'v'}[F(1, 2)], sorted([F(2), F(1)])[0].a]


def case_itertools():
    return [list(itertools.chain([1], (2, 3))), list(itertools.chain.from_iterable([[1], [2, 3]])), list(itertools.pairwise([1, 2, 3])), list(itertools.zip_longest([1], [2, 3], fillvalue=0)),
            [(k, list(g)) for k, g in itertools.groupby('aabc')], list(itertools.combinations([1, 2, 3], 2)), list(itertools.accumulate([1, 2, 3])), list(itertools.accumulate([1, 2, 3], operator.mul, initial=2)),
            list(itertools.takewhile(lambda v: v < 3, itertools.count(1))), list(itertools.dropwhile(lambda v: v < 3, [1, 3, 2])), list(itertools.islice(itertools.cycle('ab'), 5)),
            list(itertools.product('ab', repeat=2)), list(itertools.starmap(pow, [(2, 3)])), list(itertools.filterfalse(None, [0, 1])), list(itertools.islice(range(10), 2, 8, 3)), list(itertools.repeat(3, 2)), list(itertools.compress('abc', [1, 0, 1]))]


def case_operator():
    return [operator.itemgetter(1, 0)('ab'), operator.attrgetter('x')(P(8)), operator.methodcaller('upper')('a'), reduce(operator.or_, [1, 2, 4]), operator.contains([1], 1)]


@lru_cache(maxsize=None)
def fib(n):
    return n if n < 2 else fib(n - 1) + fib(n - 2)


def case_functools():
    u = UsesDesc()
    return [fib(30), fib.__wrapped__(3), partial(pow, 2)(5), u.heavy, u.heavy, u.one, UsesDesc.one, list(Meta.registry), functools.cmp_to_key(lambda a, b: b - a) is not None, sorted([3, 1, 2], key=functools.cmp_to_key(lambda a, b: b - a))]


@contextlib.contextmanager
def managed(log):
    log.append('in')
    try:
        yield 'v'
    except ValueError:
        log.append('caught')
    finally:
        log.append('out')


def case_context():
    log = []
    with managed(log) as v:
        log.append(v)
    with managed(log):
        raise ValueError('x')
    try:
        with managed(log):
            raise KeyError('x')
    except KeyError:
        log.append('through')
    with contextlib.suppress(KeyError, IndexError):
        [][1]
    with managed(log):
        for i in range(3):
            if i == 1:
                break
    return log


def naturals():
    n = 0
    while True:
        yield n
        n += 1


def firsts():
    for n in naturals():
        if n * n > 50:
            return n


def interleaved(log):
    while True:
        log.append('a')
        yield 1
        log.append('b')
        yield 2


def case_generators():
    log = []
    g = interleaved(log)
    log.append('start')
    next(g)
    log.append('mid')
    next(g)
    out = []
    for i, n in zip(range(3), naturals()):
        out.append(i * n)
    return [firsts(), log, out, sum(x for x in itertools.islice(naturals(), 5))]


def case_re():
    m = re.match(r'(\d{4})-(\d\d)', '2020-05-06')
    return [m.group(1), m.groups(), re.sub(r'\d', 'x', 'a1b2'), re.findall(r'\d+', '1 22'), [q.start() for q in re.finditer('a', 'banana')], re.compile('(?P<y>b+)').search('abbc').group('y'), re.fullmatch('a', 'ab') is None, re.split(',', 'a,b'), re.sub('a', lambda q: q.group().upper(), 'banana')]


def case_calendar():
    return [calendar.isleap(1900), calendar.monthrange(2024, 2)[1], bisect.bisect([1, 2, 2, 3], 2), bisect.bisect_left([1, 2, 2, 3], 2), bisect.bisect_left([(1, 'a'), (3, 'b')], 2, key=lambda t: t[0]), math.prod([2, 3, 4])]


def case_collections():
    c = Counter('aab')
    d = defaultdict(list)
    d['x'].append(1)
    o = OrderedDict()
    o['b'] = 1
    o['a'] = 2
    o.move_to_end('b')
    q = collections.deque([1, 2])
    q.appendleft(0)
    return [c['a'], c['z'], d['x'], list(o), list(q), o.popitem(last=False)]


def memo(f):
    seen = {}

    def w(*a):
        if a not in seen:
            seen[a] = f(*a)
        return seen[a]
    w.seen = seen
    return w


@memo
def triple(x):
    return [x] * 3


def case_memo():
    return [triple(2) is triple(2), triple(3), len(triple.seen)]


class It3:
    def __init__(self):
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        self.i += 1
        if self.i > 3:
            raise StopIteration
        return self.i


def case_misc():
    a, *b = It3()
    x = y = [1]
    x += [2]
    lst = [1, 2, 3, 4]
    del lst[1:3]
    d = {**{'a': 1}, 'b': 2}
    s = {1, 2} | {3}
    t = 'abc'
    f = f'{3:02d}|{t!r}|{2.5}|{t:>5}|{-3:03d}|{7:+d}|{1234:,}'
    try:
        raise KeyError('k')
    except (ValueError, KeyError) as e:
        g = e.args[0]
    else:
        g = None
    finally:
        lst.append('fin')
    n = 0
    while n < 5:
        n += 1
        if n == 3:
            continue
        if n == 5:
            break
    else:
        n = 100
    w = [z for z in range(3) for _ in range(z) if z]
    q = (k := 5) + k
    return [a, b, y, lst, d, sorted(s), f, g, n, w, q, *range(2), -7 // 2, -7 % 3, 7 & 3, 1 << 4, ~5, divmod(-7, 2), round(2.5), round(3.5), int('-12'), '%s-%03d-%5.2f' % ('a', 7, 2.345), 'x'.join(map(str, [1, 2])), 'a,b'.partition(','), [*zip('ab', [1, 2])], sorted('bca', reverse=True), any([]), all([]), min([3, 1], key=lambda v: -v), list(reversed([1, 2])), list(enumerate('ab', 1)), 'abcabc'.find('c', 3), 'ab' * 2, [1, 2][::-1], 'hello'[-3:], (1, 2) + (3,), [[0] * 2 for _ in range(2)], 'A'.lower(), ' a '.strip(), 'abc'.startswith(('x', 'a')), chr(ord('a') + 1), bin(5), hex(255), isinstance(True, int), sum([1, 2], 10), dict(a=1), dict([(1, 2)]), list('ab'), tuple([1]), '{:>3}|{0}'.format(1) if False else '{}|{a}'.format(1, a=2)]


@lru_cache(maxsize=None)
def squared(n):
    return n * n


CACHE = {}


def cached_half(n):
    if n in CACHE:
        return CACHE[n]
    CACHE[n] = n // 2
    return CACHE[n]


def sym_cache(n):
    CACHE.clear()
    cached_half(5)
    return cached_half(n) + cached_half(n) + cached_half(n + 1)


def sym_cache_tuple(n):
    c = {(3, 'a'): 7}
    k = (n, 'a')
    c[k] = c.get(k, 0) + 1
    return [c[(3, 'a')], len(c), c.get((4, 'a'))]


def sym_lru(n):
    return [len(str(n)), squared(n) if n < 3 else 0]


def sym_set(n):
    s = {3, 9}
    s.add(n)
    s.discard(9)
    return [len(s), 3 in s, n in s, 9 in s]


def sym_str_key(n):
    c = {}
    k = '%04d' % n
    c[k] = n
    return [c.get('0007', -1), k in c, ('%04d' % (n + 1)) in c]


def sym_match(n):
    match n % 12:
        case 0 | 4 | 8:
            r = 'x'
        case k if k > 9:
            r = 'y'
        case _:
            r = 'z'
    return r


def sym_arith(n):
    return [n // 7, n % 7, -n // 3, (n * 3 + 1) % 5, abs(n - 20), int(n / 4), math.floor(n * 0.25), math.ceil(n / 8), divmod(n, 9)[1], min(n, 30), max(n, 10), n > 5 and n < 8, round(n / 4)]


def sym_text(n):
    return ['%03d' % n, str(n), f'{n:02d}', str(n).zfill(4), int(str(n)[::-1]) if n % 10 else 0, '7' in str(n), sum(int(ch) for ch in str(n)), str(n)[0], len(str(n))]


def sym_loop(n):
    m = n % 40
    out = 0
    while m > 3:
        m -= 3
        out += 1
    return [m, out, sum(i for i in range(n % 13)), bisect.bisect([3, 9, 27], n)]


def sym_next(n):
    return next((i for i, b in enumerate((5, 10, 20, 40)) if n < b), None)


def sym_sorted(n):
    return sorted([n, 17, 30 - n])
