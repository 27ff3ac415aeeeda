# -*- coding: utf-8 -*-
"""Numeric abstract domain and trace partitioning.

An abstract number is an affine form over integer symbols.  The abstract store of one trace
partition keeps, for every symbol, an interval; for every affine direction that a branch
constrained, an interval of that direction; equalities are eliminated by substitution (so the
equality part is an affine-equality (Karr) domain) and quotient/remainder pairs are introduced
by substituting x := m*q + r (so the store is also a congruence domain).  A branch whose
outcome the store does not decide splits the partition.  There is no solver and no execution:
every decision is interval arithmetic on the store."""
from fractions import Fraction
from math import gcd

BIG = 10 ** 12
HALF = Fraction(1, 2)


class Infeasible(Exception):
    """the partition is empty"""


class Undetermined(Exception):
    """the analysis has no verdict for this partition (unsupported construct)"""


class BeyondBound(Exception):
    """the partition is outside the unrolling bound of the check"""


def norm(q):
    if q.__class__ is Fraction and q.denominator == 1:
        return q.numerator
    return q


def toq(x):
    """exact rational of a python number"""
    if x.__class__ is float:
        return norm(Fraction(x))
    if x.__class__ is bool:
        return int(x)
    return x


def ffloor(q):
    if q.__class__ is int:
        return q
    return q.numerator // q.denominator


class Lin(object):
    """affine form; f: value is a python float (only matters for typing/formatting)"""
    __slots__ = ('c', 't', 'f')

    def __init__(self, c, t, f=False):
        self.c = c
        self.t = t
        self.f = f

    def __repr__(self):
        return 'Lin(%s%s)' % (self.c, ''.join(' %+s*s%d' % (v, k) for k, v in sorted(self.t.items())))


def lin_add(a, b, kb=1):
    t = dict(a.t)
    for k, v in b.t.items():
        n = t.get(k, 0) + v * kb
        if n == 0:
            t.pop(k, None)
        else:
            t[k] = norm(n)
    return Lin(norm(a.c + b.c * kb), t, a.f or b.f)


def lin_scale(a, k):
    if k == 0:
        return Lin(0, {}, a.f)
    return Lin(norm(a.c * k), {s: norm(v * k) for s, v in a.t.items()}, a.f)


class Store(object):
    def __init__(self):
        self.names = []
        self.lo = []
        self.hi = []
        self.sub = {}
        self.forms = {}          # canonical direction -> [lo, hi]
        self.derived = {}        # sym -> (fn, deps) : value is a function of other Lins (witness only)
        self.inputs = []         # (name, value) reported in witnesses
        self.holes = []          # callbacks run in propagate
        self.bc = {}             # bounds of forms, valid until the store changes

    def copy(self):
        s = Store.__new__(Store)
        s.names = self.names
        s.lo = list(self.lo)
        s.hi = list(self.hi)
        s.sub = dict(self.sub)
        s.forms = {k: list(v) for k, v in self.forms.items()}
        s.derived = self.derived
        s.inputs = self.inputs
        s.holes = self.holes
        s.bc = {}
        return s

    def restore(self, s):
        self.lo, self.hi, self.sub, self.forms = s.lo, s.hi, s.sub, s.forms
        self.bc = {}

    def new(self, name, lo, hi):
        i = len(self.lo)
        if len(self.names) > i:
            self.names = self.names[:i]
        self.names.append(name)
        self.lo.append(lo)
        self.hi.append(hi)
        return i

    def sym(self, name, lo, hi):
        return Lin(0, {self.new(name, lo, hi): 1})

    # ---------------------------------------------------------------- normal form
    def nf(self, a):
        sub = self.sub
        if not sub:
            return a
        t = a.t
        for k in t:
            if k in sub:
                break
        else:
            return a
        c = a.c
        out = {}
        for k, v in t.items():
            s = sub.get(k)
            if s is None:
                n = out.get(k, 0) + v
                if n == 0:
                    out.pop(k, None)
                else:
                    out[k] = n
            else:
                for kk in s.t:
                    if kk in sub:
                        s = sub[k] = self.nf(s)
                        break
                c = c + s.c * v
                for kk, vv in s.t.items():
                    n = out.get(kk, 0) + vv * v
                    if n == 0:
                        out.pop(kk, None)
                    else:
                        out[kk] = n
        return Lin(norm(c), {k: norm(v) for k, v in out.items()}, a.f)

    def const(self, a):
        """constant value of a Lin, or None"""
        a = self.nf(a)
        if not a.t:
            return a.c
        return None

    @staticmethod
    def _key(t):
        """canonical direction: integer primitive coefficients, first positive; returns key, scale (t = scale*key)"""
        items = sorted(t.items())
        d = 1
        for _, v in items:
            if v.__class__ is Fraction:
                d = d * v.denominator // gcd(d, v.denominator)
        g = 0
        ints = []
        for k, v in items:
            iv = int(v * d)
            ints.append((k, iv))
            g = gcd(g, iv)
        if ints[0][1] < 0:
            g = -g
        return tuple((k, iv // g) for k, iv in ints), norm(Fraction(g, d))

    def _ival(self, items):
        lo = hi = 0
        slo, shi = self.lo, self.hi
        for k, v in items:
            if v > 0:
                lo += v * slo[k]
                hi += v * shi[k]
            else:
                lo += v * shi[k]
                hi += v * slo[k]
        return lo, hi

    def bounds(self, a):
        a = self.nf(a)
        t = a.t
        if not t:
            return a.c, a.c
        if len(t) > 1 and self.forms:
            ck = (a.c, tuple(sorted(t.items())))
            r = self.bc.get(ck)
            if r is None:
                r = self.bc[ck] = self._bounds(a, t)
        else:
            r = self._bounds(a, t)
        if r[0] > r[1]:
            raise Infeasible()
        return r

    def _bounds(self, a, t):
        lo, hi = self._ival(t.items())
        if len(t) > 1 and self.forms:
            key, sc = self._key(t)
            f = self.forms.get(key)
            if f is not None:
                l2, h2 = (f[0] * sc, f[1] * sc) if sc > 0 else (f[1] * sc, f[0] * sc)
                lo = max(lo, l2)
                hi = min(hi, h2)
            for fk, fv in self.forms.items():
                if fk is key:
                    continue
                k0 = None
                for k, v in fk:
                    if k in t:
                        k0 = (k, v)
                        break
                if k0 is None:
                    continue
                for k0 in fk:
                    if k0[0] not in t:
                        continue
                    r = t[k0[0]]
                    if k0[1] == 1:
                        pass
                    elif k0[1] == -1:
                        r = -r
                    else:
                        r = norm(Fraction(r) / k0[1])
                    rest = dict(t)
                    for k, v in fk:
                        n = rest.get(k, 0) - r * v
                        if n == 0:
                            rest.pop(k, None)
                        else:
                            rest[k] = n
                    if len(rest) > len(t):
                        continue
                    rl, rh = self._ival(rest.items())
                    if r > 0:
                        rl += r * fv[0]
                        rh += r * fv[1]
                    else:
                        rl += r * fv[1]
                        rh += r * fv[0]
                    if rl > lo:
                        lo = rl
                    if rh < hi:
                        hi = rh
        lo, hi = norm(lo + a.c), norm(hi + a.c)
        if lo.__class__ is Fraction or hi.__class__ is Fraction:
            if a.c.__class__ is int and all(v.__class__ is int for v in t.values()):
                lo, hi = -ffloor(-lo), ffloor(hi)
        return lo, hi

    # ---------------------------------------------------------------- assumptions
    def _set(self, k, lo, hi):
        ch = False
        if lo > self.lo[k]:
            self.lo[k] = lo
            ch = True
        if hi < self.hi[k]:
            self.hi[k] = hi
            ch = True
        if ch:
            self.bc = {}
        if self.lo[k] > self.hi[k]:
            raise Infeasible()
        return ch

    def assume_range(self, a, lo, hi):
        """lo <= a <= hi"""
        a = self.nf(a)
        t = a.t
        if not t:
            if not (lo <= a.c <= hi):
                raise Infeasible()
            return
        key, sc = self._key(t)
        # a = sc*key + c
        if sc > 0:
            l = -ffloor(-norm((lo - a.c) / Fraction(sc)))
            h = ffloor(norm((hi - a.c) / Fraction(sc)))
        else:
            l = -ffloor(-norm((hi - a.c) / Fraction(sc)))
            h = ffloor(norm((lo - a.c) / Fraction(sc)))
        if len(key) == 1:
            self._set(key[0][0], l, h)
        else:
            self.bc = {}
            f = self.forms.get(key)
            if f is None:
                self.forms[key] = [l, h]
            else:
                if l > f[0]:
                    f[0] = l
                if h < f[1]:
                    f[1] = h
                if f[0] > f[1]:
                    raise Infeasible()
        self.propagate()

    def propagate(self):
        for _ in range(6):
            ch = False
            for key, (fl, fh) in list(self.forms.items()):
                lo, hi = self._ival(key)
                if lo > fh or hi < fl:
                    raise Infeasible()
                for k, v in key:
                    sl, sh = self.lo[k], self.hi[k]
                    if v > 0:
                        rl, rh = lo - v * sl, hi - v * sh
                    else:
                        rl, rh = lo - v * sh, hi - v * sl
                    # rest in [rl, rh]; v*x in [fl-rh, fh-rl]
                    a = fl - rh
                    b = fh - rl
                    if v > 0:
                        nl = -((-a) // v)
                        nh = b // v
                    else:
                        nl = -(b // -v)
                        nh = (-a) // -v
                    if self._set(k, nl, nh):
                        ch = True
                        lo, hi = self._ival(key)
            for h in self.holes:
                if h(self):
                    ch = True
            if not ch:
                break

    def assume_eq0(self, a):
        a = self.nf(a)
        t = a.t
        if not t:
            if a.c != 0:
                raise Infeasible()
            return
        if len(t) == 1:
            (k, v), = t.items()
            q = norm(Fraction(-a.c) / v)
            if q.__class__ is not int:
                raise Infeasible()
            if not (self.lo[k] <= q <= self.hi[k]):
                raise Infeasible()
            self._subst(k, Lin(q, {}))
            return
        key, sc = self._key(t)
        rhs = norm(Fraction(-a.c) / sc)     # key == rhs
        if rhs.__class__ is not int:
            raise Infeasible()
        # a unit coefficient can be eliminated
        best = None
        for k, v in key:
            if v in (1, -1):
                w = self.hi[k] - self.lo[k]
                if k in self.derived:
                    w = -1
                if best is None or w > best[0]:
                    best = (w, k, v)
        if best is None:
            self.assume_range(a, 0, 0)
            return
        _, k, v = best
        # v*x = rhs - rest
        rest = {kk: -vv * v for kk, vv in key if kk != k}
        e = Lin(rhs * v, rest)
        lo, hi = self.lo[k], self.hi[k]
        self._subst(k, e)
        self.assume_range(e, lo, hi)

    def _subst(self, k, e):
        self.bc = {}
        self.sub[k] = e
        # rewrite stored directions
        if self.forms:
            old = [(key, v) for key, v in self.forms.items() if any(s == k for s, _ in key)]
            for key, v in old:
                del self.forms[key]
            for key, (l, h) in old:
                self.assume_range(Lin(0, dict(key)), l, h)
        if not e.t:
            self._set(k, e.c, e.c)
            self.propagate()

    def decompose(self, k, m):
        """x := m*q + r ; returns (q, r) symbols"""
        lo, hi = self.lo[k], self.hi[k]
        n = self.names[k]
        q = self.new('%s//%d' % (n, m), lo // m, hi // m)
        r = self.new('%s%%%d' % (n, m), 0, m - 1)
        if lo // m == hi // m:
            self.lo[r], self.hi[r] = lo % m, hi % m
        e = Lin(0, {q: m, r: 1})
        if k in self.derived:
            fn, deps = self.derived[k]
            self.derived[q] = (lambda *a: fn(*a) // m, deps)
            self.derived[r] = (lambda *a: fn(*a) % m, deps)
        self._subst(k, e)
        self.assume_range(e, lo, hi)
        return q, r

    # ---------------------------------------------------------------- witnesses
    def value(self, a, asg):
        a = self.nf(a)
        v = a.c
        for k, c in a.t.items():
            v += c * asg[k]
        return norm(v)

    def find_model(self, budget=4000):
        """a concrete member of the partition (dict sym->int), or None.  Derived symbols are recomputed
        from their definition, so a member is genuinely feasible."""
        import random
        rnd = random.Random(1)
        base = [k for k in range(len(self.lo)) if k not in self.sub and k not in self.derived]
        live = set()
        for key in self.forms:
            live.update(k for k, _ in key)
        for _, v in self.inputs:
            if isinstance(v, Lin):
                live.update(self.nf(v).t)
        for k, (fn, deps) in self.derived.items():
            for d in deps:
                live.update(self.nf(d).t)
        left = [budget]

        def check(asg):
            full = dict(asg)
            pend = [k for k in self.derived if k not in self.sub]
            alld = sorted(self.derived)
            for k in alld:
                fn, deps = self.derived[k]
                try:
                    val = fn(*[self._eval(d, full) for d in deps])
                except KeyError:
                    return None
                if k in self.sub:
                    if self._eval(self.sub[k], full, dict(self.derived)) != val:
                        return None
                    continue
                if not (self.lo[k] <= val <= self.hi[k]):
                    return None
                full[k] = val
            for key, (l, h) in self.forms.items():
                s = sum(v * full[k] for k, v in key)
                if not (l <= s <= h):
                    return None
            return full

        def rec(st, order, asg):
            if left[0] <= 0:
                return None
            left[0] -= 1
            todo = [k for k in order if k not in asg]
            if not todo:
                return check(asg)
            k = min(todo, key=lambda x: (st.hi[x] - st.lo[x]))
            lo, hi = st.lo[k], st.hi[k]
            cand = [lo, hi, (lo + hi) // 2]
            if hi - lo <= 12:
                cand = list(range(lo, hi + 1))
            else:
                cand += [rnd.randint(lo, hi) for _ in range(5)]
            seen = set()
            for c in cand:
                if c in seen:
                    continue
                seen.add(c)
                s2 = st.copy()
                try:
                    s2._set(k, c, c)
                    s2.propagate()
                except Infeasible:
                    continue
                a2 = dict(asg)
                a2[k] = c
                r = rec(s2, order, a2)
                if r is not None:
                    return r
            return None
        order = [k for k in base if k in live] + [k for k in base if k not in live]
        return rec(self, order, {})

    def _eval(self, a, asg, derived=None):
        a = self.nf(a)
        v = a.c
        for k, c in a.t.items():
            v += c * asg[k]
        return norm(v)


def intify(a):
    """positive integer multiple of a with integer coefficients"""
    d = 1
    if a.c.__class__ is Fraction:
        d = a.c.denominator
    for v in a.t.values():
        if v.__class__ is Fraction:
            d = d * v.denominator // gcd(d, v.denominator)
    return lin_scale(a, d) if d != 1 else a


class Explorer(object):
    """enumerates the trace partitions depth first"""

    def __init__(self):
        self.script = []
        self.pos = 0

    def start(self):
        self.pos = 0

    def pick(self, n, feasible):
        """option taken by this partition among n; feasible(i) tells whether option i is non-empty"""
        if self.pos < len(self.script):
            e = self.script[self.pos]
        else:
            opts = [i for i in range(n) if feasible(i)]
            if not opts:
                raise Infeasible()
            e = [0, opts]
            self.script.append(e)
        self.pos += 1
        return e[1][e[0]]

    def advance(self):
        """move to next partition; False when done"""
        s = self.script
        del s[self.pos:]
        while s:
            if s[-1][0] + 1 < len(s[-1][1]):
                s[-1][0] += 1
                return True
            s.pop()
        return False


class Num(object):
    """arithmetic and comparisons of the numeric domain; splits partitions through the explorer"""

    ENUM = 64

    def __init__(self):
        self.ex = Explorer()
        self.st = Store()
        self.splits = 0

    # -- partition splitting
    def fork(self, alts):
        """alts: list of (value, assume(store)); returns the value of the option taken"""
        st = self.st

        def feasible(i):
            s = st.copy()
            try:
                alts[i][1](s)
                return True
            except Infeasible:
                return False
        i = self.ex.pick(len(alts), feasible)
        alts[i][1](st)
        self.splits += 1
        return alts[i][0]

    def choice(self, seq):
        i = self.ex.pick(len(seq), lambda i: True)
        return seq[i]

    # -- constructors
    def lin(self, x):
        if x.__class__ is Lin:
            return x
        return Lin(toq(x), {}, x.__class__ is float)

    def simp(self, a):
        """python number when constant"""
        a = self.st.nf(a)
        if not a.t:
            return self.pynum(a.c, a.f)
        return a

    @staticmethod
    def pynum(c, f):
        if f:
            return float(c)
        if c.__class__ is Fraction:
            return float(c)
        return c

    def const_of(self, a):
        """constant python value when the store pins a"""
        if a.__class__ is not Lin:
            return a
        lo, hi = self.st.bounds(a)
        if lo == hi:
            return self.pynum(lo, a.f)
        return None

    # -- arithmetic
    def add(self, a, b):
        return self.simp(lin_add(self.lin(a), self.lin(b)))

    def sub(self, a, b):
        return self.simp(lin_add(self.lin(a), self.lin(b), -1))

    def neg(self, a):
        return self.simp(lin_scale(a, -1))

    def mul(self, a, b):
        a, b = self.lin(a), self.lin(b)
        f = a.f or b.f
        ca, cb = self.st.bounds(a), self.st.bounds(b)
        if cb[0] == cb[1]:
            r = lin_scale(a, cb[0])
        elif ca[0] == ca[1]:
            r = lin_scale(b, ca[0])
        else:
            if (ca[1] - ca[0]) < (cb[1] - cb[0]):
                a, b = b, a
            k = self.enum(b, 400)
            r = lin_scale(a, toq(k))
        return self.simp(Lin(r.c, r.t, f))

    def truediv(self, a, b):
        b = self.enum(b, 400) if b.__class__ is Lin else b
        r = lin_scale(self.lin(a), Fraction(1) / toq(b))
        r = self.simp(Lin(r.c, r.t, True))
        return float(r) if r.__class__ is int else r

    def floordiv(self, a, b):
        b = self.enum(b, 400) if b.__class__ is Lin else b
        f = self.lin(a).f or b.__class__ is float
        q = self.floor(lin_scale(self.lin(a), Fraction(1) / toq(b)))
        if f:
            q = self.lin(q)
            return self.simp(Lin(q.c, q.t, True))
        return q

    def mod(self, a, b):
        b = self.enum(b, 400) if b.__class__ is Lin else b
        q = self.floordiv(a, b)
        return self.sub(a, self.mul(q, b))

    # -- value enumeration
    def enum(self, a, cap=None):
        """split the partition by the value of a; returns the constant"""
        if a.__class__ is not Lin:
            return a
        c = self.const_of(a)
        if c is not None:
            return c
        cap = cap or self.ENUM
        a = self.st.nf(a)
        ai = intify(a)
        k, sc = None, None
        lo, hi = self.st.bounds(ai)
        g = 0
        for v in ai.t.values():
            g = gcd(g, v)
        # values are c + g*j
        j0 = -((ai.c - lo) // g) if lo <= ai.c else -(-(lo - ai.c) // g)
        first = ai.c + g * (-((ai.c - lo) // g))
        if first < lo:
            first += g
        n = (hi - first) // g + 1
        if n > cap:
            raise Undetermined('value range of %d exceeds the enumeration cap' % n)
        mult = None
        s0 = next(iter(ai.t))
        mult = Fraction(ai.t[s0]) / a.t[s0]
        vals = [first + g * i for i in range(n)]

        def mk(v):
            return lambda st: st.assume_eq0(lin_add(ai, Lin(v, {}), -1))
        v = self.fork([(v, mk(v)) for v in vals])
        return self.pynum(norm(v / mult), a.f)

    # -- rounding
    def floor(self, a):
        if a.__class__ is not Lin:
            return ffloor(toq(a))
        a = self.st.nf(a)
        for _ in range(40):
            ip_c, ip = 0, {}
            fp = {}
            for k, v in a.t.items():
                w = ffloor(v + HALF)
                if w:
                    ip[k] = w
                if v != w:
                    fp[k] = v - w
            ip_c = ffloor(a.c)
            fc = norm(a.c - ip_c)
            I = Lin(ip_c, ip)
            if not fp:
                return self.simp(I)
            R = Lin(fc, fp)
            lo, hi = self.st.bounds(R)
            ql, qh = ffloor(lo), ffloor(hi)
            if ql == qh:
                return self.add(I, ql)
            Ri = intify(R)
            s0 = next(iter(fp))
            m = int(Fraction(Ri.t[s0]) / fp[s0])

            def mk(q):
                return lambda st: st.assume_range(Ri, q * m, q * m + m - 1)
            single = len(fp) == 1
            unit = single and abs(Ri.t[s0]) == 1
            if qh - ql <= (4 if unit else 2):
                q = self.fork([(q, mk(q)) for q in range(ql, qh + 1)])
                return self.add(I, q)
            # split x := m*q + r for the symbol with the widest contribution, when this decides (most of) the quotient
            best = None
            rl = rh = fc
            for k, v in fp.items():
                d = Fraction(v).denominator
                w = self.st.hi[k] - self.st.lo[k]
                if w >= d:
                    if v > 0:
                        rh += v * (d - 1)
                    else:
                        rl += v * (d - 1)
                    if best is None or w * abs(v) > best[0]:
                        best = (w * abs(v), k, d)
                else:
                    rh += v * self.st.hi[k] if v > 0 else v * self.st.lo[k]
                    rl += v * self.st.lo[k] if v > 0 else v * self.st.hi[k]
            if best is not None and best[2] < 10 ** 7 and ffloor(rh) - ffloor(rl) <= 2:
                self.st.decompose(best[1], best[2])
                a = self.st.nf(a)
                continue
            # fresh quotient symbol Q with 0 <= Ri - m*Q <= m-1
            key = ('floor', R.c, tuple(sorted(R.t.items())))
            Q = self.memo.get(key)
            if Q is None:
                Q = self.st.sym('Q%d' % len(self.st.lo), ql, qh)
                qs = next(iter(Q.t))
                self.st.derived[qs] = ((lambda m: lambda x: x // m)(m), [Ri])
                self.st.assume_range(lin_add(Ri, Q, -m), 0, m - 1)
                self.memo[key] = Q
            return self.add(I, Q)
        raise Undetermined('floor did not converge')

    def ceil(self, a):
        if a.__class__ is not Lin:
            return -ffloor(-toq(a))
        r = self.floor(lin_scale(a, -1))
        return self.neg(r) if r.__class__ is Lin else -r

    def trunc(self, a):
        if a.__class__ is not Lin:
            return int(a)
        a = self.st.nf(a)
        if all(v.__class__ is int for v in a.t.values()) and a.c.__class__ is int:
            return self.simp(Lin(a.c, a.t))
        if self.cmp(a, 0, '>='):
            return self.floor(a)
        return self.ceil(a)

    def round(self, a):
        if a.__class__ is not Lin:
            return round(a)
        a = self.st.nf(a)
        if all(v.__class__ is int for v in a.t.values()) and a.c.__class__ is int:
            return self.simp(Lin(a.c, a.t))
        h = Fraction(1, 2)
        r = self.floor(Lin(a.c + h, a.t))
        if self.cmp(self.sub(r, Lin(0, a.t)), a.c + h, '=='):      # exact tie: to even
            if self.cmp(self.mod(r, 2), 1, '=='):
                return self.sub(r, 1)
        return r

    # -- comparisons
    def cmp(self, a, b, op):
        d = lin_add(self.lin(a), self.lin(b), -1)
        return self.sign(d, op)

    def sign(self, d, op):
        """decide d op 0"""
        d = self.st.nf(d)
        if not d.t:
            c = d.c
            return (c < 0 if op == '<' else c <= 0 if op == '<=' else c > 0 if op == '>' else c >= 0 if op == '>=' else
                    c == 0 if op == '==' else c != 0)
        d = intify(d)
        lo, hi = self.st.bounds(d)
        if op in ('<', '>='):
            if hi < 0:
                return op == '<'
            if lo >= 0:
                return op == '>='
            return self.fork([(op == '<', lambda s: s.assume_range(d, lo, -1)),
                              (op == '>=', lambda s: s.assume_range(d, 0, hi))])
        if op in ('>', '<='):
            if lo > 0:
                return op == '>'
            if hi <= 0:
                return op == '<='
            return self.fork([(op == '<=', lambda s: s.assume_range(d, lo, 0)),
                              (op == '>', lambda s: s.assume_range(d, 1, hi))])
        eq = op == '=='
        if lo > 0 or hi < 0:
            return not eq
        if lo == hi == 0:
            return eq
        g = 0
        for v in d.t.values():
            g = gcd(g, v)
        if d.c % g:
            return not eq
        return self.fork([(not eq, lambda s: s.assume_range(d, lo, -1)),
                          (eq, lambda s: s.assume_eq0(d)),
                          (not eq, lambda s: s.assume_range(d, 1, hi))])

    def try_sign(self, d):
        """-1/0/1 when the store decides the sign of d, else None"""
        d = self.st.nf(d)
        lo, hi = self.st.bounds(d)
        if lo > 0:
            return 1
        if hi < 0:
            return -1
        if lo == hi == 0:
            return 0
        return None
