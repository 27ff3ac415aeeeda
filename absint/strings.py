# -*- coding: utf-8 -*-
"""structured strings: constant pieces and fixed-width decimals of affine forms"""
import re
from .core import Lin, Undetermined
from .values import SStr, PyRaise, ExcInst, PyList, PyDict, PySet, Top, Obj


def _merge(I, parts):
    out = []
    for p in parts:
        if p.__class__ is str:
            if not p:
                continue
            if out and out[-1].__class__ is str:
                out[-1] += p
            else:
                out.append(p)
        else:
            v, w = p
            c = I.const_of(v)
            if c is not None:
                s = '%0*d' % (w, int(c))
                if out and out[-1].__class__ is str:
                    out[-1] += s
                else:
                    out.append(s)
            else:
                # leading zeros are part of the decimal
                if out and out[-1].__class__ is str:
                    m = re.search(r'0+$', out[-1])
                    if m:
                        k = len(m.group(0))
                        # only absorb when the preceding character is not a digit
                        pre = out[-1][:-k]
                        if not (pre and pre[-1].isdigit()):
                            w += k
                            out[-1] = pre
                            if not pre:
                                out.pop()
                out.append((v, w))
    return out


def mk(I, parts):
    out = _merge(I, parts)
    if not out:
        return ''
    if len(out) == 1 and out[0].__class__ is str:
        return out[0]
    return SStr(out)


def parts(x):
    return [x] if x.__class__ is str else list(x.p)


def refresh(I, s):
    """fold decimals that became constant"""
    if s.__class__ is SStr:
        return mk(I, s.p)
    return s


def dec(I, v, width=0, zero=True):
    """decimal rendering of an integer Lin with minimum width"""
    if v.__class__ is not Lin:
        return ('%0*d' if zero else '%*d') % (width, int(v)) if width else '%d' % int(v)
    if I.cmp(v, 0, '<'):
        a = I.neg(v)
        body = dec(I, a, max(width - 1, 0), zero)
        if not zero and width:
            raise Undetermined('space padded negative number')
        return mk(I, ['-'] + parts(body))
    w = max(1, width) if zero else 1
    while I.cmp(v, 10 ** w, '>='):
        w += 1
        if w > 12:
            raise Undetermined('unbounded decimal')
    if w < width:
        if zero:
            w = width
        else:
            return mk(I, [' ' * (width - w), (v, w)])
    return mk(I, [(v, w)])


def length(s):
    if s.__class__ is str:
        return len(s)
    return sum(len(p) if p.__class__ is str else p[1] for p in s.p)


def enum_str(I, s, cap=64):
    """concrete string, splitting the partition on the decimals"""
    if s.__class__ is str:
        return s
    out = ''
    for p in s.p:
        if p.__class__ is str:
            out += p
        else:
            out += '%0*d' % (p[1], int(I.enum(p[0], cap)))
    return out


def split_at(I, s, k):
    """(s[:k], s[k:]) for 0<=k<=len"""
    left, right = [], []
    pos = 0
    for p in parts(s):
        n = len(p) if p.__class__ is str else p[1]
        if pos + n <= k:
            left.append(p)
        elif pos >= k:
            right.append(p)
        else:
            j = k - pos
            if p.__class__ is str:
                left.append(p[:j])
                right.append(p[j:])
            else:
                v, w = p
                m = 10 ** (w - j)
                q = I.floordiv(v, m)
                r = I.sub(v, I.mul(q, m))
                left.append((q, j) if q.__class__ is Lin else '%0*d' % (j, q))
                right.append((r, w - j) if r.__class__ is Lin else '%0*d' % (w - j, r))
        pos += n
    # do not absorb zeros across the cut
    return mk(I, left), mk(I, right)


def slice_(I, s, a, b, st):
    n = length(s)
    a, b, st = slice(a, b, st).indices(n)
    if st != 1:
        out = []
        for i in range(a, b, st):
            out.extend(parts(slice_(I, s, i, i + 1, None)))
        return mk(I, out)
    if b < a:
        b = a
    l, _ = split_at(I, s, b)
    _, m = split_at(I, l, a)
    return m


def align(I, a, b):
    """pairs of same-length atoms covering the common prefix of a and b, plus rest lengths"""
    pa, pb = parts(a), parts(b)
    out = []
    while pa and pb:
        x, y = pa[0], pb[0]
        nx = len(x) if x.__class__ is str else x[1]
        ny = len(y) if y.__class__ is str else y[1]
        if x.__class__ is str and y.__class__ is not str and nx > ny:
            out.append((x[:ny], y))
            pa[0] = x[ny:]
            pb.pop(0)
        elif y.__class__ is str and x.__class__ is not str and ny > nx:
            out.append((x, y[:nx]))
            pb[0] = y[nx:]
            pa.pop(0)
        elif x.__class__ is str and y.__class__ is str:
            n = min(nx, ny)
            out.append((x[:n], y[:n]))
            if nx > n:
                pa[0] = x[n:]
            else:
                pa.pop(0)
            if ny > n:
                pb[0] = y[n:]
            else:
                pb.pop(0)
        elif nx == ny:
            out.append((x, y))
            pa.pop(0)
            pb.pop(0)
        else:
            # split the longer decimal
            n = min(nx, ny)
            if x.__class__ is not str and nx > n:
                l, r = split_at(I, SStr([x]), n)
                pa[0:1] = parts(l) + parts(r)
            else:
                l, r = split_at(I, SStr([y]), n)
                pb[0:1] = parts(l) + parts(r)
            if len(out) > 200:
                raise Undetermined('string alignment')
    return out, sum(len(p) if p.__class__ is str else p[1] for p in pa), sum(len(p) if p.__class__ is str else p[1] for p in pb)


def equal(I, a, b):
    a, b = refresh(I, a), refresh(I, b)
    if a.__class__ is str and b.__class__ is str:
        return a == b
    if length(a) != length(b):
        return False
    prs, ra, rb = align(I, a, b)
    todo = []
    for x, y in prs:
        if x.__class__ is str and y.__class__ is str:
            if x != y:
                return False
        elif x.__class__ is str or y.__class__ is str:
            c, v = (x, y) if x.__class__ is str else (y, x)
            if not c.isdigit() or not c.isascii():
                # some position cannot be a digit
                return False
            todo.append((v[0], int(c)))
        else:
            todo.append((x[0], y[0]))
    todo = I.date_pairs(todo)
    for u, v in todo:
        if not I.cmp(u, v, '=='):
            return False
    return True


def less(I, a, b, orequal):
    """a < b (or a <= b) lexicographically"""
    a, b = refresh(I, a), refresh(I, b)
    if a.__class__ is str and b.__class__ is str:
        return a <= b if orequal else a < b
    prs, ra, rb = align(I, a, b)
    seq = []
    for x, y in prs:
        if x.__class__ is str and y.__class__ is str:
            if x == y:
                continue
            seq.append((0, 1) if x < y else (1, 0))
            break
        if x.__class__ is str or y.__class__ is str:
            c, v = (x, y) if x.__class__ is str else (y, x)
            if c.isdigit() and c.isascii():
                n = int(c)
                seq.append((n, v[0]) if x.__class__ is str else (v[0], n))
                continue
            k = 0
            while k < len(c) and c[k] in '0123456789':
                k += 1
            if k:
                # leading digits decide first, then the non-digit character
                n = int(c[:k])
                hi = I.floordiv(v[0], 10 ** (v[1] - k))
                seq.append((n, hi) if x.__class__ is str else (hi, n))
            less_c = c[k] < '0'
            if x.__class__ is str:
                seq.append((0, 1) if less_c else (1, 0))
            else:
                seq.append((1, 0) if less_c else (0, 1))
            break
        else:
            seq.append((x[0], y[0]))
    seq = I.date_pairs(seq)
    if ra == rb and seq:
        fin = seq.pop()
    else:
        fin = None
    for u, v in seq:
        if I.cmp(u, v, '<'):
            return True
        if I.cmp(u, v, '>'):
            return False
    if fin is not None:
        return I.cmp(fin[0], fin[1], '<=' if orequal else '<')
    if ra != rb:
        return ra < rb
    return orequal


def contains(I, s, sub):
    """sub in s"""
    s, sub = refresh(I, s), refresh(I, sub)
    if s.__class__ is str and sub.__class__ is str:
        return sub in s
    return find(I, s, sub) >= 0


def find(I, s, sub):
    if sub.__class__ is SStr:
        sub = enum_str(I, sub)
    if s.__class__ is str:
        return s.find(sub)
    if not any(ch in '0123456789' for ch in sub):
        pos = 0
        # decimals contain digits only, so a digit-free needle lies inside constant pieces
        for p in s.p:
            if p.__class__ is str:
                k = p.find(sub)
                if k >= 0:
                    return pos + k
                pos += len(p)
            else:
                pos += p[1]
        return -1
    return enum_str(I, s).find(sub)


def replace(I, s, old, new, count=-1):
    if old.__class__ is SStr:
        old = enum_str(I, old)
    if s.__class__ is str and new.__class__ is str:
        return s.replace(old, new, count)
    if s.__class__ is SStr and old and not any(ch in '0123456789' for ch in old) and count < 0:
        out = []
        for p in s.p:
            if p.__class__ is str:
                bits = p.split(old)
                for i, b in enumerate(bits):
                    if i:
                        out.extend(parts(new))
                    out.append(b)
            else:
                out.append(p)
        return mk(I, out)
    if s.__class__ is str and count < 0 and old:
        out = []
        for i, b in enumerate(s.split(old)):
            if i:
                out.extend(parts(new))
            out.append(b)
        return mk(I, out)
    return enum_str(I, s).replace(old, enum_str(I, new), count)


def split(I, s, sep, maxsplit=-1):
    if s.__class__ is str and sep.__class__ is str:
        return s.split(sep, maxsplit)
    if sep.__class__ is str and sep and not any(ch in '0123456789' for ch in sep) and maxsplit < 0:
        out = [[]]
        for p in s.p:
            if p.__class__ is str:
                bits = p.split(sep)
                for i, b in enumerate(bits):
                    if i:
                        out.append([])
                    out[-1].append(b)
            else:
                out[-1].append(p)
        return [mk(I, o) for o in out]
    return enum_str(I, s).split(enum_str(I, sep), maxsplit)


def to_int(I, s, base=10):
    s = refresh(I, s)
    if s.__class__ is str:
        try:
            return int(s, base)
        except ValueError:
            raise PyRaise(ExcInst(ValueError, ('invalid literal for int()',)))
    if base != 10:
        return int(enum_str(I, s), base)
    total = 0
    for p in s.p:
        if p.__class__ is str:
            if not p.isdigit():
                if p == '-' and p is s.p[0]:
                    v = to_int(I, mk(I, s.p[1:]))
                    return I.neg(v) if v.__class__ is Lin else -v
                raise PyRaise(ExcInst(ValueError, ('invalid literal for int()',)))
            total = I.add(I.mul(total, 10 ** len(p)), int(p))
        else:
            total = I.add(I.mul(total, 10 ** p[1]), p[0])
    return total


_FMT = re.compile(r'%(?:\((\w+)\))?([-+ #0]*)(\*|\d+)?(?:\.(\d+))?([diouxXeEfFgGcrsa%])')


def percent(I, fmt, args):
    if fmt.__class__ is SStr:
        fmt = enum_str(I, fmt)
    mapping = None
    if args.__class__ is PyDict:
        mapping = args
        vals = []
    elif args.__class__ is tuple:
        vals = list(args)
    else:
        vals = [args]
    out = []
    pos = 0
    vi = 0
    for m in _FMT.finditer(fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == '%':
            out.append('%')
            continue
        if key is not None:
            if mapping is None:
                raise PyRaise(ExcInst(TypeError, ('format requires a mapping',)))
            v = mapping.d[key]
        else:
            if vi >= len(vals):
                raise PyRaise(ExcInst(TypeError, ('not enough arguments for format string',)))
            v = vals[vi]
            vi += 1
        if width == '*':
            raise Undetermined('%* format')
        w = int(width) if width else 0
        if conv in 'di':
            if v.__class__ is Top:
                return v
            if v.__class__ is Lin or v.__class__ in (int, bool, float):
                if v.__class__ is float:
                    v = int(v)
                if v.__class__ is Lin:
                    if v.f:
                        v = I.trunc(v)
                    if '-' in flags or '+' in flags or ' ' in flags or prec:
                        v = I.enum(v)
                if v.__class__ is not Lin:
                    out.append(m.group(0).replace(m.group(0), '%' + flags + (width or '') + ('.' + prec if prec else '') + conv) % v)
                else:
                    d = dec(I, v, w, '0' in flags)
                    out.extend(parts(d))
            else:
                raise PyRaise(ExcInst(TypeError, ('%d format: a real number is required',)))
        elif conv in 'sra':
            s = I.str_of(v, conv != 's')
            if s.__class__ is Top:
                return s
            if w and length(s) < w:
                padn = ' ' * (w - length(s))
                out.extend(parts(s) + [padn] if '-' in flags else [padn] + parts(s))
            else:
                if prec:
                    s = slice_(I, s, 0, int(prec), None)
                out.extend(parts(s))
        else:
            v = I.enum(v)
            out.append(('%' + flags + (width or '') + ('.' + prec if prec else '') + conv) % v)
    out.append(fmt[pos:])
    if mapping is None and vi < len(vals):
        raise PyRaise(ExcInst(TypeError, ('not all arguments converted during string formatting',)))
    return mk(I, out)


_SPEC = re.compile(r'^(?:(.)?([<>^=]))?([-+ ]?)(0?)(\d+)?(?:\.(\d+))?([a-zA-Z%]?)$')


def format_spec(I, v, spec):
    if spec == '':
        return I.str_of(v)
    m = _SPEC.match(spec)
    if v.__class__ is not Lin and v.__class__ is not SStr and v.__class__ in (int, str, float, bool):
        return format(v, spec)
    if not m:
        return format(I.enum(v), spec)
    fill, al, sign, zero, width, prec, conv = m.groups()
    if v.__class__ is Lin and conv in ('d', '') and not v.f and not sign and not prec:
        w = int(width) if width else 0
        if zero and not al:
            return dec(I, v, w, True)
        if fill == '0' and al in ('>', '='):
            return dec(I, v, w, True)
        if not al and not zero:
            return dec(I, v, w, False)
        return format(I.enum(v), spec)
    if v.__class__ is SStr:
        w = int(width) if width else 0
        if length(v) >= w:
            return v
        if al == '>' or (fill and al == '>'):
            return mk(I, [(fill or ' ') * (w - length(v))] + parts(v))
        return format(enum_str(I, v), spec)
    if v.__class__ is Lin:
        return format(I.enum(v), spec)
    return format_spec(I, I.str_of(v), spec)


def str_format(I, fmt, args, kwargs):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        name = re.match(r'^\w*', field).group(0)
        rest = field[len(name):]
        if name == '':
            v = args[auto]
            auto += 1
        elif name.isdigit():
            v = args[int(name)]
        else:
            v = kwargs[name]
        if rest:
            raise Undetermined('format field access')
        if conv in ('r', 's'):
            v = I.str_of(v, conv == 'r')
        s = format_spec(I, v, spec or '')
        if s.__class__ is Top:
            return s
        out.extend(parts(s))
    return mk(I, out)
