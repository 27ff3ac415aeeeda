# -*- coding: utf-8 -*-
"""abstract interpreter for the Python subset used by the repository (and by the specifications).
Source is parsed with ast and interpreted over the domains of core.py / strings.py; nothing of the
analysed package is imported or executed."""
import ast
import os
import sys
import math
from fractions import Fraction
from .core import Lin, Store, Explorer, Num, Infeasible, Undetermined, BeyondBound, toq, lin_add, lin_scale, norm
from .values import *
from . import strings as S

sys.setrecursionlimit(20000)


class _Sig(object):
    def __init__(self, n):
        self.n = n


# statement coverage of the analysed package, collected only for tools/coverage.py
LINES = {} if os.environ.get('VERIF_LINES') else None

BRK = _Sig('break')
CNT = _Sig('continue')


class Ret(object):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Frame(object):
    __slots__ = ('v', 'up', 'fn', 'yields', 'exc')

    def __init__(self, v, up, fn):
        self.v = v
        self.up = up
        self.fn = fn
        self.yields = None
        self.exc = None


class Scope(object):
    """lexical scope at compile time"""

    def __init__(self, kind, up, names, cls, globs=()):
        self.kind = kind        # module class function
        self.up = up
        self.names = names
        self.cls = cls
        self.globs = globs

    def mangle(self, n):
        if self.cls and n.startswith('__') and not n.endswith('__'):
            return '_' + self.cls.lstrip('_') + n
        return n


def assigned(body, args=None):
    """names bound in a function body (not descending into nested scopes), plus global/nonlocal sets"""
    out, glob, nonl = set(), set(), set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    class V(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.add(n.name)
            for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self.visit(d)
        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_Global(self, n):
            glob.update(n.names)

        def visit_Nonlocal(self, n):
            nonl.update(n.names)

        def visit_Import(self, n):
            for a in n.names:
                out.add(a.asname or a.name.split('.')[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                out.add(a.asname or a.name)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def comp(self, n):
            # targets are local to the comprehension; walrus binds outside
            for g in n.generators:
                self.visit(g.iter)
                for i in g.ifs:
                    self.visit(i)
            for f in ('elt', 'key', 'value'):
                if hasattr(n, f):
                    self.visit(getattr(n, f))
        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

        def visit_NamedExpr(self, n):
            out.add(n.target.id)
            self.visit(n.value)

        def visit_MatchAs(self, n):
            if n.name:
                out.add(n.name)
            self.generic_visit(n)

        def visit_MatchStar(self, n):
            if n.name:
                out.add(n.name)

        def visit_MatchMapping(self, n):
            if n.rest:
                out.add(n.rest)
            self.generic_visit(n)
    v = V()
    for s in body:
        v.visit(s)
    if args is not None:
        for a in args.posonlyargs + args.args + args.kwonlyargs:
            out.add(a.arg)
        if args.vararg:
            out.add(args.vararg.arg)
        if args.kwarg:
            out.add(args.kwarg.arg)
    return out - glob - nonl, glob


def has_yield(body):
    class V(ast.NodeVisitor):
        r = False

        def visit_FunctionDef(self, n):
            pass
        visit_Lambda = visit_ClassDef = visit_FunctionDef

        def visit_Yield(self, n):
            self.r = True
        visit_YieldFrom = visit_Yield
    v = V()
    for s in body:
        v.visit(s)
    return v.r


NATIVE_EXC = {n: getattr(__import__('builtins'), n) for n in (
    'BaseException', 'Exception', 'ValueError', 'TypeError', 'IndexError', 'KeyError', 'AttributeError', 'ZeroDivisionError',
    'ArithmeticError', 'LookupError', 'RuntimeError', 'NotImplementedError', 'StopIteration', 'AssertionError', 'NameError',
    'OverflowError', 'ImportError', 'OSError', 'UnicodeError', 'RecursionError', 'UnboundLocalError')}


class Interp(Num):
    def __init__(self, roots, hooks=None):
        """roots: {package name: directory}"""
        Num.__init__(self)
        self.roots = roots
        self.modules = {}
        self.loading = True
        self.steps = 0
        self.max_steps = 4000000
        self.loop_bound = 60
        self.static_objs = []
        self.snap = None
        self.events = []
        self.stack = []
        self.dates = {}          # sym of y -> (m sym, d sym, D Lin)
        self.summaries = {}
        self.nocall = 0
        self.inject = None
        self.preempt = None
        self.thread = 0
        self.set_reverse = False
        self.cover = set()
        self.memo = {}
        self.locks = []
        self.cur = None
        self.symkeys = False
        self.coroutines = []
        from .pybuiltins import install
        self.builtins = install(self)

    # ------------------------------------------------------------------ modules
    def resolve_path(self, name):
        p = name.split('.')
        root = self.roots.get(p[0])
        if root is None:
            return None, None
        path = os.path.join(root, *p[1:])
        if os.path.isdir(path) and os.path.exists(os.path.join(path, '__init__.py')):
            return os.path.join(path, '__init__.py'), True
        if os.path.exists(path + '.py'):
            return path + '.py', False
        return None, None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
            if name in self.modules:
                return self.modules[name]
        path, ispkg = self.resolve_path(name)
        if path is None:
            raise PyRaise(ExcInst(ImportError, (name,)))
        with open(path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, path)
        m = Module(name, {'__name__': name, '__file__': path}, path)
        m.ispkg = ispkg
        self.modules[name] = m
        if '.' in name:
            par, ch = name.rsplit('.', 1)
            self.modules[par].ns[ch] = m
        code = self.block(tree.body, Scope('module', None, set(), None), m)
        fr = Frame(m.ns, None, None)
        code(fr)
        return m

    def stdlib(self, name):
        from .pybuiltins import stdmodule
        k = '!' + name
        if k not in self.modules:
            self.modules[k] = stdmodule(self, name)
        return self.modules[k]

    def imp(self, name):
        if name.split('.')[0] in self.roots:
            return self.load(name)
        return self.stdlib(name)

    # ------------------------------------------------------------------ static heap snapshot
    def freeze(self):
        """called once all modules are loaded: everything reachable now is shared (static) state"""
        seen = {}

        def walk(v):
            if id(v) in seen:
                return
            c = v.__class__
            if c in (PyList, PyDict, PySet, Obj, Cls, Module, Func, Static, ClassM, Prop, tuple, Bound, Frame, Builtin):
                seen[id(v)] = v
            else:
                return
            if c is PyList:
                v.static = True
                self.static_objs.append((v, list(v.items)))
                for x in v.items:
                    walk(x)
            elif c is PyDict:
                v.static = True
                self.static_objs.append((v, dict(v.d)))
                for x in v.d.values():
                    walk(x)
                for x in v.d:
                    walk(x)
            elif c is PySet:
                v.static = True
                self.static_objs.append((v, set(v.s)))
            elif c is Obj:
                v.static = True
                self.static_objs.append((v, dict(v.attrs)))
                for x in v.attrs.values():
                    walk(x)
            elif c is Cls:
                self.static_objs.append((v, dict(v.ns)))
                v.static = True
                for x in v.ns.values():
                    walk(x)
            elif c is Module:
                self.static_objs.append((v, dict(v.ns)))
                for x in v.ns.values():
                    walk(x)
            elif c is Func:
                for x in v.defaults:
                    walk(x)
                for x in v.kwdefaults.values():
                    walk(x)
                if v.frame is not None:
                    walk(v.frame)
                self.static_objs.append((v, None if v.attrs is None else dict(v.attrs)))
                for x in (v.attrs or {}).values():
                    walk(x)
            elif c is Frame:
                # variables of an enclosing function or class body that outlives the loading of its module
                self.static_objs.append((v, dict(v.v)))
                for x in v.v.values():
                    walk(x)
                if v.up is not None:
                    walk(v.up)
            elif c is Builtin:
                for x in getattr(v, 'refs', None) or ():
                    walk(x)
            elif c is Prop:
                walk(v.fget)
                walk(v.fset)
            elif c is Bound:
                walk(v.fn)
                walk(v.self)
            elif c in (Static, ClassM):
                walk(v.fn)
            elif c is tuple:
                for x in v:
                    walk(x)
        for m in self.modules.values():
            walk(m)
        self.loading = False

    def restore(self, state):
        for o, c in state:
            k = o.__class__
            if k is PyList:
                o.items = list(c)
            elif k is PyDict:
                o.d = dict(c)
            elif k is PySet:
                o.s = set(c)
            elif k is Obj or k is Func:
                o.attrs = None if c is None else dict(c)
            elif k is Frame:
                o.v = dict(c)
            else:
                o.ns.clear()
                o.ns.update(c)

    def static_state(self):
        """copy of everything that outlives a call"""
        out = []
        for o, c in self.static_objs:
            k = o.__class__
            if k is PyList:
                out.append((o, list(o.items)))
            elif k is PyDict:
                out.append((o, dict(o.d)))
            elif k is PySet:
                out.append((o, set(o.s)))
            elif k is Obj or k is Func:
                out.append((o, None if o.attrs is None else dict(o.attrs)))
            elif k is Frame:
                out.append((o, dict(o.v)))
            else:
                out.append((o, dict(o.ns)))
        return out

    def reset(self):
        """start of a trace partition"""
        self.restore(self.static_objs)
        self.st = Store()
        self.ex.start()
        self.steps = 0
        self.events = []
        self.stack = []
        self.dates = {}
        for l in self.locks:
            l.held = 0
        self.locks = []
        self.inject = None
        self.preempt = None
        self.thread = 0
        self.set_reverse = False
        self.memo = {}
        self.cur = None
        self.symkeys = False
        while self.coroutines:
            self.coroutines.pop().kill()

    # ------------------------------------------------------------------ raising
    def err(self, cls, msg):
        raise PyRaise(ExcInst(cls, (msg,)))

    def where(self):
        return [f.qual for f in self.stack[-6:]]

    # ------------------------------------------------------------------ compile: blocks
    def block(self, body, sc, mod):
        codes = [self.stmt(s, sc, mod) for s in body]
        n = len(codes)
        if n == 1:
            return codes[0]

        def run(fr):
            for c in codes:
                r = c(fr)
                if r is not None:
                    return r
            return None
        return run

    def stmt(self, n, sc, mod):
        f = getattr(self, 's_' + n.__class__.__name__, None)
        if f is None:
            nm = n.__class__.__name__

            def bad(fr):
                raise Undetermined('statement %s' % nm)
            return bad
        code = f(n, sc, mod)
        line = n.lineno
        path = mod.path

        mine = mod.name.startswith('lunar_python')
        if mine and LINES is not None:
            inner = code
            key = (mod.name, line)
            LINES.setdefault(key, False)

            def code(fr):
                if LINES[key] is False:
                    LINES[key] = True
                return inner(fr)

        def located(fr):
            if mine and self.preempt is not None:
                self.preempt()
            try:
                return code(fr)
            except PyRaise as e:
                if e.where is None:
                    e.where = (path, line, fr.fn.qual if fr.fn else '<module>')
                raise
        if n.__class__ in (ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Raise, ast.AnnAssign):
            return located
        return code

    def s_Pass(self, n, sc, mod):
        return lambda fr: None

    def s_Break(self, n, sc, mod):
        return lambda fr: BRK

    def s_Continue(self, n, sc, mod):
        return lambda fr: CNT

    def s_Global(self, n, sc, mod):
        return lambda fr: None
    s_Nonlocal = s_Global

    def s_Expr(self, n, sc, mod):
        if isinstance(n.value, ast.Constant):
            return lambda fr: None
        e = self.expr(n.value, sc, mod)

        def run(fr):
            e(fr)
        return run

    def s_Return(self, n, sc, mod):
        if n.value is None:
            r = Ret(None)
            return lambda fr: r
        e = self.expr(n.value, sc, mod)
        return lambda fr: Ret(e(fr))

    def s_Assign(self, n, sc, mod):
        e = self.expr(n.value, sc, mod)
        ts = [self.target(t, sc, mod) for t in n.targets]
        if len(ts) == 1:
            t = ts[0]

            def run(fr):
                t(fr, e(fr))
            return run

        def run2(fr):
            v = e(fr)
            for t in ts:
                t(fr, v)
        return run2

    def s_AnnAssign(self, n, sc, mod):
        note = None
        if sc.kind == 'class' and isinstance(n.target, ast.Name) and 'ClassVar' not in ast.unparse(n.annotation):
            note = n.target.id
        if n.value is None:
            if note is None:
                return lambda fr: None
            return lambda fr: fr.v.setdefault('!ann', []).append(note)
        e = self.expr(n.value, sc, mod)
        t = self.target(n.target, sc, mod)

        def run(fr):
            if note is not None:
                fr.v.setdefault('!ann', []).append(note)
            t(fr, e(fr))
        return run

    def s_AugAssign(self, n, sc, mod):
        op = n.op.__class__.__name__
        v = self.expr(n.value, sc, mod)
        if isinstance(n.target, ast.Name):
            ld = self.name_load(n.target.id, sc, mod)
            stt = self.name_store(n.target.id, sc, mod)

            def run(fr):
                a = ld(fr)
                b = v(fr)
                stt(fr, self.inplace(op, a, b))
            return run
        if isinstance(n.target, ast.Attribute):
            o = self.expr(n.target.value, sc, mod)
            at = sc.mangle(n.target.attr)

            def run(fr):
                ob = o(fr)
                a = self.getattr(ob, at)
                b = v(fr)
                self.setattr(ob, at, self.inplace(op, a, b))
            return run
        o = self.expr(n.target.value, sc, mod)
        ix = self.expr(n.target.slice, sc, mod)

        def run(fr):
            ob = o(fr)
            i = ix(fr)
            a = self.getitem(ob, i)
            self.setitem(ob, i, self.inplace(op, a, v(fr)))
        return run

    def inplace(self, op, a, b):
        if op == 'Add' and a.__class__ is PyList:
            self.mutated(a, '+=')
            a.items.extend(self.iter_list(b))
            return a
        if op == 'BitOr' and a.__class__ is PySet:
            self.mutated(a, '|=')
            a.s |= b.s
            return a
        return self.binop(op, a, b)

    def s_If(self, n, sc, mod):
        c = self.cond(n.test, sc, mod)
        a = self.block(n.body, sc, mod)
        b = self.block(n.orelse, sc, mod) if n.orelse else None
        if b is None:
            return lambda fr: a(fr) if c(fr) else None
        return lambda fr: a(fr) if c(fr) else b(fr)

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undetermined('step budget')

    def s_While(self, n, sc, mod):
        c = self.cond(n.test, sc, mod)
        body = self.block(n.body, sc, mod)
        orelse = self.block(n.orelse, sc, mod) if n.orelse else None

        def run(fr):
            splits = 0
            while True:
                s0 = self.splits
                if not c(fr):
                    break
                if self.splits != s0:
                    splits += 1
                    if splits > self.loop_bound:
                        raise BeyondBound('loop at %s:%d' % (os.path.basename(mod.path), n.lineno))
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Undetermined('step budget in loop at %s:%d' % (os.path.basename(mod.path), n.lineno))
                r = body(fr)
                if self.splits != s0:
                    splits += 0
                if r is not None:
                    if r is BRK:
                        return None
                    if r is CNT:
                        continue
                    return r
            if orelse:
                return orelse(fr)
            return None
        return run

    def s_For(self, n, sc, mod):
        it = self.expr(n.iter, sc, mod)
        tgt = self.target(n.target, sc, mod)
        body = self.block(n.body, sc, mod)
        orelse = self.block(n.orelse, sc, mod) if n.orelse else None
        acc = self.telescoping_shape(n)

        def run(fr):
            seq = it(fr)
            if acc is not None and seq.__class__ is Rng and (seq.a.__class__ is Lin or seq.b.__class__ is Lin) and self.potentials:
                r = self.telescope(n, acc, seq, tgt, body, fr)
                if r:
                    return None
            for x in self.iterate(seq):
                self.tick()
                tgt(fr, x)
                r = body(fr)
                if r is not None:
                    if r is BRK:
                        return None
                    if r is CNT:
                        continue
                    return r
            if orelse:
                return orelse(fr)
            return None
        return run

    potentials = ()

    def telescoping_shape(self, n):
        return None

    def s_FunctionDef(self, n, sc, mod):
        mk = self.funcdef(n, sc, mod)
        st = self.name_store(n.name, sc, mod)
        decs = [self.expr(d, sc, mod) for d in n.decorator_list]

        def run(fr):
            f = mk(fr)
            for d in reversed(decs):
                f = self.call(d(fr), [f], {})
            st(fr, f)
        return run

    def funcdef(self, n, sc, mod, islambda=False):
        a = n.args
        if islambda:
            body = [ast.copy_location(ast.Return(n.body), n.body)]
            name = '<lambda>'
        else:
            body = n.body
            name = n.name
        names, globs = assigned(body, a)
        nsc = Scope('function', sc, names, sc.cls, globs)
        code = self.block(body, nsc, mod)
        isgen = (not islambda) and has_yield(body)
        if isgen and any(isinstance(x, ast.While) and isinstance(x.test, ast.Constant) or isinstance(x, ast.Call) and getattr(x.func, 'id', getattr(x.func, 'attr', None)) in ('count', 'cycle', 'repeat')
                         for s in body for x in ast.walk(s)):
            isgen = 'endless'
        dfl = [self.expr(d, sc, mod) for d in a.defaults]
        kwd = [(x.arg, self.expr(d, sc, mod)) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        qual = (sc.cls + '.' if sc.kind == 'class' else '') + name
        line = n.lineno

        def mk(fr):
            f = Func()
            f.name = name
            f.args = a
            f.body = code
            f.frame = fr if sc.kind != 'module' else None
            if sc.kind == 'class':
                f.frame = fr.up
            f.module = mod
            f.defaults = [d(fr) for d in dfl]
            f.kwdefaults = {k: d(fr) for k, d in kwd}
            f.qual = qual
            f.isgen = isgen
            f.line = line
            f.localnames = names
            f.cls = sc.cls
            f.attrs = None
            return f
        return mk

    def s_ClassDef(self, n, sc, mod):
        names, globs = assigned(n.body)
        nsc = Scope('class', sc, names, n.name, globs)
        code = self.block(n.body, nsc, mod)
        bases = [self.expr(b, sc, mod) for b in n.bases]
        st = self.name_store(n.name, sc, mod)
        decs = [self.expr(d, sc, mod) for d in n.decorator_list]

        def run(fr):
            ns = {}
            f = Frame(ns, fr if sc.kind == 'function' else None, None)
            bs = [b(fr) for b in bases]
            code(f)
            bl = []
            for b in bs:
                if isinstance(b, Cls) or (isinstance(b, type) and issubclass(b, BaseException)):
                    bl.append(b)
                elif isinstance(b, BType) and (b.name == 'object' or b.name[:1].isupper()):
                    pass
                else:
                    raise Undetermined('base class %r' % (b,))
            c = Cls(n.name, ns, bl, mod)
            if n.keywords and not all(isinstance(k.value, ast.Name) and k.value.id == 'ABCMeta' or isinstance(k.value, ast.Attribute) and k.value.attr == 'ABCMeta' for k in n.keywords):
                raise Undetermined('class keyword')
            if bl:
                from .stdlib2 import finish_class
                finish_class(self, c, n)
            isub = [b.ns['__init_subclass__'] for b in c.mro[1:] if isinstance(b, Cls) and '__init_subclass__' in b.ns]
            if isub:
                self.call(isub[0].fn if isub[0].__class__ is ClassM else isub[0], [c], {})
            for k, x in list(ns.items()):
                if x.__class__ is Obj and x.cls.lookup('__set_name__') is not MISSING:
                    self.call(x.cls.lookup('__set_name__'), [x, c, k], {})
            v = c
            for d in reversed(decs):
                v = self.call(d(fr), [v], {})
            st(fr, v)
        return run

    def s_Import(self, n, sc, mod):
        items = []
        for a in n.names:
            items.append((a.name, a.asname, self.name_store(a.asname or a.name.split('.')[0], sc, mod)))

        def run(fr):
            for name, asn, st in items:
                m = self.imp(name)
                if asn is None and '.' in name:
                    m = self.imp(name.split('.')[0])
                st(fr, m)
        return run

    def s_ImportFrom(self, n, sc, mod):
        base = mod.name
        if n.level:
            p = base.split('.')
            if not getattr(mod, 'ispkg', False):
                p = p[:-1]
            if n.level > 1:
                p = p[:-(n.level - 1)]
            base = '.'.join(p)
            full = base + ('.' + n.module if n.module else '')
        else:
            full = n.module
        items = [(a.name, self.name_store(a.asname or a.name, sc, mod) if a.name != '*' else None) for a in n.names]

        def run(fr):
            m = self.imp(full)
            for name, st in items:
                if name == '*':
                    for k, v in list(m.ns.items()):
                        if not k.startswith('_'):
                            fr.v[k] = v
                    continue
                if name in m.ns:
                    st(fr, m.ns[name])
                elif full.split('.')[0] in self.roots and self.resolve_path(full + '.' + name)[0]:
                    st(fr, self.load(full + '.' + name))
                elif full.split('.')[0] in self.roots:
                    self.err(ImportError, 'cannot import name %s' % name)
                else:
                    st(fr, Top('%s.%s' % (full, name)))
        return run

    def s_Raise(self, n, sc, mod):
        e = self.expr(n.exc, sc, mod) if n.exc else None

        def run(fr):
            if e is None:
                raise PyRaise(self.cur if self.cur is not None else ExcInst(RuntimeError, ('no active exception',)))
            v = e(fr)
            if v.__class__ is type or isinstance(v, Cls):
                v = self.call(v, [], {})
            raise PyRaise(v)
        return run

    def s_Assert(self, n, sc, mod):
        c = self.cond(n.test, sc, mod)
        msg = self.expr(n.msg, sc, mod) if n.msg else None

        def run(fr):
            if not c(fr):
                raise PyRaise(ExcInst(AssertionError, (msg(fr) if msg else '',)))
        return run

    def s_Delete(self, n, sc, mod):
        dels = []
        for t in n.targets:
            if isinstance(t, ast.Name):
                dels.append(('n', t.id, None))
            elif isinstance(t, ast.Subscript):
                dels.append(('s', self.expr(t.value, sc, mod), self.expr(t.slice, sc, mod)))
            else:
                dels.append(('a', self.expr(t.value, sc, mod), sc.mangle(t.attr)))

        def run(fr):
            for k, a, b in dels:
                if k == 'n':
                    fr.v.pop(a, None)
                elif k == 's':
                    o, i = a(fr), b(fr)
                    self.delitem(o, i)
                else:
                    o = a(fr)
                    if isinstance(o, Obj):
                        o.attrs.pop(b, None)
                    else:
                        raise Undetermined('del attribute')
        return run

    def match_exc(self, exc, t):
        if t.__class__ is tuple:
            return any(self.match_exc(exc, x) for x in t)
        if exc.__class__ is ExcInst:
            return isinstance(t, type) and issubclass(exc.cls, t)
        if isinstance(exc, Obj):
            return any(c is t or (isinstance(c, type) and isinstance(t, type) and issubclass(c, t)) for c in exc.cls.mro)
        raise Undetermined('exception value %r' % (exc,))

    def s_Try(self, n, sc, mod):
        body = self.block(n.body, sc, mod)
        hs = []
        for h in n.handlers:
            hs.append((self.expr(h.type, sc, mod) if h.type else None, self.name_store(h.name, sc, mod) if h.name else None,
                       self.block(h.body, sc, mod)))
        orelse = self.block(n.orelse, sc, mod) if n.orelse else None
        fin = self.block(n.finalbody, sc, mod) if n.finalbody else None

        def inner(fr):
            depth = len(self.stack)
            try:
                r = body(fr)
            except PyRaise as e:
                del self.stack[depth:]
                for t, st, code in hs:
                    if t is None or self.match_exc(e.exc, t(fr)):
                        if st:
                            st(fr, e.exc)
                        old = self.cur
                        self.cur = e.exc
                        try:
                            return code(fr)
                        finally:
                            self.cur = old
                raise
            if r is None and orelse:
                return orelse(fr)
            return r
        if fin is None:
            return inner

        def run(fr):
            depth = len(self.stack)
            try:
                r = inner(fr)
            except PyRaise:
                del self.stack[depth:]
                r2 = fin(fr)
                if r2 is not None:
                    return r2
                raise
            r2 = fin(fr)
            return r2 if r2 is not None else r
        return run

    def s_Match(self, n, sc, mod):
        subject = self.expr(n.subject, sc, mod)
        cases = [(self.pattern(c.pattern, sc, mod), self.cond(c.guard, sc, mod) if c.guard else None, self.block(c.body, sc, mod)) for c in n.cases]

        def run(fr):
            v = subject(fr)
            for p, g, body in cases:
                if p(fr, v) and (g is None or g(fr)):
                    return body(fr)
            return None
        return run

    def pattern(self, p, sc, mod):
        """matcher (frame, value) -> bool, binding captures"""
        k = p.__class__.__name__
        if k == 'MatchValue':
            e = self.expr(p.value, sc, mod)
            return lambda fr, v: self.eq(v, e(fr))
        if k == 'MatchSingleton':
            return lambda fr, v: self.compare('Is', v, p.value)
        if k == 'MatchAs':
            inner = self.pattern(p.pattern, sc, mod) if p.pattern else None
            st = self.name_store(p.name, sc, mod) if p.name else None

            def run(fr, v):
                if inner is not None and not inner(fr, v):
                    return False
                if st:
                    st(fr, v)
                return True
            return run
        if k == 'MatchOr':
            ps = [self.pattern(x, sc, mod) for x in p.patterns]
            consts = [x.value.value if x.__class__.__name__ == 'MatchValue' and isinstance(x.value, ast.Constant) else None for x in p.patterns]

            def run(fr, v):
                if v.__class__ is Lin and all(c.__class__ is int for c in consts):
                    return self.in_ints(v, consts)
                for q in ps:
                    if q(fr, v):
                        return True
                return False
            return run
        if k == 'MatchSequence':
            star = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            ps = [(self.name_store(x.name, sc, mod) if x.name else None) if isinstance(x, ast.MatchStar) else self.pattern(x, sc, mod) for x in p.patterns]

            def run(fr, v):
                if v.__class__ is Top:
                    raise Undetermined('match of unknown value')
                if v.__class__ is Obj and self.tupled(v) is not None:
                    v = self.tupled(v)
                if v.__class__ not in (PyList, tuple, Rng):
                    return False
                xs = self.iter_list(v)
                if star:
                    i = star[0]
                    after = len(ps) - i - 1
                    if len(xs) < len(ps) - 1:
                        return False
                    for q, x in list(zip(ps[:i], xs)) + list(zip(ps[i + 1:], xs[len(xs) - after:] if after else [])):
                        if not q(fr, x):
                            return False
                    if ps[i]:
                        ps[i](fr, PyList(xs[i:len(xs) - after]))
                    return True
                return len(xs) == len(ps) and all(q(fr, x) for q, x in zip(ps, xs))
            return run
        if k == 'MatchMapping':
            ks = [self.expr(x, sc, mod) for x in p.keys]
            ps = [self.pattern(x, sc, mod) for x in p.patterns]
            rest = self.name_store(p.rest, sc, mod) if p.rest else None

            def run(fr, v):
                if v.__class__ is Top:
                    raise Undetermined('match of unknown value')
                if v.__class__ is not PyDict:
                    return False
                seen = []
                for e, q in zip(ks, ps):
                    kk = self.dkey(v.d, e(fr))
                    if kk is MISSING or not q(fr, v.d[kk]):
                        return False
                    seen.append(kk)
                if rest:
                    rest(fr, PyDict({a: b for a, b in v.d.items() if a not in seen}))
                return True
            return run
        if k == 'MatchClass':
            from .pybuiltins import isinst
            c = self.expr(p.cls, sc, mod)
            ps = [self.pattern(x, sc, mod) for x in p.patterns]
            ks = [(a, self.pattern(x, sc, mod)) for a, x in zip(p.kwd_attrs, p.kwd_patterns)]

            def run(fr, v):
                t = c(fr)
                if not isinst(self, v, t):
                    return False
                if ps:
                    if t.__class__ is BType:
                        if not ps[0](fr, v):
                            return False
                    else:
                        names = t.lookup('__match_args__')
                        if names is MISSING:
                            names = t.lookup('!fields') if t.lookup('!fields') is not MISSING else t.lookup('!data')
                        if names is MISSING:
                            self.err(TypeError, 'class pattern without __match_args__')
                        for a, q in zip(names, ps):
                            if not q(fr, self.getattr(v, a)):
                                return False
                return all(q(fr, self.getattr(v, a)) for a, q in ks)
            return run
        raise Undetermined('pattern %s' % k)

    def s_With(self, n, sc, mod):
        items = [(self.expr(i.context_expr, sc, mod), self.target(i.optional_vars, sc, mod) if i.optional_vars else None) for i in n.items]
        body = self.block(n.body, sc, mod)

        def run(fr):
            opened = []
            for e, t in items:
                cm = e(fr)
                if cm.__class__ is LockObj:
                    self.lock_acquire(cm)
                    v = True
                elif cm.__class__ is Top:
                    raise Undetermined('with %s' % cm.why)
                else:
                    v = self.call(self.getattr(cm, '__enter__'), [], {})
                opened.append(cm)
                if t:
                    t(fr, v)
            depth = len(self.stack)
            try:
                r = body(fr)
            except PyRaise as ex:
                del self.stack[depth:]
                for cm in reversed(opened):
                    if cm.__class__ is LockObj:
                        self.lock_release(cm)
                    else:
                        sup = self.call(self.getattr(cm, '__exit__'), [ex.exc.cls if ex.exc.__class__ is ExcInst else ex.exc.cls, ex.exc, None], {})
                        if self.truth(sup):
                            return None
                raise
            for cm in reversed(opened):
                if cm.__class__ is LockObj:
                    self.lock_release(cm)
                else:
                    self.call(self.getattr(cm, '__exit__'), [None, None, None], {})
            return r
        return run

    # ------------------------------------------------------------------ locks
    def lock_acquire(self, l):
        if l.held and l.owner != self.thread:
            # the other thread would wait here: this schedule does not exist
            raise Infeasible()
        l.owner = self.thread
        if l.held and l.kind == 'Lock':
            self.events.append(('deadlock', l, self.where()))
            raise PyRaise(ExcInst(RuntimeError, ('deadlock: lock already held',)))
        l.held += 1
        if l not in self.locks:
            self.locks.append(l)

    def lock_release(self, l):
        if l.held <= 0:
            self.events.append(('release-unheld', l, self.where()))
            raise PyRaise(ExcInst(RuntimeError, ('release unlocked lock',)))
        l.held -= 1

    # ------------------------------------------------------------------ targets
    def name_store(self, name, sc, mod):
        name = sc.mangle(name)
        if sc.kind in ('module',):
            def st(fr, v):
                if not self.loading and fr.v is mod.ns:
                    self.events.append(('write', mod.name, name, self.where()))
                fr.v[name] = v
            return st
        if sc.kind == 'class':
            def st(fr, v):
                fr.v[name] = v
            return st
        if name in sc.globs:
            def st(fr, v):
                if not self.loading:
                    self.events.append(('write', mod.name, name, self.where()))
                mod.ns[name] = v
            return st
        if name in sc.names:
            def st(fr, v):
                fr.v[name] = v
            return st
        # nonlocal
        up, depth = sc.up, 1
        while up is not None and not (up.kind == 'function' and name in up.names):
            if up.kind == 'function':
                depth += 1
            up = up.up
        if up is None:
            def st(fr, v):
                fr.v[name] = v
            return st

        def st(fr, v):
            f = fr
            for _ in range(depth):
                f = f.up
            f.v[name] = v
        return st

    def name_load(self, name, sc, mod):
        name = sc.mangle(name)
        bi = self.builtins
        ns = mod.ns
        if sc.kind == 'function' and name in sc.names:
            def ld(fr):
                try:
                    return fr.v[name]
                except KeyError:
                    raise PyRaise(ExcInst(UnboundLocalError, (name,)))
            return ld
        if sc.kind == 'class':
            def ld(fr):
                v = fr.v.get(name, MISSING)
                if v is not MISSING:
                    return v
                f = fr.up
                while f is not None:
                    if name in f.v:
                        return f.v[name]
                    f = f.up
                return glob()
        else:
            up, depth = sc.up, 1
            while up is not None and not (up.kind == 'function' and name in up.names):
                if up.kind == 'function':
                    depth += 1
                up = up.up
            if up is not None and name not in sc.globs:
                def ld(fr):
                    f = fr
                    for _ in range(depth):
                        f = f.up
                    try:
                        return f.v[name]
                    except KeyError:
                        raise PyRaise(ExcInst(NameError, (name,)))
                return ld

            def ld(fr):
                return glob()

        def glob():
            v = ns.get(name, MISSING)
            if v is not MISSING:
                return v
            v = bi.get(name, MISSING)
            if v is not MISSING:
                return v
            if hasattr(__import__('builtins'), name):
                return Top('builtin %s' % name)
            raise PyRaise(ExcInst(NameError, ("name '%s' is not defined" % name,)))
        return ld

    def target(self, t, sc, mod):
        if isinstance(t, ast.Name):
            return self.name_store(t.id, sc, mod)
        if isinstance(t, ast.Attribute):
            o = self.expr(t.value, sc, mod)
            a = sc.mangle(t.attr)
            return lambda fr, v: self.setattr(o(fr), a, v)
        if isinstance(t, ast.Subscript):
            o = self.expr(t.value, sc, mod)
            i = self.expr(t.slice, sc, mod)
            return lambda fr, v: self.setitem(o(fr), i(fr), v)
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            ts = [self.target(e.value if isinstance(e, ast.Starred) else e, sc, mod) for e in t.elts]

            def run(fr, v):
                xs = self.iter_list(v)
                if star:
                    k = star[0]
                    after = len(ts) - k - 1
                    xs = xs[:k] + [PyList(xs[k:len(xs) - after])] + xs[len(xs) - after:]
                if len(xs) != len(ts):
                    self.err(ValueError, 'unpack mismatch')
                for a, x in zip(ts, xs):
                    a(fr, x)
            return run
        raise Undetermined('assignment target')

    # ------------------------------------------------------------------ expressions
    def expr(self, n, sc, mod):
        f = getattr(self, 'e_' + n.__class__.__name__, None)
        if f is None:
            nm = n.__class__.__name__

            def bad(fr):
                raise Undetermined('expression %s' % nm)
            return bad
        return f(n, sc, mod)

    def cond(self, n, sc, mod):
        if isinstance(n, ast.BoolOp):
            cs = [self.cond(v, sc, mod) for v in n.values]
            if isinstance(n.op, ast.And):
                def run(fr):
                    for c in cs:
                        if not c(fr):
                            return False
                    return True
            else:
                def run(fr):
                    for c in cs:
                        if c(fr):
                            return True
                    return False
            return run
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            c = self.cond(n.operand, sc, mod)
            return lambda fr: not c(fr)
        e = self.expr(n, sc, mod)

        def run1(fr):
            v = e(fr)
            if v is True or v is False:
                return v
            return self.truth(v)
        return run1

    def e_Constant(self, n, sc, mod):
        v = n.value
        return lambda fr: v

    def e_Name(self, n, sc, mod):
        return self.name_load(n.id, sc, mod)

    def e_Tuple(self, n, sc, mod):
        es = self.elts(n.elts, sc, mod)
        return lambda fr: tuple(es(fr))

    def e_List(self, n, sc, mod):
        es = self.elts(n.elts, sc, mod)
        return lambda fr: PyList(es(fr))

    def e_Set(self, n, sc, mod):
        es = self.elts(n.elts, sc, mod)
        return lambda fr: self.mkset(es(fr))

    def elts(self, xs, sc, mod):
        if not any(isinstance(x, ast.Starred) for x in xs):
            es = [self.expr(x, sc, mod) for x in xs]
            return lambda fr: [e(fr) for e in es]
        es = [(isinstance(x, ast.Starred), self.expr(x.value if isinstance(x, ast.Starred) else x, sc, mod)) for x in xs]

        def run(fr):
            out = []
            for st, e in es:
                if st:
                    out.extend(self.iter_list(e(fr)))
                else:
                    out.append(e(fr))
            return out
        return run

    def e_Dict(self, n, sc, mod):
        ks = [(self.expr(k, sc, mod) if k is not None else None, self.expr(v, sc, mod)) for k, v in zip(n.keys, n.values)]

        def run(fr):
            d = {}
            for k, v in ks:
                if k is None:
                    d.update(v(fr).d)
                else:
                    kk = self.skey(d, k(fr))
                    d[kk] = v(fr)
            return PyDict(d)
        return run

    def e_BoolOp(self, n, sc, mod):
        es = [self.expr(v, sc, mod) for v in n.values]
        isand = isinstance(n.op, ast.And)

        def run(fr):
            v = None
            for e in es:
                v = e(fr)
                t = v if (v is True or v is False) else self.truth(v)
                if t != isand:
                    return v
            return v
        return run

    def e_UnaryOp(self, n, sc, mod):
        e = self.expr(n.operand, sc, mod)
        op = n.op.__class__.__name__
        if op == 'Not':
            return lambda fr: not self.truth(e(fr))

        def run(fr):
            v = e(fr)
            if v.__class__ is Lin:
                if op == 'USub':
                    return self.neg(v)
                if op == 'UAdd':
                    return v
                return self.sub(self.neg(v), 1)
            if v.__class__ is Top:
                return v
            if v.__class__ in (int, float, bool):
                return -v if op == 'USub' else +v if op == 'UAdd' else ~v
            if v.__class__ is PyList or v.__class__ is str or v is None or v.__class__ is Obj:
                self.err(TypeError, 'bad operand type for unary')
            raise Undetermined('unary %s' % op)
        return run

    def e_BinOp(self, n, sc, mod):
        a = self.expr(n.left, sc, mod)
        b = self.expr(n.right, sc, mod)
        op = n.op.__class__.__name__
        bo = self.binop
        if op == 'Add':
            def run(fr):
                x = a(fr)
                y = b(fr)
                if x.__class__ is int and y.__class__ is int:
                    return x + y
                return bo('Add', x, y)
            return run
        return lambda fr: bo(op, a(fr), b(fr))

    def e_IfExp(self, n, sc, mod):
        c = self.cond(n.test, sc, mod)
        a = self.expr(n.body, sc, mod)
        b = self.expr(n.orelse, sc, mod)
        return lambda fr: a(fr) if c(fr) else b(fr)

    def e_Compare(self, n, sc, mod):
        l = self.expr(n.left, sc, mod)
        rs = [(o.__class__.__name__, self.expr(c, sc, mod)) for o, c in zip(n.ops, n.comparators)]
        if len(rs) == 1:
            op, r = rs[0]
            return lambda fr: self.compare(op, l(fr), r(fr))

        def run(fr):
            a = l(fr)
            for op, r in rs:
                b = r(fr)
                v = self.compare(op, a, b)
                if not (v if v.__class__ is bool else self.truth(v)):
                    return False
                a = b
            return True
        return run

    def e_Attribute(self, n, sc, mod):
        o = self.expr(n.value, sc, mod)
        a = sc.mangle(n.attr)
        return lambda fr: self.getattr(o(fr), a)

    def e_Subscript(self, n, sc, mod):
        o = self.expr(n.value, sc, mod)
        if isinstance(n.slice, ast.Slice):
            ps = [self.expr(x, sc, mod) if x is not None else (lambda fr: None) for x in (n.slice.lower, n.slice.upper, n.slice.step)]
            return lambda fr: self.getslice(o(fr), ps[0](fr), ps[1](fr), ps[2](fr))
        i = self.expr(n.slice, sc, mod)
        return lambda fr: self.getitem(o(fr), i(fr))

    def e_Slice(self, n, sc, mod):
        ps = [self.expr(x, sc, mod) if x is not None else (lambda fr: None) for x in (n.lower, n.upper, n.step)]
        return lambda fr: slice(ps[0](fr), ps[1](fr), ps[2](fr))

    def e_Call(self, n, sc, mod):
        args = [(isinstance(a, ast.Starred), self.expr(a.value if isinstance(a, ast.Starred) else a, sc, mod)) for a in n.args]
        kws = [(k.arg, self.expr(k.value, sc, mod)) for k in n.keywords]
        simple = not any(s for s, _ in args) and not kws
        es = [e for _, e in args]
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            def sup(fr):
                f = fr
                while f.fn is None or f.fn.cls is None:
                    f = f.up
                slf = next(iter(f.v.values()))
                c = None
                for k in (slf.cls.mro if isinstance(slf, Obj) else slf.mro):
                    if isinstance(k, Cls) and k.name == f.fn.cls:
                        c = k
                return ('super', c, slf)
            return sup
        f = self.expr(n.func, sc, mod)
        call = self.call
        if simple:
            def run(fr):
                fn = f(fr)
                return call(fn, [e(fr) for e in es], {})
            return run

        def run2(fr):
            fn = f(fr)
            av = []
            for s, e in args:
                if s:
                    av.extend(self.iter_list(e(fr)))
                else:
                    av.append(e(fr))
            kv = {}
            for k, e in kws:
                if k is None:
                    kv.update(e(fr).d)
                else:
                    kv[k] = e(fr)
            return call(fn, av, kv)
        return run2

    def e_Lambda(self, n, sc, mod):
        return self.funcdef(n, sc, mod, True)

    def e_JoinedStr(self, n, sc, mod):
        ps = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                ps.append((v.value, None, None, None))
            else:
                spec = self.expr(v.format_spec, sc, mod) if v.format_spec else None
                ps.append((None, self.expr(v.value, sc, mod), v.conversion, spec))

        def run(fr):
            out = []
            for c, e, conv, spec in ps:
                if c is not None:
                    out.append(c)
                    continue
                v = e(fr)
                if conv in (114, 97):
                    v = self.str_of(v, True)
                elif conv == 115:
                    v = self.str_of(v)
                sp = spec(fr) if spec else ''
                s = S.format_spec(self, v, sp)
                if s.__class__ is Top:
                    return s
                out.extend(S.parts(s))
            return S.mk(self, out)
        return run

    def e_FormattedValue(self, n, sc, mod):
        return self.e_JoinedStr(ast.JoinedStr([n]), sc, mod)

    def e_NamedExpr(self, n, sc, mod):
        e = self.expr(n.value, sc, mod)
        s = sc
        hops = 0
        while getattr(s, 'comp', False):
            s = s.up
            hops += 1
        st = self.name_store(n.target.id, s, mod)

        def run(fr):
            v = e(fr)
            f = fr
            for _ in range(hops):
                f = f.up
            st(f, v)
            return v
        return run

    def comp(self, n, sc, mod, elts):
        names = set()

        def tg(t):
            for x in ast.walk(t):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        for g in n.generators:
            tg(g.target)
        nsc = Scope('function', sc, names, sc.cls)
        nsc.comp = True
        gens = []
        for i, g in enumerate(n.generators):
            gens.append((self.expr(g.iter, sc if i == 0 else nsc, mod), self.target(g.target, nsc, mod), [self.cond(c, nsc, mod) for c in g.ifs]))
        es = [self.expr(e, nsc, mod) for e in elts]
        inclass = sc.kind == 'class'
        ismod = sc.kind == 'module'

        def gen(fr):
            f = Frame({}, fr, fr.fn)

            def rec(i):
                it, t, ifs = gens[i]
                for x in self.iterate(it(fr if i == 0 else f)):
                    self.tick()
                    t(f, x)
                    ok = True
                    for c in ifs:
                        if not c(f):
                            ok = False
                            break
                    if not ok:
                        continue
                    if i + 1 < len(gens):
                        for y in rec(i + 1):
                            yield y
                    else:
                        yield [e(f) for e in es]
            return rec(0)
        return gen

    def e_ListComp(self, n, sc, mod):
        g = self.comp(n, sc, mod, [n.elt])
        return lambda fr: PyList([x[0] for x in g(fr)])

    def e_SetComp(self, n, sc, mod):
        g = self.comp(n, sc, mod, [n.elt])
        return lambda fr: self.mkset(x[0] for x in g(fr))

    def e_GeneratorExp(self, n, sc, mod):
        g = self.comp(n, sc, mod, [n.elt])
        return lambda fr: It(x[0] for x in g(fr))

    def e_DictComp(self, n, sc, mod):
        g = self.comp(n, sc, mod, [n.key, n.value])

        def run(fr):
            d = {}
            for k, v in g(fr):
                d[self.skey(d, k)] = v
            return PyDict(d)
        return run

    def e_Yield(self, n, sc, mod):
        e = self.expr(n.value, sc, mod) if n.value else (lambda fr: None)

        def run(fr):
            f = fr
            while f.yields is None:
                f = f.up
            f.yields.append(e(fr))
            if len(f.yields) > 20000:
                raise Undetermined('unbounded generator')
        return run

    def e_YieldFrom(self, n, sc, mod):
        e = self.expr(n.value, sc, mod)

        def run(fr):
            f = fr
            while f.yields is None:
                f = f.up
            for x in self.iterate(e(fr)):
                f.yields.append(x)
        return run

    def e_Starred(self, n, sc, mod):
        raise Undetermined('starred')

    # ------------------------------------------------------------------ semantics: calls
    def call(self, fn, args, kw):
        c = fn.__class__
        if c is Bound:
            return self.call(fn.fn, [fn.self] + args, kw)
        if c is Func:
            return self.call_func(fn, args, kw)
        if c is Builtin:
            return fn.fn(args, kw)
        if c is BType:
            return fn.fn(args, kw)
        if c is Cls:
            return self.instantiate(fn, args, kw)
        if c is Static or c is ClassM:
            return self.call(fn.fn, args, kw)
        if c is type and issubclass(fn, BaseException):
            return ExcInst(fn, tuple(args))
        if c is Top:
            raise Undetermined('call of unknown value: %s' % fn.why)
        if c is Obj:
            m = fn.cls.lookup('__call__')
            if m is not MISSING:
                return self.call(m, [fn] + args, kw)
        if fn is None or c in (int, str, float, bool, PyList, PyDict, tuple, Obj, Lin, SStr):
            self.err(TypeError, 'object is not callable')
        raise Undetermined('call of %r' % (fn,))

    def instantiate(self, cls, args, kw):
        new = cls.lookup('__new__')
        o = None
        if new is not MISSING:
            f = new.fn if new.__class__ in (Static, ClassM) else new
            o = self.call(f, [cls] + args, kw)
            if not (isinstance(o, Obj) and cls in o.cls.mro):
                return o
        if o is None:
            o = Obj(cls)
        init = cls.lookup('__init__')
        if init is not MISSING:
            self.call(init, [o] + args, kw)
        elif any(not isinstance(b, Cls) for b in cls.mro):
            o.attrs['args'] = tuple(args)
        elif args or kw:
            self.err(TypeError, '%s() takes no arguments' % cls.name)
        return o

    def bind(self, fn, args, kw):
        a = fn.args
        pos = a.posonlyargs + a.args
        v = {}
        n = len(pos)
        na = len(args)
        if na > n:
            if a.vararg is None:
                self.err(TypeError, '%s() takes %d positional arguments but %d were given' % (fn.qual, n, na))
            v[a.vararg.arg] = tuple(args[n:])
        elif a.vararg is not None:
            v[a.vararg.arg] = ()
        for p, x in zip(pos, args):
            v[p.arg] = x
        if kw:
            names = set(p.arg for p in a.args) | set(p.arg for p in a.kwonlyargs)
            extra = {}
            for k, x in kw.items():
                if k in names:
                    if k in v:
                        self.err(TypeError, 'multiple values for argument %s' % k)
                    v[k] = x
                elif a.kwarg is not None:
                    extra[k] = x
                else:
                    self.err(TypeError, '%s() got an unexpected keyword argument %s' % (fn.qual, k))
            if a.kwarg is not None:
                v[a.kwarg.arg] = PyDict(extra)
        elif a.kwarg is not None:
            v[a.kwarg.arg] = PyDict({})
        if na < n:
            d0 = n - len(fn.defaults)
            for i in range(na, n):
                nm = pos[i].arg
                if nm not in v:
                    if i >= d0:
                        v[nm] = fn.defaults[i - d0]
                    else:
                        self.err(TypeError, '%s() missing required argument %s' % (fn.qual, nm))
        for p in a.kwonlyargs:
            if p.arg not in v:
                if p.arg in fn.kwdefaults:
                    v[p.arg] = fn.kwdefaults[p.arg]
                else:
                    self.err(TypeError, 'missing keyword-only argument')
        return v

    def call_func(self, fn, args, kw):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Undetermined('step budget')
        if len(self.stack) > 180:
            raise Undetermined('call depth')
        v = self.bind(fn, args, kw)
        self.cover.add((fn.module.name, fn.qual))
        if self.inject is not None:
            self.inject(self, fn)
        fr = Frame(v, fn.frame, fn)
        if fn.isgen:
            return It(self._gen(fn, fr))
        self.stack.append(fn)
        r = fn.body(fr)
        self.stack.pop()
        if r is None:
            return None
        return r.v

    def _gen(self, fn, fr):
        if fn.isgen == 'endless':
            from .coroutine import Coroutine
            for x in Coroutine(self, fn, fr):
                yield x
            return
        fr.yields = []
        self.stack.append(fn)
        fn.body(fr)
        self.stack.pop()
        for x in fr.yields:
            yield x

    # ------------------------------------------------------------------ attributes
    def getattr(self, o, a):
        c = o.__class__
        if c is Obj:
            v = o.attrs.get(a, MISSING)
            if v is not MISSING:
                return v
            v = o.cls.lookup(a)
            if v is MISSING:
                if a == '__class__':
                    return o.cls
                if a == '__dict__':
                    return PyDict(o.attrs)
                ga = o.cls.lookup('__getattr__')
                if ga is not MISSING:
                    return self.call(ga, [o, a], {})
                if any(not isinstance(b, Cls) for b in o.cls.mro):
                    raise Undetermined('exception attribute %s' % a)
                self.err(AttributeError, "'%s' object has no attribute '%s'" % (o.cls.name, a))
            vc = v.__class__
            if vc is Func:
                return Bound(v, o)
            if vc is Static:
                return v.fn
            if vc is ClassM:
                return Bound(v.fn, o.cls)
            if vc is Prop:
                return self.call(v.fget, [o], {})
            if vc is Obj and v.cls.lookup('__get__') is not MISSING:
                return self.call(v.cls.lookup('__get__'), [v, o, o.cls], {})
            if vc is Builtin and getattr(v, 'name', '').startswith('method:'):
                return Bound(v, o)
            if o.cls.static:
                self.note_read(o.cls, a)
            return v
        if c is Cls:
            v = o.lookup(a)
            if v is MISSING:
                if a == '__name__':
                    return o.name
                if a == '__dict__':
                    raise Undetermined('__dict__')
                self.err(AttributeError, "type object '%s' has no attribute '%s'" % (o.name, a))
            vc = v.__class__
            if vc is Static:
                return v.fn
            if vc is ClassM:
                return Bound(v.fn, o)
            if vc is Obj and v.cls.lookup('__get__') is not MISSING:
                return self.call(v.cls.lookup('__get__'), [v, None, o], {})
            if o.static:
                self.note_read(o, a)
            return v
        if c is Module:
            v = o.ns.get(a, MISSING)
            if v is MISSING:
                if o.path is None:
                    return Top('%s.%s' % (o.name, a))
                self.err(AttributeError, 'module %s has no attribute %s' % (o.name, a))
            return v
        if c is Top:
            return Top(o.why)
        if c is tuple and len(o) == 3 and o[0] == 'super':
            _, k, slf = o
            m = (slf.cls if isinstance(slf, Obj) else slf).mro
            for b in m[m.index(k) + 1:]:
                if isinstance(b, Cls) and a in b.ns:
                    v = b.ns[a]
                    if v.__class__ is Func:
                        return Bound(v, slf)
                    return v.fn if v.__class__ is Static else v
            if a == '__init__' or a == '__init_subclass__':
                return Builtin('object.__init__', lambda ar, k: None)
            if a == '__setattr__':
                return Builtin('object.__setattr__', lambda ar, k: slf.attrs.__setitem__(ar[0], ar[1]))
            if a == '__new__':
                return Builtin('object.__new__', lambda ar, k: Obj(ar[0]))
            self.err(AttributeError, a)
        from .pybuiltins import method
        return method(self, o, a)

    def note_read(self, cls, a):
        pass

    def setattr(self, o, a, v):
        c = o.__class__
        if c is Obj:
            if not self.loading and o.static:
                self.events.append(('write', o.cls.name + ' instance', a, self.where()))
            p = o.cls.lookup(a)
            if p.__class__ is Prop and p.fset is not None:
                self.call(p.fset, [o, v], {})
                return
            if p.__class__ is Obj and p.cls.lookup('__set__') is not MISSING:
                self.call(p.cls.lookup('__set__'), [p, o, v], {})
                return
            p = o.cls.lookup('__setattr__')
            if p is not MISSING:
                self.call(p, [o, a, v], {})
                return
            o.attrs[a] = v
        elif c is Cls:
            if not self.loading and o.static:
                self.events.append(('write', o.name, a, self.where()))
                self.class_write(o, a, v)
            o.ns[a] = v
        elif c is Module:
            if not self.loading:
                self.events.append(('write', o.name, a, self.where()))
            o.ns[a] = v
        elif c is Func:
            if o.attrs is None:
                o.attrs = {}
                self.static_objs.append((o, {}))
            o.attrs[a] = v
            if not self.loading:
                self.events.append(('write', o.qual, a, self.where()))
        elif c is Top:
            raise Undetermined('attribute store on unknown value')
        else:
            self.err(AttributeError, 'cannot set attribute %s' % a)

    def class_write(self, cls, a, v):
        pass

    def mutated(self, o, how):
        if o.static and not self.loading:
            self.events.append(('mutate', o, how, self.where()))

    # ------------------------------------------------------------------ truth / keys / strings
    def truth(self, v):
        c = v.__class__
        if c is bool:
            return v
        if v is None:
            return False
        if c is Lin:
            return self.sign(v, '!=')
        if c in (int, float, str):
            return bool(v)
        if c is SStr:
            return True
        if c is PyList:
            return len(v.items) > 0
        if c is tuple:
            return len(v) > 0
        if c is PyDict:
            return len(v.d) > 0
        if c is PySet:
            return len(v.s) > 0
        if c is Top:
            raise Undetermined('branch on unknown value: %s' % v.why)
        if c is Obj:
            m = v.cls.lookup('__bool__')
            if m is not MISSING:
                return self.truth(self.call(m, [v], {}))
            m = v.cls.lookup('__len__')
            if m is not MISSING:
                return self.truth(self.call(m, [v], {}))
            return True
        if c is Rng:
            return self.truth(self.length(v))
        return True

    def key(self, v):
        """hashable concrete key"""
        c = v.__class__
        if c in (int, str, bool, float) or v is None:
            return v
        if c is Lin:
            return self.enum(v)
        if c is SStr:
            return S.enum_str(self, v)
        if c is tuple:
            return tuple(self.key(x) for x in v)
        if c in (Obj, Cls, Func, type, BType, Bound):
            if c is Obj and v.cls.lookup('__eq__') is not MISSING:
                if self.tupled(v) is not None:
                    return self.key(self.tupled(v))
                raise Undetermined('hash of object with __eq__')
            return v
        if c in (PyList, PyDict, PySet):
            if c is PySet and v.frozen:
                return frozenset(v.s)
            self.err(TypeError, 'unhashable type')
        raise Undetermined('key %r' % (v,))

    def str_of(self, v, rep=False):
        c = v.__class__
        if c is str:
            return repr(v) if rep else v
        if c is SStr:
            return S.mk(self, ["'"] + v.p + ["'"]) if rep else v
        if c in (int, bool, float) or v is None:
            return str(v)
        if c is Lin:
            if v.f:
                k = self.const_of(v)
                if k is None:
                    return Top('text of a float')
                return str(k)
            return S.dec(self, v)
        if c is Obj:
            m = MISSING
            if rep:
                m = v.cls.lookup('__repr__')
            else:
                m = v.cls.lookup('__str__')
                if m is MISSING:
                    m = v.cls.lookup('__repr__')
            if m is not MISSING:
                return self.call(m, [v], {})
            return Top('default object text')
        if c is Top:
            return v
        if c in (PyList, tuple):
            xs = v.items if c is PyList else v
            out = ['[' if c is PyList else '(']
            for i, x in enumerate(xs):
                if i:
                    out.append(', ')
                s = self.str_of(x, True)
                if s.__class__ is Top:
                    return s
                out.extend(S.parts(s))
            if c is tuple and len(xs) == 1:
                out.append(',')
            out.append(']' if c is PyList else ')')
            return S.mk(self, out)
        if c is ExcInst:
            return self.str_of(v.args[0]) if v.args else ''
        return Top('text of %s' % c.__name__)

    # ------------------------------------------------------------------ operators
    NUMT = (int, float, bool, Lin)

    def isnum(self, v):
        return v.__class__ in self.NUMT

    _OPN = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Mod': '__mod__', 'FloorDiv': '__floordiv__', 'Div': '__truediv__'}

    def binop(self, op, a, b):
        ca, cb = a.__class__, b.__class__
        if ca is Top:
            return a
        if cb is Top:
            return b
        na, nb = ca in self.NUMT, cb in self.NUMT
        if na and nb:
            if ca is not Lin and cb is not Lin:
                try:
                    if op == 'Add':
                        return a + b
                    if op == 'Sub':
                        return a - b
                    if op == 'Mult':
                        return a * b
                    if op == 'Mod':
                        return a % b
                    if op == 'FloorDiv':
                        return a // b
                    if op == 'Div':
                        return a / b
                    if op == 'Pow':
                        return a ** b
                    if op == 'BitAnd':
                        return a & b
                    if op == 'BitOr':
                        return a | b
                    if op == 'BitXor':
                        return a ^ b
                    if op == 'LShift':
                        return a << b
                    if op == 'RShift':
                        return a >> b
                except ZeroDivisionError:
                    self.err(ZeroDivisionError, 'division by zero')
                except TypeError:
                    self.err(TypeError, 'unsupported operand')
                except OverflowError:
                    self.err(OverflowError, 'overflow')
                raise Undetermined('operator %s' % op)
            if ca is float and (a != a or a in (float('inf'), float('-inf'))) or cb is float and (b != b or b in (float('inf'), float('-inf'))):
                raise Undetermined('non-finite float')
            if op == 'Add':
                return self.add(a, b)
            if op == 'Sub':
                return self.sub(a, b)
            if op == 'Mult':
                return self.mul(a, b)
            if op in ('Mod', 'FloorDiv', 'Div'):
                if cb is Lin:
                    k = self.const_of(b)
                    if k is None:
                        if self.cmp(b, 0, '=='):
                            self.err(ZeroDivisionError, 'division by zero')
                        k = self.enum(b, 400)
                    b = k
                if b == 0:
                    self.err(ZeroDivisionError, 'division by zero')
                return self.mod(a, b) if op == 'Mod' else self.floordiv(a, b) if op == 'FloorDiv' else self.truediv(a, b)
            if op == 'BitAnd' and cb is int and b >= 0 and (b & (b + 1)) == 0:
                return self.mod(a, b + 1)
            if op == 'RShift' and cb is int:
                return self.floordiv(a, 1 << b)
            if op == 'LShift' and cb is int:
                return self.mul(a, 1 << b)
            return self.binop(op, self.enum(a) if ca is Lin else a, self.enum(b) if cb is Lin else b)
        if op == 'Add':
            if ca in (str, SStr) and cb in (str, SStr):
                if ca is str and cb is str:
                    return a + b
                return S.mk(self, S.parts(a) + S.parts(b))
            if ca is PyList and cb is PyList:
                return PyList(a.items + b.items)
            if ca is tuple and cb is tuple:
                return a + b
        elif op == 'Mod' and ca in (str, SStr):
            return S.percent(self, a, b)
        elif op == 'Mult':
            if nb and not na:
                a, b, ca, cb = b, a, cb, ca
                na, nb = nb, na
            if na:
                k = self.enum(a) if ca is Lin else a
                if cb is str:
                    return b * k
                if cb is SStr:
                    return S.mk(self, b.p * k)
                if cb is PyList:
                    return PyList(b.items * k)
                if cb is tuple:
                    return b * k
        elif ca is PySet and cb is PySet:
            if op == 'BitOr':
                return PySet(a.s | b.s)
            if op == 'BitAnd':
                return PySet(a.s & b.s)
            if op == 'Sub':
                return PySet(a.s - b.s)
        elif op == 'BitOr' and ca is PyDict and cb is PyDict:
            d = dict(a.d)
            d.update(b.d)
            return PyDict(d)
        if ca is Obj:
            m = a.cls.lookup(self._OPN.get(op, '?'))
            if m is not MISSING:
                return self.call(m, [a, b], {})
        if cb is Obj:
            m = b.cls.lookup(self._OPN.get(op, '?').replace('__', '__r', 1))
            if m is not MISSING:
                return self.call(m, [b, a], {})
        known = (int, float, bool, Lin, str, SStr, PyList, tuple, PyDict, PySet, Obj, type(None))
        if ca in known and cb in known:
            self.err(TypeError, 'unsupported operand types for %s: %s and %s' % (op, self.tname(a), self.tname(b)))
        raise Undetermined('operator %s on %r, %r' % (op, a, b))

    def tname(self, v):
        c = v.__class__
        return {Lin: 'int', SStr: 'str', PyList: 'list', PyDict: 'dict', PySet: 'set'}.get(c, v.cls.name if c is Obj else c.__name__)

    def eq(self, a, b):
        ca, cb = a.__class__, b.__class__
        if ca is Top or cb is Top:
            raise Undetermined('comparison with unknown value: %s' % (a.why if ca is Top else b.why))
        na, nb = ca in self.NUMT, cb in self.NUMT
        if na and nb:
            if ca is Lin or cb is Lin:
                return self.cmp(a, b, '==')
            return a == b
        sa, sb = ca is str or ca is SStr, cb is str or cb is SStr
        if sa and sb:
            if ca is str and cb is str:
                return a == b
            return S.equal(self, a, b)
        if ca is PyList and cb is PyList:
            return self.seq_eq(a.items, b.items)
        if ca is tuple and cb is tuple:
            return self.seq_eq(a, b)
        if ca is Obj:
            if a is b:
                return True
            m = a.cls.lookup('__eq__')
            if m is not MISSING:
                return self.truth(self.call(m, [a, b], {}))
            if cb is Obj:
                m = b.cls.lookup('__eq__')
                if m is not MISSING:
                    return self.truth(self.call(m, [b, a], {}))
            return False
        if ca is PyDict and cb is PyDict:
            if self.symkeys and any(k.__class__ is SymKey for k in list(a.d) + list(b.d)):
                if len(a.d) != len(b.d):
                    return False
                for k in a.d:
                    j = self.dkey(b.d, unkey(k))
                    if j is MISSING or not self.eq(a.d[k], b.d[j]):
                        return False
                return True
            if set(a.d) != set(b.d):
                return False
            return all(self.eq(a.d[k], b.d[k]) for k in a.d)
        if ca is PySet and cb is PySet:
            if self.symkeys and any(k.__class__ is SymKey for k in list(a.s) + list(b.s)):
                return len(a.s) == len(b.s) and all(self.dkey(b.s, unkey(k)) is not MISSING for k in a.s)
            return a.s == b.s
        if ca is Rng and cb is Rng:
            return self.seq_eq(list(self.iterate(a)), list(self.iterate(b)))
        return a is b

    def seq_eq(self, a, b):
        if len(a) != len(b):
            return False
        pend = []
        for x, y in zip(a, b):
            if x.__class__ is Lin or y.__class__ is Lin:
                pend.append((x, y))
            elif not self.eq(x, y):
                return False
        for x, y in pend:
            if not self.eq(x, y):
                return False
        return True

    _CM = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}
    _CMN = {'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}
    _SW = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}

    def compare(self, op, a, b):
        ca, cb = a.__class__, b.__class__
        if op == 'Eq':
            return self.eq(a, b)
        if op == 'NotEq':
            return not self.eq(a, b)
        if op == 'Is' or op == 'IsNot':
            if ca is Top or cb is Top:
                if a is None or b is None or ca is Top and cb is Top:
                    raise Undetermined('identity of unknown value')
                r = False
            elif ca is Lin and cb in self.NUMT or cb is Lin and ca in self.NUMT:
                r = self.cmp(a, b, '==')
            elif ca in (int, float, str, bool) and cb is ca:
                r = a == b
            else:
                r = a is b or (ca is tuple and a == () and b == ())
            return r if op == 'Is' else not r
        if op == 'In':
            return self.contains(b, a)
        if op == 'NotIn':
            return not self.contains(b, a)
        # ordering
        if ca is Top or cb is Top:
            raise Undetermined('comparison with unknown value: %s' % (a.why if ca is Top else b.why))
        na, nb = ca in self.NUMT, cb in self.NUMT
        if na and nb:
            if ca is Lin or cb is Lin:
                return self.cmp(a, b, self._CM[op])
            return a < b if op == 'Lt' else a <= b if op == 'LtE' else a > b if op == 'Gt' else a >= b
        sa, sb = ca in (str, SStr), cb in (str, SStr)
        if sa and sb:
            if op == 'Lt':
                return S.less(self, a, b, False)
            if op == 'LtE':
                return S.less(self, a, b, True)
            if op == 'Gt':
                return S.less(self, b, a, False)
            return S.less(self, b, a, True)
        if (ca is tuple and cb is tuple) or (ca is PyList and cb is PyList):
            xs = a if ca is tuple else a.items
            ys = b if cb is tuple else b.items
            prs = list(zip(xs, ys))
            if all(self.isnum(x) and self.isnum(y) for x, y in prs):
                prs = self.date_pairs(prs)
            for x, y in prs:
                if self.eq(x, y):
                    continue
                return self.compare(op, x, y)
            n, m = len(xs), len(ys)
            return n < m if op == 'Lt' else n <= m if op == 'LtE' else n > m if op == 'Gt' else n >= m
        if ca is Obj:
            m = a.cls.lookup(self._CMN[op])
            if m is not MISSING:
                return self.truth(self.call(m, [a, b], {}))
        if cb is Obj:
            m = b.cls.lookup(self._CMN[self._SW[op]])
            if m is not MISSING:
                return self.truth(self.call(m, [b, a], {}))
        if ca is PySet and cb is PySet:
            return a.s < b.s if op == 'Lt' else a.s <= b.s if op == 'LtE' else a.s > b.s if op == 'Gt' else a.s >= b.s
        known = (int, float, bool, Lin, str, SStr, PyList, tuple, PyDict, Obj, type(None))
        if ca in known and cb in known:
            self.err(TypeError, "'%s' not supported between instances of '%s' and '%s'" % (self._CM[op], self.tname(a), self.tname(b)))
        raise Undetermined('comparison %r %s %r' % (a, op, b))

    def contains(self, cont, x):
        c = cont.__class__
        if c is Top or x.__class__ is Top:
            raise Undetermined('membership in unknown value')
        if c is PyDict:
            return self.dkey(cont.d, x) is not MISSING
        if c is PySet:
            return self.dkey(cont.s, x) is not MISSING
        if c in (str, SStr):
            if x.__class__ not in (str, SStr):
                self.err(TypeError, "'in <string>' requires string as left operand")
            return S.contains(self, cont, x)
        if c in (PyList, tuple):
            if x.__class__ is Lin:
                xs = cont.items if c is PyList else cont
                if xs and all(y.__class__ is int for y in xs):
                    return self.in_ints(x, xs)
            for y in (cont.items if c is PyList else cont):
                if y is x or self.eq(y, x):
                    return True
            return False
        if c is Rng:
            lo, hi, s = cont.a, cont.b, cont.s
            if s == 1:
                return self.isnum(x) and self.compare('GtE', x, lo) and self.compare('Lt', x, hi)
            for y in self.iterate(cont):
                if self.eq(x, y):
                    return True
            return False
        if c is Obj:
            m = cont.cls.lookup('__contains__')
            if m is not MISSING:
                return self.truth(self.call(m, [cont, x], {}))
        if c is It:
            for y in self.iterate(cont):
                if self.eq(y, x):
                    return True
            return False
        if cont is None or c in (int, float, Lin):
            self.err(TypeError, "argument is not iterable")
        raise Undetermined('membership in %r' % (cont,))

    def symbolic(self, v):
        """a key too large to be enumerated"""
        c = v.__class__
        if c is Lin:
            if self.const_of(v) is not None:
                return False
            lo, hi = self.st.bounds(v)
            return hi - lo >= self.ENUM
        if c is SStr:
            n = 1
            for p in v.p:
                if p.__class__ is not str:
                    x = p[0]
                    if self.symbolic(x):
                        return True
                    if x.__class__ is Lin and self.const_of(x) is None:
                        lo, hi = self.st.bounds(x)
                        n *= hi - lo + 1
            return n > 400
        if c is tuple:
            return any(self.symbolic(x) for x in v)
        if c is Obj:
            return self.tupled(v) is not None and self.symbolic(self.tupled(v))
        return False

    def tupled(self, o):
        """the fields of a named tuple, else None"""
        f = o.cls.lookup('!fields')
        return None if f is MISSING else tuple(o.attrs[n] for n in f)

    def dkey(self, d, x):
        """the key of d (a native dict or set) equal to x, or MISSING"""
        if self.symbolic(x):
            if x.__class__ is Obj:
                x = self.tupled(x)
            c = (str, SStr) if x.__class__ is SStr else (int, float) if x.__class__ is Lin else (tuple,)
            cand = []
            for k in d:
                u = unkey(k)
                if u.__class__ in c or u.__class__ is x.__class__:
                    if u.__class__ is int and not self._nokey(x, (u,)) or u.__class__ is not int:
                        if u.__class__ is tuple and len(u) != len(x) or u.__class__ is str and len(u) != S.length(x):
                            continue
                        cand.append((k, u))
            if len(cand) > 64:
                self.key(x)
                raise Undetermined('symbolic key in a table of %d keys' % len(cand))
            for k, u in cand:
                if k.__class__ is SymKey and self.same(u, x):
                    return k
            for k, u in cand:
                if self.eq(u, x):
                    return k
            return MISSING
        if self._nokey(x, d):
            k = MISSING
        else:
            k = self.key(x)
            if k in d:
                return k
        if self.symkeys:
            y = x if k is MISSING else k
            for s in d:
                if s.__class__ is SymKey and (s.v.__class__ is y.__class__ or s.v.__class__ is Lin and y.__class__ is int or s.v.__class__ is SStr and y.__class__ is str) and self.eq(s.v, y):
                    return s
        return MISSING

    def same(self, a, b):
        """structurally the same value"""
        if a is b:
            return True
        if a.__class__ is not b.__class__:
            return False
        if a.__class__ is Lin:
            d = self.sub(a, b)
            return d.__class__ is not Lin and d == 0 or d.__class__ is Lin and self.const_of(d) == 0
        if a.__class__ is SStr:
            return len(a.p) == len(b.p) and all(p == q if p.__class__ is str or q.__class__ is str else p[1] == q[1] and self.same(p[0], q[0]) for p, q in zip(a.p, b.p))
        if a.__class__ is tuple:
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if a.__class__ in (int, str, bool, float):
            return a == b
        return False

    def newkey(self, x):
        """the key under which x, equal to no key present, is stored"""
        if self.symbolic(x):
            if x.__class__ is Obj:
                x = self.tupled(x)
            self.symkeys = True
            return SymKey(x)
        return self.key(x)

    def skey(self, d, x):
        """the key under which x is to be stored in d"""
        if self.symbolic(x) or self.symkeys:
            k = self.dkey(d, x)
            return self.newkey(x) if k is MISSING else k
        return self.key(x)

    def _nokey(self, x, d):
        """cheap refutation: a symbolic integer outside the range of the (integer) keys"""
        if x.__class__ is Lin:
            lo, hi = self.st.bounds(x)
            ks = [k for k in d if k.__class__ is int]
            return not any(lo <= k <= hi for k in ks)
        return False

    def in_ints(self, x, xs):
        """x in (c1, c2, ...): one partition for the members, one per gap is avoided by an opaque fact"""
        lo, hi = self.st.bounds(x)
        cand = sorted(set(y for y in xs if lo <= y <= hi))
        if not cand:
            return False
        # contiguous runs
        runs = []
        for y in cand:
            if runs and runs[-1][1] == y - 1:
                runs[-1][1] = y
            else:
                runs.append([y, y])
        x = self.lin(x)
        alts = []
        prev = lo
        for a, b in runs:
            if prev <= a - 1:
                alts.append((False, (lambda p, q: lambda s: s.assume_range(x, p, q))(prev, a - 1)))
            alts.append((True, (lambda p, q: lambda s: s.assume_range(x, p, q))(a, b)))
            prev = b + 1
        if prev <= hi:
            alts.append((False, (lambda p, q: lambda s: s.assume_range(x, p, q))(prev, hi)))
        if len(alts) > 400:
            raise Undetermined('large membership table')
        return self.fork(alts)

    # ------------------------------------------------------------------ items
    def getitem(self, o, i):
        c = o.__class__
        if c is PyList or c is tuple:
            xs = o.items if c is PyList else o
            if i.__class__ is Lin:
                i = self.index_of(i, len(xs))
            if i.__class__ is slice:
                return self.getslice(o, i.start, i.stop, i.step)
            if i.__class__ is Top:
                return i
            if i.__class__ not in (int, bool):
                self.err(TypeError, 'indices must be integers, not %s' % self.tname(i))
            try:
                return xs[i]
            except IndexError:
                self.err(IndexError, 'index %d out of range (length %d)' % (i, len(xs)))
        if c is PyDict:
            k = self.dkey(o.d, i)
            if k is not MISSING:
                return o.d[k]
            k = self.newkey(i)
            dfl = getattr(o, 'tag', None)
            if dfl.__class__ is tuple and dfl[0] == 'default':
                v = self.call(dfl[1], [], {})
                o.d[k] = v
                return v
            self.err(KeyError, 'key %r' % (k,))
        if c is str or c is SStr:
            if i.__class__ is Lin:
                n = S.length(o)
                i = self.index_of(i, n)
            n = S.length(o)
            if i.__class__ is not int:
                self.err(TypeError, 'string indices must be integers')
            if not (-n <= i < n):
                self.err(IndexError, 'string index out of range')
            if c is str:
                return o[i]
            if i < 0:
                i += n
            return S.slice_(self, o, i, i + 1, None)
        if c is Top:
            return o
        if c is Rng:
            xs = list(self.iterate(o))
            return xs[self.index_of(i, len(xs)) if i.__class__ is Lin else i]
        if c is Obj:
            m = o.cls.lookup('__getitem__')
            if m is not MISSING:
                return self.call(m, [o, i], {})
        if o is None or c in (int, float, bool, Lin, Obj):
            self.err(TypeError, "'%s' object is not subscriptable" % self.tname(o))
        if c is Cls and o.lookup('!members') is not MISSING:
            return self.getitem(o.ns['__members__'], i)
        if c is Cls and o.lookup('__class_getitem__') is not MISSING:
            return self.call(self.getattr(o, '__class_getitem__'), [i], {})
        if c is BType or c is Cls:
            return o
        raise Undetermined('index of %r' % (o,))

    def index_of(self, i, n):
        """constant index for a symbolic one: splits the partition; out of range is an IndexError partition"""
        if i.f:
            self.err(TypeError, 'indices must be integers, not float')
        if self.cmp(i, n, '>='):
            self.err(IndexError, 'index can exceed %d' % (n - 1))
        if self.cmp(i, -n, '<'):
            self.err(IndexError, 'index can be below %d' % -n)
        return self.enum(i, max(400, 2 * n))

    def setitem(self, o, i, v):
        c = o.__class__
        if c is PyList:
            self.mutated(o, '[]=')
            if i.__class__ is slice:
                o.items[i] = self.iter_list(v)
                return
            if i.__class__ is Lin:
                i = self.index_of(i, len(o.items))
            try:
                o.items[i] = v
            except IndexError:
                self.err(IndexError, 'assignment index out of range')
        elif c is PyDict:
            self.mutated(o, '[]=')
            o.d[self.skey(o.d, i)] = v
        elif c is Obj and o.cls.lookup('__setitem__') is not MISSING:
            self.call(o.cls.lookup('__setitem__'), [o, i, v], {})
        elif c is tuple or c is str:
            self.err(TypeError, 'object does not support item assignment')
        else:
            raise Undetermined('item store')

    def delitem(self, o, i):
        if o.__class__ is PyList:
            self.mutated(o, 'del')
            if i.__class__ is slice:
                del o.items[i]
                return
            i = self.enum(i)
            del o.items[i]
        elif o.__class__ is PyDict:
            self.mutated(o, 'del')
            k = self.dkey(o.d, i)
            if k is MISSING:
                self.err(KeyError, i)
            del o.d[k]
        else:
            raise Undetermined('del item')

    def getslice(self, o, a, b, s):
        c = o.__class__
        a, b, s = [self.enum(x, 400) if x.__class__ is Lin else x for x in (a, b, s)]
        if c is PyList:
            return PyList(o.items[a:b:s])
        if c is tuple:
            return o[a:b:s]
        if c is str:
            return o[a:b:s]
        if c is SStr:
            return S.slice_(self, o, a, b, s)
        if c is Top:
            return o
        if c is Rng:
            return PyList(list(self.iterate(o))[a:b:s])
        if o is None or c in (int, float, Lin, PyDict):
            self.err(TypeError, 'object is not subscriptable')
        raise Undetermined('slice of %r' % (o,))

    # ------------------------------------------------------------------ iteration
    def iterate(self, v):
        c = v.__class__
        if c is PyList:
            i = 0
            while i < len(v.items):
                yield v.items[i]
                i += 1
        elif c is tuple:
            for x in v:
                yield x
        elif c is PyDict:
            for x in list(v.d):
                yield unkey(x)
        elif c is PySet:
            # iteration order of a set is unspecified; the analysis keeps one order and flags it
            self.events.append(('set-iteration', v, None, self.where()))
            for x in sorted(v.s, key=repr, reverse=self.set_reverse):
                yield unkey(x)
        elif c is str:
            for x in v:
                yield x
        elif c is SStr:
            n = S.length(v)
            for i in range(n):
                yield S.slice_(self, v, i, i + 1, None)
        elif c is Rng:
            a, b, s = v.a, v.b, v.s
            if s.__class__ is Lin:
                s = self.enum(s)
            if s == 0:
                self.err(ValueError, 'range() arg 3 must not be zero')
            if a.__class__ is not Lin and b.__class__ is not Lin:
                for x in range(a, b, s):
                    yield x
                return
            x = a
            n = 0
            while self.cmp(x, b, '<' if s > 0 else '>'):
                n += 1
                if n > self.loop_bound:
                    raise BeyondBound('range loop')
                yield x
                x = self.add(x, s)
        elif c is It:
            for x in v.it:
                yield x
        elif c is Cls and v.lookup('!members') is not MISSING:
            for x in v.lookup('!members'):
                yield x
        elif c is Obj and v.cls.lookup('__next__') is not MISSING and v.cls.lookup('__iter__') is not MISSING:
            nx = v.cls.lookup('__next__')
            self.call(v.cls.lookup('__iter__'), [v], {})
            while True:
                self.tick()
                try:
                    x = self.call(nx, [v], {})
                except PyRaise as e:
                    if e.exc.__class__ is ExcInst and e.exc.cls is StopIteration:
                        return
                    raise
                yield x
        elif c is Obj and v.cls.lookup('__iter__') is not MISSING:
            for x in self.iterate(self.call(v.cls.lookup('__iter__'), [v], {})):
                yield x
        elif c is Top:
            raise Undetermined('iteration over unknown value: %s' % v.why)
        elif v is None or c in (int, float, bool, Lin, Obj):
            self.err(TypeError, "'%s' object is not iterable" % self.tname(v))
        else:
            raise Undetermined('iteration over %r' % (v,))

    def mkset(self, xs, frozen=False):
        s = set()
        for x in xs:
            s.add(self.skey(s, x))
        return PySet(s, frozen=frozen)

    def iter_list(self, v):
        return list(self.iterate(v))

    def length(self, v):
        c = v.__class__
        if c is PyList:
            return len(v.items)
        if c is tuple:
            return len(v)
        if c is PyDict:
            return len(v.d)
        if c is PySet:
            return len(v.s)
        if c in (str, SStr):
            return S.length(v)
        if c is Rng:
            if v.a.__class__ is not Lin and v.b.__class__ is not Lin:
                return len(range(v.a, v.b, v.s))
            if v.s == 1:
                d = self.sub(v.b, v.a)
                return d if self.cmp(d, 0, '>') else 0
            return len(self.iter_list(v))
        if c is Obj and v.cls.lookup('__len__') is not MISSING:
            return self.call(v.cls.lookup('__len__'), [v], {})
        if c is Top:
            return v
        if v is None or c in (int, float, bool, Lin, Obj):
            self.err(TypeError, "object of type '%s' has no len()" % self.tname(v))
        raise Undetermined('len of %r' % (v,))

    # ------------------------------------------------------------------ civil dates as units
    def new_date(self, D):
        """component symbols (y, m, d) of the civil day with ordinal D (proleptic count, see spec calendar)"""
        from . import calendar_ref as C
        D = self.lin(D)
        D = self.st.nf(D)
        key = (D.c, tuple(sorted(D.t.items())))
        hit = self.memo.get(('date', key))
        if hit is not None:
            return hit
        if not D.t:
            r = C.from_ord(D.c)
            self.memo[('date', key)] = r
            return r
        lo, hi = self.st.bounds(D)
        y0, y1 = C.from_ord(lo)[0], C.from_ord(hi)[0]
        n = len(self.dates)
        st = self.st
        ys = st.new('Y%d' % n, y0, y1)
        ms = st.new('M%d' % n, 1, 12)
        ds = st.new('D%d' % n, 1, 31)
        st.derived[ys] = (lambda o: C.from_ord(o)[0], [D])
        st.derived[ms] = (lambda o: C.from_ord(o)[1], [D])
        st.derived[ds] = (lambda o: C.from_ord(o)[2], [D])
        r = (self.simp(Lin(0, {ys: 1})), Lin(0, {ms: 1}), Lin(0, {ds: 1}))
        self.dates[ys] = (ms, ds, D)
        self.memo[('date', key)] = r
        return r

    def date_ord(self, y, m, d):
        """ordinal when (y, m, d) are the component symbols of one civil day"""
        if y.__class__ is Lin and m.__class__ is Lin and d.__class__ is Lin:
            for L in (y, m, d):
                if L.c != 0 or len(L.t) != 1:
                    return None
            ys = next(iter(y.t))
            e = self.dates.get(ys)
            if e is not None and y.t[ys] == 1 and m.t.get(e[0]) == 1 and d.t.get(e[1]) == 1:
                return self.simp(e[2])
        elif y.__class__ is int and m.__class__ is int and d.__class__ is int:
            from . import calendar_ref as C
            if C.valid(y, m, d):
                return C.to_ord(y, m, d)
        return None

    def date_pairs(self, prs):
        """replace consecutive (year,month,day) component comparisons by one comparison of ordinals"""
        if len(prs) < 3 or not self.dates:
            return prs
        out = []
        i = 0
        while i < len(prs):
            if i + 2 < len(prs):
                a = self.date_ord(prs[i][0], prs[i + 1][0], prs[i + 2][0])
                if a is not None:
                    b = self.date_ord(prs[i][1], prs[i + 1][1], prs[i + 2][1])
                    if b is not None:
                        out.append((a, b))
                        i += 3
                        continue
            out.append(prs[i])
            i += 1
        return out
