# -*- coding: utf-8 -*-
"""effect analysis over the syntax trees and the name-based call graph of the package

`effects(repo, tier)` decides property C41: every construct through which a Python program can reach the outside world (files, network,
processes, environment, streams, random sources, wall clock, time zone, locale, hash order) is looked for in every function and at module level;
names are resolved through the imports of the module, so aliases do not matter. Reads of the wall clock are permitted in functions that are
reached only from Solar.fromBaZi.
"""
import ast
import os
import sys

from .core import Undetermined

CLOCK_ROOT = ('fromBaZi', 'fromBaZiBySect', 'fromBaZiBySectAndBaseYear')

# reached through an import: (prefix, what it is)
EFFECTS = [
    ('os.', 'operating system / environment'), ('io.', 'file access'), ('socket.', 'network'), ('subprocess.', 'process'), ('urllib.', 'network'),
    ('http.', 'network'), ('ssl.', 'network'), ('asyncio.', 'event loop'), ('multiprocessing.', 'process'), ('pathlib.', 'file access'), ('tempfile.', 'file access'),
    ('shutil.', 'file access'), ('glob.', 'file access'), ('fileinput.', 'file access'), ('sqlite3.', 'file access'), ('shelve.', 'file access'), ('dbm.', 'file access'),
    ('mmap.', 'file access'), ('codecs.open', 'file access'), ('gzip.open', 'file access'), ('linecache.', 'file access'), ('pkgutil.get_data', 'file access'),
    ('importlib.resources', 'file access'), ('random.', 'random source'), ('secrets.', 'random source'), ('uuid.', 'random source'), ('platform.', 'machine'), ('getpass.', 'environment'),
    ('locale.', 'locale'), ('gettext.', 'locale'), ('signal.', 'signal'), ('atexit.', 'exit hook'), ('ctypes.', 'foreign code'), ('webbrowser.', 'process'),
    ('sys.stdout', 'standard stream'), ('sys.stderr', 'standard stream'), ('sys.stdin', 'standard stream'), ('sys.argv', 'command line'), ('sys.exit', 'process exit'),
    ('sys.setrecursionlimit', 'interpreter setting'), ('sys.setswitchinterval', 'interpreter setting'), ('decimal.setcontext', 'interpreter setting'), ('decimal.getcontext', 'interpreter setting'),
    ('time.tzname', 'time zone'), ('time.timezone', 'time zone'), ('time.altzone', 'time zone'), ('time.daylight', 'time zone'), ('time.localtime', 'time zone'), ('time.mktime', 'time zone'),
    ('time.tzset', 'time zone'), ('time.ctime', 'time zone'), ('time.asctime', 'wall clock'), ('time.strftime', 'locale'), ('time.sleep', 'wall clock'),
    ('datetime.datetime.fromtimestamp', 'time zone'), ('datetime.date.fromtimestamp', 'time zone'),
    ('calendar.day_name', 'locale'), ('calendar.month_name', 'locale'), ('calendar.day_abbr', 'locale'), ('calendar.month_abbr', 'locale'), ('calendar.setfirstweekday', 'interpreter setting'),
    ('zoneinfo.', 'time zone database'),
]
CLOCK = ('datetime.datetime.now', 'datetime.datetime.today', 'datetime.datetime.utcnow', 'datetime.date.today', 'time.time', 'time.time_ns', 'time.gmtime', 'time.monotonic', 'time.perf_counter',
         'time.process_time', 'time.localtime')
BUILTINS = {'open': 'file access', 'print': 'standard stream', 'input': 'standard stream', 'exec': 'dynamic code', 'eval': 'dynamic code', 'compile': 'dynamic code', '__import__': 'dynamic code',
            'breakpoint': 'debugger', 'exit': 'process exit', 'quit': 'process exit', 'id': 'object address', 'hash': 'hash seed'}
# methods of values, whatever the receiver, that consult the machine
METHODS = {'astimezone': 'time zone', 'timestamp': 'time zone', 'write_text': 'file access', 'read_text': 'file access', 'write_bytes': 'file access', 'read_bytes': 'file access'}


class Mod(object):
    def __init__(self, path, rel, tree):
        self.path, self.rel, self.tree = path, rel, tree
        self.names = {}
        self.defs = set()


def load(repo):
    mods = []
    root = os.path.join(repo, 'lunar_python')
    for d, _, fs in os.walk(root):
        if '__pycache__' in d:
            continue
        for f in sorted(fs):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                with open(p, encoding='utf-8') as h:
                    src = h.read()
                try:
                    tree = ast.parse(src)
                except SyntaxError as e:
                    raise Undetermined('syntax error in %s: %s' % (p, e))
                mods.append(Mod(p, os.path.relpath(p, repo), tree))
    if not mods:
        raise Undetermined('no package at %s' % root)
    return mods


def dotted(n):
    xs = []
    while isinstance(n, ast.Attribute):
        xs.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        xs.append(n.id)
        return list(reversed(xs))
    return None


def is_set_expr(n, sets):
    """the value is certainly a set"""
    if isinstance(n, (ast.Set, ast.SetComp)):
        return True
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('set', 'frozenset'):
        return True
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('union', 'intersection', 'difference', 'symmetric_difference') and is_set_expr(n.func.value, sets):
        return True
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
        return is_set_expr(n.left, sets) or is_set_expr(n.right, sets)
    if isinstance(n, ast.Name):
        return n.id in sets
    if isinstance(n, ast.Attribute):
        return n.attr in sets
    return False


def is_number_set(n):
    return isinstance(n, (ast.Set, ast.List, ast.Tuple)) and n.elts and all(isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) for e in n.elts)


ORDERED = ('list', 'tuple', 'enumerate', 'iter', 'zip', 'map', 'filter', 'reversed', 'next', 'dict')


class Scan(ast.NodeVisitor):
    def __init__(self, mod, out, stats):
        self.m = mod
        self.out = out
        self.stats = stats
        self.stack = []           # function names; empty: module level
        self.cls = []
        self.calls = stats['refs']
        self.sets = [self.set_names(mod.tree)]
        self.shadow = [set()]

    @staticmethod
    def set_names(node):
        good, bad = set(), set()
        for n in ast.walk(node):
            tg = []
            if isinstance(n, ast.Assign):
                tg = n.targets
            elif isinstance(n, (ast.AnnAssign, ast.AugAssign)) and n.value is not None:
                tg = [n.target]
            for t in tg:
                nm = t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else None
                if nm is None:
                    continue
                if isinstance(n, ast.AugAssign):
                    continue
                v = n.value
                numeric = isinstance(v, ast.Set) and is_number_set(v)
                (good if is_set_expr(v, ()) and not numeric else bad).add(nm)
        return good - bad

    def where(self, n):
        return '%s:%s' % (self.m.rel, n.lineno), '.'.join(self.cls + self.stack) or '<module>'

    def report(self, n, what, kind, clock=False):
        loc, fn = self.where(n)
        self.out.append({'loc': loc, 'fn': fn, 'leaf': self.stack[0] if self.stack else None, 'what': what, 'kind': kind, 'clock': clock})

    def visit_Import(self, n):
        for a in n.names:
            self.module(n, a.name)
            self.m.names[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]

    def visit_ImportFrom(self, n):
        if n.level:
            return
        if n.module and n.module.split('.')[0] == 'lunar_python':
            return
        self.module(n, n.module or '')
        for a in n.names:
            full = '%s.%s' % (n.module, a.name)
            self.m.names[a.asname or a.name] = full
            for pre, kind in EFFECTS:
                if full == pre.rstrip('.') or (full + '.').startswith(pre if pre.endswith('.') else pre + '.'):
                    self.report(n, 'import of %s' % full, kind)
                    break

    def module(self, n, name):
        self.stats['imports'] += 1
        top = name.split('.')[0]
        if top not in sys.stdlib_module_names and top != 'lunar_python':
            self.report(n, 'import of %s, which is not part of the standard library' % name, 'dependency')

    def visit_ClassDef(self, n):
        for d in n.decorator_list:
            self.visit(d)
        for b in n.bases:
            self.visit(b)
        self.cls.append(n.name)
        for s in n.body:
            self.visit(s)
        self.cls.pop()

    def visit_FunctionDef(self, n):
        self.stats['functions'] += 1
        for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x is not None]:
            self.visit(d)                      # evaluated where the function is defined
        self.stack.append(n.name)
        self.sets.append(self.set_names(n))
        a = n.args
        loc = {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                loc.add(x.id)
        self.shadow.append(loc)
        for s in n.body:
            self.visit(s)
        self.shadow.pop()
        self.sets.pop()
        self.stack.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    def shadowed(self, nm):
        return any(nm in s for s in self.shadow)

    def refer(self, nm):
        self.calls.setdefault(nm, set()).add(self.stack[0] if self.stack else None)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.refer(n.id)
            self.chain(n, [n.id])

    def visit_Attribute(self, n):
        self.refer(n.attr)
        d = dotted(n)
        if d:
            self.chain(n, d)
            self.refer(d[0])
            for x in d[1:]:
                self.refer(x)
        else:
            self.visit(n.value)

    def chain(self, n, d):
        full = self.m.names.get(d[0])
        if full is None or self.shadowed(d[0]):
            return
        full = '.'.join([full] + d[1:])
        if full in CLOCK:
            self.stats['clock_reads'] += 1
            self.report(n, 'reads the clock through %s' % full, 'wall clock', clock=True)
            return
        for pre, kind in EFFECTS:
            if (full + '.').startswith(pre) if pre.endswith('.') else (full == pre or full.startswith(pre + '.')):
                if len(d) == 1 and self.m.names[d[0]] == full and '.' not in full:
                    return
                self.report(n, 'uses %s' % full, kind)
                return

    def sets_now(self):
        r = set()
        for s in self.sets:
            r |= s
        return r

    def visit_If(self, n):
        t = n.test
        if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == '__name__':
            return                             # only runs as a script
        self.generic_visit(n)

    def ordered_use(self, n, it):
        if isinstance(it, ast.GeneratorExp):
            for g in it.generators:
                self.ordered_use(n, g.iter)
            return
        if is_set_expr(it, self.sets_now()) and not is_number_set(it):
            # a set of numbers written out, or range(), does not depend on the seed
            if isinstance(it, ast.Call) and it.args and (is_number_set(it.args[0]) or isinstance(it.args[0], ast.Call) and isinstance(it.args[0].func, ast.Name) and it.args[0].func.id == 'range'):
                return
            self.report(n, 'depends on the iteration order of a set', 'hash seed')

    def visit_Call(self, n):
        self.stats['call_sites'] += 1
        f = n.func
        if isinstance(f, ast.Name):
            if f.id in BUILTINS and not self.shadowed(f.id) and f.id not in self.m.defs and f.id not in self.m.names:
                if not (self.stack and self.stack[-1] == '__hash__'):
                    self.report(n, 'calls %s()' % f.id, BUILTINS[f.id])
            if f.id in ORDERED and not self.shadowed(f.id):
                for a in n.args:
                    self.ordered_use(n, a)
        elif isinstance(f, ast.Attribute):
            if f.attr in METHODS and f.attr not in self.stats['package_defs']:
                self.report(n, 'calls .%s()' % f.attr, METHODS[f.attr])
            if f.attr == 'strftime' and not (n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str)
                                             and not any(x in n.args[0].value for x in ('%a', '%A', '%b', '%B', '%c', '%x', '%X', '%p', '%Z'))):
                self.report(n, 'formats with .strftime() in a locale dependent form', 'locale')
            if f.attr in ('join', 'extend'):
                for a in n.args:
                    self.ordered_use(n, a)
            if f.attr == 'pop' and not n.args and is_set_expr(f.value, self.sets_now()):
                self.report(n, 'takes an arbitrary member of a set', 'hash seed')
        self.generic_visit(n)

    def visit_For(self, n):
        self.ordered_use(n, n.iter)
        self.generic_visit(n)

    def visit_Starred(self, n):
        self.ordered_use(n, n.value)
        self.generic_visit(n)

    def comp(self, n):
        for g in n.generators:
            if not isinstance(n, ast.SetComp):
                self.ordered_use(n, g.iter)
        self.generic_visit(n)

    visit_ListComp = visit_DictComp = visit_SetComp = comp

    def visit_GeneratorExp(self, n):
        self.generic_visit(n)       # all()/any()/sum()/sorted() over a set: order free unless consumed in order (handled at the consumer)


def effects(repo, tier):
    mods = load(repo)
    stats = {'rule': 'no construct reaches files, network, processes, environment, streams, random sources, time zone, locale or hash order; the clock is read only on behalf of Solar.fromBaZi',
             'modules': len(mods), 'functions': 0, 'call_sites': 0, 'imports': 0, 'clock_reads': 0, 'refs': {}, 'package_defs': set()}
    for m in mods:
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                m.defs.add(n.name)
                stats['package_defs'].add(n.name)
    out = []
    for m in mods:
        # imports first: a name may be used in a function written above an import
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    m.names[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
            elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
                for a in n.names:
                    m.names[a.asname or a.name] = '%s.%s' % (n.module, a.name)
        # module level aliases: now = datetime.now
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                d = dotted(n.value)
                if d and d[0] in m.names:
                    m.names[n.targets[0].id] = '.'.join([m.names[d[0]]] + d[1:])
        Scan(m, out, stats).visit(m.tree)
    from spec.api_names import NAMES
    refs = stats['refs']
    viol = []
    for o in out:
        why = None
        path = [o['fn']]
        if o['clock'] and o['leaf'] is not None:
            bad = reach(o['leaf'], refs, NAMES)
            if bad is None:
                continue
            why = 'reached from %s' % ' <- '.join(bad)
            path = bad
        viol.append({'obligation': 'effects', 'args': {}, 'message': '%s %s (%s)' % (o['fn'], o['what'], o['kind']), 'detail': why or '', 'construct': '%s in %s' % (o['loc'], o['fn']),
                     'functions': path, 'witness': {}})
    st = dict(stats)
    st.pop('refs')
    st.pop('package_defs')
    st['findings'] = len(out)
    st['permitted_clock_reads'] = len([o for o in out if o['clock']]) - len([v for v in viol if 'reads the clock' in v['message']])
    return st, viol


def reach(fn, refs, names):
    """None when every way to fn leads through fromBaZi, else a chain of callers up to a public function that must not depend on the clock"""
    todo = [(fn, [fn])]
    seen = set()
    while todo:
        f, chain = todo.pop()
        if f in CLOCK_ROOT or f in seen:
            continue
        seen.add(f)
        if f in names:
            return chain
        callers = refs.get(f, set()) - {f}
        if not callers:
            return chain
        for c in sorted(callers, key=str):
            if c is None:
                return chain + ['<module level>']
            todo.append((c, chain + [c]))
    return None
