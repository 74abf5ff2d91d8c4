"""C29: errors of the caller's own functions and iterables are not swallowed.

A taint analysis on the syntax tree: which names and fields hold functions or
iterables that the caller supplied, which functions of the package run them,
and which of those runs lie inside a try whose handler lets the operation go
on."""
import ast

from props_l import C25_ITERABLES, Names
from report import Report
from scopes import AnalysisError, Module, load_modules, parse

# sequences that are read as well
SEQUENCES = [
    ('lyndon', 'ChenFoxLyndonBreakpoints', 's'),
    ('lyndon', 'ChenFoxLyndon', 's'),
    ('lyndon', 'SmallestSuffix', 's'),
    ('lyndon', 'SmallestRotation', 's'),
    ('lyndon', 'isLyndonWord', 's'),
    ('integer_partitions', 'conjugate', 'p'),
    ('smawk', 'ConcaveMinima', 'RowIndices'),
    ('smawk', 'ConcaveMinima', 'ColIndices'),
    ('lca', 'RangeMin.__init__', 'X'),
    ('lca', 'RestrictedRangeMin.__init__', 'X'),
    ('lca', 'PrecomputedRangeMin.__init__', 'X'),
    ('lca', 'LogarithmicRangeMin.__init__', 'X'),
    ('lca', 'PrefixMinima', 'X'),
    ('lca', '_pairs', 'X'),
    ('partial_order', 'isTopologicalOrder', 'L'),
    ('union_find', 'UnionFind.union', 'objects'),
]

# exceptions that are a protocol and not an error of the caller
PROTOCOL = {'StopIteration', 'StopAsyncIteration', 'GeneratorExit'}
READERS = {'list', 'tuple', 'set', 'frozenset', 'dict', 'sorted', 'sum', 'min',
           'max', 'any', 'all', 'next', 'enumerate', 'zip', 'map', 'filter',
           'reversed', 'reduce', 'join', 'deque', 'Counter', 'chain', 'islice',
           'iter', 'fromkeys', 'extend', 'update'}
COPIES = {'list', 'tuple', 'set', 'frozenset', 'dict', 'sorted', 'deque'}
APPLIERS = {'map', 'filter', 'sorted', 'min', 'max', 'reduce', 'cmp_to_key',
            'sort', 'groupby', 'starmap', 'takewhile', 'dropwhile',
            'defaultdict', 'partial'}
DUNDER = {ast.Load: '__getitem__', ast.Store: '__setitem__',
          ast.Del: '__delitem__'}


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + \
        [x.arg for x in (a.vararg, a.kwarg) if x]


def own(body, functions=False):
    """Nodes of statements without nested functions."""
    todo = list(reversed(body))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and \
                not functions:
            continue
        todo.extend(reversed(list(ast.iter_child_nodes(n))))


def callee(c):
    f = c.func
    return f.id if isinstance(f, ast.Name) else \
        f.attr if isinstance(f, ast.Attribute) else None


class Callers(object):
    """Who runs what the caller supplied."""

    def __init__(self, names, iterables, note=lambda *a: None):
        self.N = names
        self.note = note
        self.iterables = {}
        for m, where, p in iterables:
            self.iterables.setdefault((m, where), set()).add(p)
        self.errors = set()
        for m, md in names.modules.items():
            for s in ast.walk(md.tree):
                if isinstance(s, ast.ClassDef) and any(
                        isinstance(b, ast.Name) and (
                            b.id.endswith(('Error', 'Exception', 'Warning'))
                            or b.id in self.errors) for b in s.bases):
                    self.errors.add(s.name)
        self.memo = {}
        self.fieldmemo = {}

    def functions(self):
        for m, md in sorted(self.N.modules.items()):
            for s in md.tree.body:
                if isinstance(s, ast.FunctionDef):
                    yield m, None, s
                elif isinstance(s, ast.ClassDef):
                    for f in s.body:
                        if isinstance(f, ast.FunctionDef):
                            yield m, s, f

    # ------------------------------------------------------------- fields
    def lineage(self, m, cls, depth=0):
        yield m, cls
        for b in cls.bases:
            if isinstance(b, ast.Name) and depth < 6:
                got = self.N.look(m, b.id)
                if got and isinstance(got[1], ast.ClassDef):
                    for x in self.lineage(got[0], got[1], depth + 1):
                        yield x

    def fields(self, m, cls):
        """Fields in which a class keeps functions of the caller."""
        key = m, cls.name
        if key in self.fieldmemo:
            return self.fieldmemo[key]
        kept, used = set(), set()
        for m2, c in self.lineage(m, cls):
            for f in c.body:
                if not isinstance(f, ast.FunctionDef) or not f.args.args:
                    continue
                me = f.args.args[0].arg
                ps = set(params(f)) - {me}
                for n in ast.walk(f):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and \
                                    isinstance(t.value, ast.Name) and \
                                    t.value.id == me and \
                                    self.direct(n.value, ps):
                                kept.add(t.attr)
                    elif isinstance(n, ast.Call):
                        for x in self.applied(n):
                            if isinstance(x, ast.Attribute) and \
                                    isinstance(x.value, ast.Name) and \
                                    x.value.id == me:
                                used.add(x.attr)
        methods = {f.name for m2, c in self.lineage(m, cls)
                   for f in c.body if isinstance(f, ast.FunctionDef)}
        self.fieldmemo[key] = out = (kept & used) - methods
        return out

    def direct(self, e, names):
        """The value itself, possibly one of several."""
        if isinstance(e, ast.Name):
            return e.id in names
        if isinstance(e, ast.IfExp):
            return self.direct(e.body, names) or self.direct(e.orelse, names)
        if isinstance(e, ast.BoolOp):
            return any(self.direct(v, names) for v in e.values)
        return False

    def applied(self, c):
        """Expressions that a call runs as functions."""
        yield c.func
        if callee(c) in APPLIERS:
            for x in c.args:
                yield x
            for k in c.keywords:
                yield k.value

    # ---------------------------------------------------------- functions
    def aliases(self, fn, names):
        """Names that hold, or lazily produce, what the names hold."""
        out = set(names)
        while True:
            n = len(out)
            for s in ast.walk(fn):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                        isinstance(s.targets[0], ast.Name):
                    v = s.value
                    if self.direct(v, out) or isinstance(v, ast.Call) and \
                            callee(v) not in COPIES and (
                                callee(v) in READERS and
                                callee(v) in ('iter', 'map', 'filter', 'zip',
                                              'enumerate', 'chain', 'islice')
                                ) and any(self.direct(a, out)
                                          for a in v.args) or \
                            isinstance(v, ast.GeneratorExp) and \
                            self.direct(v.generators[0].iter, out):
                        out.add(s.targets[0].id)
            if len(out) == n:
                return out

    def runs(self, m, cls, fn, depth=0):
        """Parameters and fields that a function runs: the names of the
        parameters, and '.' when it runs a function kept in a field."""
        key = m, cls.name if cls else None, fn.name, fn.lineno
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = set()
        out = set()
        if depth < 8:
            for p in params(fn):
                if list(self.sites(m, cls, fn, fn.body, {p}, depth)):
                    out.add(p)
            if cls is not None and list(
                    self.sites(m, cls, fn, fn.body, set(), depth)):
                out.add('.')
        self.memo[key] = out
        return out

    def sites(self, m, cls, fn, body, names, depth=0):
        """Nodes in body that run what the names hold, or a kept function
        when there are no names."""
        me = fn.args.args[0].arg if cls is not None and fn.args.args else None
        kept = self.fields(m, cls) if cls is not None and not names else ()
        names = self.aliases(fn, names) if names else set()
        inner = {s.name: s for s in ast.walk(fn)
                 if isinstance(s, ast.FunctionDef) and s is not fn}

        def mine(e):
            return isinstance(e, ast.Name) and e.id in names or \
                isinstance(e, ast.Attribute) and e.attr in kept and \
                isinstance(e.value, ast.Name) and e.value.id == me

        seen = set()

        def scan(nodes):
            for n in own(nodes):
                if isinstance(n, (ast.For, ast.comprehension)) and \
                        self.direct(n.iter, names):
                    yield n.iter
                elif isinstance(n, ast.YieldFrom) and \
                        self.direct(n.value, names):
                    yield n
                elif isinstance(n, ast.Starred) and mine(n.value) and \
                        isinstance(n.ctx, ast.Load):
                    yield n
                elif isinstance(n, ast.Assign) and \
                        isinstance(n.targets[0], (ast.Tuple, ast.List)) and \
                        self.direct(n.value, names):
                    yield n
                elif isinstance(n, ast.Call):
                    if any(mine(x) for x in self.applied(n)):
                        yield n
                    elif callee(n) in READERS and any(
                            mine(x) for x in n.args):
                        yield n
                    elif isinstance(n.func, ast.Name) and \
                            n.func.id in inner and n.func.id not in seen:
                        seen.add(n.func.id)
                        if list(scan(inner[n.func.id].body)):
                            yield n
                    elif self.through(m, cls, me, n, names, depth):
                        yield n
                elif me is not None and not names and \
                        isinstance(n, ast.Subscript) and \
                        isinstance(n.value, ast.Name) and n.value.id == me:
                    if self.method_runs(m, cls, DUNDER[type(n.ctx)], depth):
                        yield n
                elif me is not None and not names and \
                        isinstance(n, ast.Compare) and \
                        any(isinstance(o, (ast.In, ast.NotIn)) and
                            isinstance(x, ast.Name) and x.id == me
                            for o, x in zip(n.ops, n.comparators)):
                    if self.method_runs(m, cls, '__contains__', depth):
                        yield n
        for x in scan(body):
            yield x

    def method_runs(self, m, cls, name, depth):
        got = self.N.method(m, cls, name)
        return bool(got) and '.' in self.runs(*got, depth=depth + 1)

    def through(self, m, cls, me, c, names, depth):
        """A call into the package that runs what is passed on."""
        f = c.func
        skip = 0
        got = None
        if isinstance(f, ast.Name):
            got = self.N.look(m, f.id)
            if got and isinstance(got[1], ast.ClassDef):
                got = self.N.method(got[0], got[1], '__init__')
                skip = 1
            elif got:
                got = (got[0], None, got[1])
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            if f.value.id == me and cls is not None:
                got = self.N.method(m, cls, f.attr)
                skip = 1
            else:
                base = self.N.look(m, f.value.id)
                if base and isinstance(base[1], ast.ClassDef):
                    got = self.N.method(base[0], base[1], f.attr)
        if not got or not isinstance(got[2], ast.FunctionDef):
            return False
        r = self.runs(*got, depth=depth + 1)
        if not names:
            same = isinstance(f, ast.Attribute)
            return same and '.' in r
        ps = [x.arg for x in got[2].args.args][skip:]
        pairs = list(zip(ps, c.args)) + [(k.arg, k.value) for k in c.keywords]
        return any(p in r and self.direct(a, names) for p, a in pairs)

    # ------------------------------------------------------------ handlers
    def foreign(self, t):
        """Can a handler of this type catch errors of the caller?"""
        if t is None:
            return True
        if isinstance(t, ast.Tuple):
            return any(self.foreign(x) for x in t.elts)
        n = t.id if isinstance(t, ast.Name) else \
            t.attr if isinstance(t, ast.Attribute) else None
        return n not in PROTOCOL and n not in self.errors

    def completes(self, body):
        """Can the statements end without raising?"""
        for s in body:
            if isinstance(s, ast.Raise):
                return False
            if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
                return True
            if isinstance(s, ast.If) and s.orelse and \
                    not self.completes(s.body) and \
                    not self.completes(s.orelse):
                return False
            if isinstance(s, ast.With) and not self.completes(s.body):
                return False
        return True

    def swallowing(self, m, n):
        """(statements, handler description) if errors may end here."""
        if isinstance(n, ast.Try):
            for h in n.handlers:
                if self.foreign(h.type) and self.completes(h.body) and \
                        not self.probing(m, n, h):
                    return n.body, 'except %s' % (
                        ast.unparse(h.type) if h.type else 'everything')
            if any(isinstance(x, (ast.Return, ast.Break, ast.Continue))
                   for x in own(n.finalbody)):
                return n.body + [x for h in n.handlers for x in h.body] + \
                    n.orelse, 'leaving in finally'
        elif isinstance(n, ast.With):
            for i in n.items:
                c = i.context_expr
                if isinstance(c, ast.Call) and callee(c) == 'suppress' and \
                        any(self.foreign(a) for a in c.args):
                    return n.body, 'suppress'
        return None

    def probing(self, m, n, h):
        """Tries whether the argument is iterable or a number, and takes it
        as a number otherwise, which fails for every iterable."""
        if not isinstance(h.type, ast.Name) or h.type.id != 'TypeError' or \
                len([s for s in n.body if not isinstance(s, ast.Pass)]) != 1:
            return False
        tried = {a.id for x in own(n.body) if isinstance(x, ast.Call) and
                 callee(x) in COPIES | {'iter'}
                 for a in x.args if isinstance(a, ast.Name)}
        return self.counts(m, h.body, tried)

    def counts(self, m, body, names, depth=0):
        """Is one of the names taken as a number to count to?"""
        for x in own(body):
            if not isinstance(x, ast.Call):
                continue
            if callee(x) in ('range', 'xrange'):
                if any(isinstance(a, ast.Name) and a.id in names
                       for a in x.args):
                    return True
            elif isinstance(x.func, ast.Name) and depth < 3:
                got = self.N.look(m, x.func.id)
                if got and isinstance(got[1], ast.FunctionDef):
                    ps = [q.arg for q in got[1].args.args]
                    if self.counts(got[0], got[1].body, {
                            q for q, a in zip(ps, x.args)
                            if isinstance(a, ast.Name) and a.id in names},
                            depth + 1):
                        return True
        return False

    def problems(self):
        for m, cls, fn in self.functions():
            where = (cls.name + '.' if cls else '') + fn.name
            self.note('functions examined')
            tries = [n for n in own(fn.body, True)
                     if isinstance(n, (ast.Try, ast.With))]
            if not tries:
                continue
            self.note('try and with statements', len(tries))
            given = self.supplied(m, cls, fn, where)
            for n in tries:
                got = self.swallowing(m, n)
                if got is None:
                    continue
                self.note('handlers that go on')
                hits = []
                for p in sorted(given):
                    hits += [(x, p) for x in
                             self.sites(m, cls, fn, got[0], {p})]
                if cls is not None:
                    hits += [(x, 'self') for x in
                             self.sites(m, cls, fn, got[0], set())]
                for x, p in hits[:1]:
                    yield (m, where, x.lineno, got[1],
                           'an error of what the caller supplied (%s) is '
                           'swallowed' % p)

    def supplied(self, m, cls, fn, where):
        """Parameters that hold functions or iterables of the caller."""
        out = set(self.iterables.get((m, where), ()))
        for p in params(fn):
            if self.is_callback(fn, p) or self.handed(m, cls, fn, p):
                out.add(p)
        if where not in {w for mm, w in self.iterables if mm == m} and (
                fn.name.startswith('_') or cls is None):
            # helpers that are given an iterable argument of their callers
            for p in params(fn):
                if self.receives(m, fn, p):
                    out.add(p)
        return out

    def is_callback(self, fn, p):
        names = self.aliases(fn, {p})
        return any(isinstance(x, ast.Name) and x.id in names
                   for c in ast.walk(fn) if isinstance(c, ast.Call)
                   for x in self.callables(c))

    def callables(self, c):
        yield c.func
        if callee(c) in ('map', 'filter', 'reduce', 'cmp_to_key', 'starmap',
                         'takewhile', 'dropwhile') and c.args:
            yield c.args[0]
        for k in c.keywords:
            if k.arg == 'key':
                yield k.value

    def handed(self, m, cls, fn, p):
        """Given on to a function that calls it."""
        for c in ast.walk(fn):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name):
                got = self.N.look(m, c.func.id)
                if got and isinstance(got[1], ast.FunctionDef):
                    ps = [x.arg for x in got[1].args.args]
                    for q, a in list(zip(ps, c.args)) + [
                            (k.arg, k.value) for k in c.keywords]:
                        if isinstance(a, ast.Name) and a.id == p and \
                                got[1] is not fn and \
                                self.is_callback(got[1], q):
                            return True
        return False

    def receives(self, m, fn, p, depth=0):
        """Some function of the module passes an iterable argument on."""
        for m2, cls, f in self.functions():
            if m2 != m or f is fn:
                continue
            where = (cls.name + '.' if cls else '') + f.name
            its = self.iterables.get((m, where))
            if not its:
                continue
            names = self.aliases(f, its)
            for c in ast.walk(f):
                if isinstance(c, ast.Call) and callee(c) == fn.name:
                    ps = [x.arg for x in fn.args.args]
                    if ps[:1] == ['self']:
                        ps = ps[1:]
                    for q, a in list(zip(ps, c.args)) + [
                            (k.arg, k.value) for k in c.keywords]:
                        if q == p and self.direct(a, names):
                            return True
        return False


EXAMPLES = '''
class Own(Exception):
    pass

class Kept:
    def __init__(self, key):
        self.key = key

    def good_plain(self, x):
        return self.key(x)

    def good_other(self, x):
        k = self.key(x)
        try:
            return self.table[k]
        except KeyError:
            return None

    def bad_field(self, x):
        try:
            return self.key(x)
        except Exception:
            return None

    def bad_method(self, x):
        try:
            return self.good_plain(x)
        except TypeError:
            pass

def good_signal(A, f):
    try:
        for x in A:
            f(x)
    except Own:
        return None

def good_again(A, f):
    try:
        return f(A)
    except ValueError:
        raise Own()

def good_probe(A):
    try:
        return list(A)
    except TypeError:
        return list(range(A))

def good_end(A):
    it = iter(A)
    try:
        return next(it)
    except StopIteration:
        return None

def good_around(A):
    out = []
    for x in A:
        try:
            out.append(int(x))
        except ValueError:
            pass
    return out

def bad_call(A, f):
    try:
        return f(A)
    except ValueError:
        return 0

def bad_loop(A):
    n = 0
    try:
        for x in A:
            n += 1
    except:
        pass
    return n

def bad_copy(A):
    try:
        return list(A)
    except TypeError:
        return []

def bad_deep(A, f):
    try:
        return good_again(A, f)
    except Exception:
        return None

def bad_local(A, f):
    def one(x):
        return f(x)
    try:
        return one(1)
    except Exception:
        return None

def bad_finally(A, f):
    try:
        f(A)
    finally:
        return None

def bad_next(A):
    it = iter(A)
    try:
        return next(it)
    except Exception:
        return None
'''


def check_c29(tier):
    rep = Report()
    tree = parse(EXAMPLES, '<examples>')
    names = Names({'ex': Module('ex', '/ex.py', tree, EXAMPLES)})
    its = [('ex', s.name, 'A') for s in tree.body
           if isinstance(s, ast.FunctionDef)]
    found = {w.split('.')[-1]
             for m, w, line, what, msg in Callers(names, its).problems()}
    n = 0
    for s in ast.walk(tree):
        if isinstance(s, ast.FunctionDef) and \
                s.name.startswith(('good', 'bad')):
            n += 1
            if (s.name in found) != s.name.startswith('bad'):
                raise AnalysisError('the rule misjudges its example ' +
                                    s.name)
    rep.count('rule examples checked', n)
    names = Names(load_modules())
    C = Callers(names, C25_ITERABLES + SEQUENCES, rep.count)
    for m, where, line, what, msg in C.problems():
        rep.add('C29', '%s.%s' % (m, where), what, msg, line)
    for m, cls, fn in C.functions():
        where = (cls.name + '.' if cls else '') + fn.name
        if C.supplied(m, cls, fn, where):
            rep.count('functions given functions or iterables')
        if cls is not None and fn.name == '__init__' and C.fields(m, cls):
            rep.count('classes that keep functions')
    rep.need('functions examined', 200)
    rep.need('try and with statements', 5)
    rep.need('functions given functions or iterables', 15)
    rep.need('classes that keep functions', 2)
    rep.explanation = (
        'Every try and with statement of the package whose handler lets the '
        'operation go on: no call of a function that the caller supplied, '
        'and no reading of an iterable argument, may lie inside, directly, '
        'through a local function or through functions of the package.')
    return rep
