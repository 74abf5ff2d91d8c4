"""C31: enumerations hand their items out one at a time.  An effect analysis
of each enumerating generator and its helpers: which expressions stand for an
enumeration, which constructs run one to its end, which containers grow in
the loops that hand items out and are never cut back, and (a forward
must-analysis over the branches of the loop) whether a sieve drops the entry
of the number it passes."""
import ast

from props_l import Names
from report import Report
from scopes import AnalysisError, Module, load_modules, parse

C31_ENUMERATIONS = {
    'permutations': (
        'PlainChanges', 'SteinhausJohnsonTrotter', 'DoublePlainChanges',
        'DoubleSteinhausJohnsonTrotter', 'StirlingChanges',
        'StirlingPermutations', 'InvolutionChanges', 'Involutions'),
    'integer_partitions': (
        'mckay', 'revlex_partitions', 'lex_partitions', 'binary_partitions',
        'fixed_length_partitions'),
    'lyndon': ('LengthLimitedLyndonWords', 'LyndonWordsWithLength',
               'LyndonWords'),
    'eratosthenes': ('primes', 'factored_integers', 'moebius_sequence',
                     'practical_numbers'),
    'integerpoints': ('IntegerPointsByDistance',),
    'cubic_ham': ('hamiltonian_cycles',),
    'sudoku': ('all_solutions',),
    'xyz_graph': ('CubicMatchPartitions', 'xyzEmbeddings'),
}
C31_SIEVES = (('eratosthenes', 'primes'),
              ('eratosthenes', 'factored_integers'))

COLLECT = {'list', 'tuple', 'set', 'frozenset', 'sorted', 'dict', 'deque',
           'Counter', 'OrderedDict', 'reversed', 'sum', 'len', 'cycle', 'tee',
           'max', 'min', 'product', 'permutations', 'combinations'}
STAY = {'iter', 'enumerate', 'map', 'filter', 'chain', 'starmap',
        'dropwhile', 'from_iterable', 'filterfalse'}
GROW = {'append', 'add', 'appendleft', 'extend', 'insert', 'setdefault',
        'update', 'insertAfter', 'insertBefore', 'extendleft'}
SHRINK = {'pop', 'popleft', 'popitem', 'remove', 'discard', 'clear',
          'difference_update', 'intersection_update', 'rotate'}
MAKERS = {'list', 'set', 'dict', 'deque', 'defaultdict', 'OrderedDict',
          'Counter', 'BucketQueue', 'Sequence'}
CACHES = {'lru_cache', 'cache', 'memoize', 'memoized'}
FUNCTIONS = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)


def called(node):
    """Last part of the name of what a call calls."""
    f = node.func if isinstance(node, ast.Call) else node
    return f.id if isinstance(f, ast.Name) else \
        f.attr if isinstance(f, ast.Attribute) else ''


def own(node):
    """The node and everything below it outside nested functions."""
    yield node
    for c in ast.iter_child_nodes(node):
        if not isinstance(c, FUNCTIONS + (ast.ClassDef,)):
            for x in own(c):
                yield x


def body_nodes(fn):
    for s in fn.body:
        if not isinstance(s, FUNCTIONS + (ast.ClassDef,)):
            for x in own(s):
                yield x


def yields(node):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(node))


def generator(fn):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom))
               for x in body_nodes(fn))


def named(node):
    """A plain name, or an attribute of one."""
    if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name):
        return node.value.id + '.' + node.attr
    return node.id if isinstance(node, ast.Name) else None


def huge(node):
    """range(2 ** k) or range(1 << k)."""
    return isinstance(node, ast.Call) and called(node) in (
        'range', 'xrange') and any(
            isinstance(x, ast.BinOp) and isinstance(
                x.op, (ast.Pow, ast.LShift)) for a in node.args
            for x in ast.walk(a))


class Frame(object):
    """One function of an enumeration."""

    def __init__(self, names, m, fn, entry, streams=()):
        self.N, self.m, self.fn, self.entry = names, m, fn, entry
        self.nested = {s.name: s for x in [fn] for s in ast.walk(x)
                       if isinstance(s, ast.FunctionDef) and s is not fn}
        self.streams = set(streams)     # names that stand for enumerations
        self.called = set()
        self.found = []
        self.inspected = 0
        self.spread()

    def function(self, call):
        """The package function that is called, with its module."""
        f = call.func
        if isinstance(f, ast.Name):
            if f.id in self.nested:
                return self.m, self.nested[f.id]
            got = self.N.look(self.m, f.id)
            if got and isinstance(got[1], ast.FunctionDef):
                return got
        return None

    def stream(self, e):
        """Does the expression stand for an enumeration?"""
        if isinstance(e, ast.Name):
            return e.id in self.streams
        if isinstance(e, ast.IfExp):
            return self.stream(e.body) or self.stream(e.orelse)
        if isinstance(e, ast.GeneratorExp):
            return any(self.stream(g.iter) for g in e.generators) or \
                self.stream(e.elt)
        if huge(e):
            return True
        if isinstance(e, ast.Call):
            got = self.function(e)
            if got:
                m, fn = got
                if fn.name in C31_ENUMERATIONS.get(m, ()) or fn is self.fn:
                    return True
                return m == self.m and generator(fn)
            if called(e) in STAY:
                return any(self.stream(a.value if isinstance(a, ast.Starred)
                                       else a) for a in e.args)
            if called(e) == 'zip':
                return bool(e.args) and all(self.stream(a) for a in e.args)
        return False

    def spread(self):
        while True:
            n = len(self.streams)
            for x in body_nodes(self.fn):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Name) and self.stream(x.value):
                            self.streams.add(t.id)
                elif isinstance(x, ast.NamedExpr) and self.stream(x.value):
                    self.streams.add(x.target.id)
            if len(self.streams) == n:
                return

    def bad(self, node, rule, text):
        self.found.append((rule, node, text))

    # ----- enumerations run to their end
    def consumed(self):
        for x in body_nodes(self.fn):
            if isinstance(x, ast.Call):
                self.inspected += 1
                for a in x.args:
                    star = isinstance(a, ast.Starred)
                    e = a.value if star else a
                    if not self.stream(e):
                        continue
                    if called(x) in STAY and not star:
                        continue
                    if called(x) in COLLECT or star or isinstance(
                            x.func, ast.Attribute) and called(x) in (
                            'extend', 'update', 'join', 'extendleft'):
                        self.bad(x, 'enumeration collected',
                                 'runs a whole enumeration before the next '
                                 'item is handed out')
            elif isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp)):
                self.inspected += 1
                if any(self.stream(g.iter) for g in x.generators):
                    self.bad(x, 'enumeration collected',
                             'collects a whole enumeration')
            elif isinstance(x, (ast.List, ast.Tuple, ast.Set)):
                if any(isinstance(a, ast.Starred) and self.stream(a.value)
                       for a in x.elts):
                    self.bad(x, 'enumeration collected',
                             'unpacks a whole enumeration')
            elif isinstance(x, ast.AugAssign) and isinstance(
                    x.op, ast.Add) and self.stream(x.value):
                self.bad(x, 'enumeration collected',
                         'adds a whole enumeration to a list')
            elif isinstance(x, ast.For):
                self.inspected += 1
                if self.stream(x.iter) and not yields(x) and \
                        not self.stops(x):
                    self.bad(x, 'enumeration collected',
                             'runs a whole enumeration without handing '
                             'out an item')
                elif yields(x):
                    self.prepared(x.iter)
            elif isinstance(x, ast.YieldFrom):
                self.inspected += 1
                self.prepared(x.value)
            elif isinstance(x, ast.While) and not yields(x):
                if any(isinstance(y, ast.Call) and called(y) == 'next'
                       and y.args and self.stream(y.args[0])
                       for y in own(x)) and any(
                           isinstance(y, ast.ExceptHandler) and
                           y.type is not None and
                           called(y.type) == 'StopIteration'
                           for y in own(x)):
                    self.bad(x, 'enumeration collected',
                             'runs a whole enumeration without handing '
                             'out an item')

    def stops(self, loop):
        return any(isinstance(y, (ast.Break, ast.Return, ast.Raise))
                   for s in loop.body for y in own(s))

    def prepared(self, e):
        """What is being handed out was collected in advance."""
        while isinstance(e, ast.Call) and called(e) in (
                'iter', 'reversed', 'sorted', 'list', 'tuple', 'set'):
            if len(e.args) < 1 or e.keywords and called(e) != 'sorted':
                return
            e = e.args[0]
        if isinstance(e, ast.Name):
            loop = collecting(self, self.fn, e.id)
            if loop is not None:
                self.bad(loop, 'items collected first',
                         'collects the items in %s before the first is '
                         'handed out' % e.id)
        elif isinstance(e, ast.Call):
            got = self.function(e)
            if got and got[0] == self.m and not generator(got[1]):
                inner = self if got[1] is self.fn else Frame(
                    self.N, self.m, got[1], False)
                for r in returns(got[1]):
                    loop = None
                    v = r.value
                    if isinstance(v, ast.Name):
                        loop = collecting(inner, got[1], v.id)
                    if loop is not None:
                        self.bad(e, 'items collected first',
                                 '%s collects all items before returning'
                                 % got[1].name)

    # ----- functions that are no longer generators
    def returned(self):
        if generator(self.fn) or not self.entry:
            return
        for r in returns(self.fn):
            v = r.value
            while isinstance(v, ast.Call) and called(v) in (
                    'iter', 'reversed') and len(v.args) == 1:
                v = v.args[0]
            self.inspected += 1
            if isinstance(v, (ast.ListComp, ast.SetComp)) or isinstance(
                    v, ast.Call) and called(v) in ('list', 'tuple', 'sorted',
                                                   'set'):
                self.bad(r, 'items collected first',
                         'all items are collected before the caller gets '
                         'the first')
            elif isinstance(v, ast.Name) and collecting(
                    self, self.fn, v.id, True) is not None:
                self.bad(r, 'items collected first',
                         'all items are collected in %s before the caller '
                         'gets the first' % v.id)
            elif isinstance(v, ast.Call):
                self.prepared(v)

    # ----- records of what was handed out
    def records(self):
        made = {}
        for x in body_nodes(self.fn):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name) and (
                            isinstance(x.value, (
                                ast.List, ast.Dict, ast.Set, ast.ListComp,
                                ast.SetComp, ast.DictComp, ast.Tuple)) or
                            isinstance(x.value, ast.Call) and
                            called(x.value) in MAKERS):
                        made[t.id] = x
        locals_ = {t.id for x in ast.walk(self.fn)
                   for t in [x] if isinstance(t, ast.Name) and
                   isinstance(t.ctx, ast.Store)}
        params = {a.arg for a in self.fn.args.args + self.fn.args.kwonlyargs}
        shared = {n for n in self.globals() if n not in locals_ | params}
        names = set(made) | shared
        names |= {named(x) for x in ast.walk(self.fn)
                  if isinstance(x, ast.Attribute)
                  and named(x.value) == self.fn.name}
        if self.entry:
            names |= {p for p in params if p not in locals_}
        loops = [x for x in body_nodes(self.fn) if isinstance(
            x, (ast.While, ast.For)) and yields(x) and (
                isinstance(x, ast.While) or self.stream(x.iter) or
                named(x.iter) in made)]
        grown = {}
        for lp in loops:
            self.inspected += 1
            for x in own(lp):
                n = growth(x, made)
                if n in names:
                    grown.setdefault(n, x)
        for f in self.nested.values():
            for x in ast.walk(f):
                n = growth(x, made)
                if n in names and n not in {
                        a.arg for a in f.args.args} and loops:
                    grown.setdefault(n, x)
        for n, x in sorted(grown.items()):
            self.inspected += 1
            if not self.cut_back(n, loops):
                self.bad(x, 'record kept',
                         '%s grows while items are handed out and is never '
                         'cut back' % n)

    def globals(self):
        out = set()
        for s in self.N.modules[self.m].tree.body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name) and (isinstance(
                            s.value, (ast.List, ast.Dict, ast.Set,
                                      ast.ListComp, ast.DictComp)) or
                            isinstance(s.value, ast.Call) and
                            called(s.value) in MAKERS):
                        out.add(t.id)
        return out

    def cut_back(self, n, loops):
        """Something takes items out of the container again."""
        inside = [x for lp in loops for x in own(lp)]
        inside += [x for f in self.nested.values() for x in ast.walk(f)]
        inside += [x for x in body_nodes(self.fn)
                   if isinstance(x, (ast.Call, ast.Delete))]
        for x in inside:
            if shrinks(x, n):
                return True
            if isinstance(x, ast.Call):
                # handed to something that may cut it back
                for i, a in enumerate(x.args):
                    if named(a) == n and called(x) not in (
                            'len', 'list', 'tuple', 'iter', 'sorted',
                            'sum', 'max', 'min', 'set', 'enumerate', 'any',
                            'all', 'print', 'repr', 'str'):
                        got = self.function(x)
                        if got is None or shrinks_param(got[1], i):
                            return True
            if isinstance(x, ast.For) and named(x.iter) == n:
                return True
        return False


def returns(fn):
    return [x for x in body_nodes(fn)
            if isinstance(x, ast.Return) and x.value is not None]


def growth(x, made=()):
    """Name of the container a node lets grow."""
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
            x.func.attr in GROW:
        return named(x.func.value)
    if isinstance(x, ast.AugAssign):
        if isinstance(x.op, (ast.Add, ast.BitOr)) and isinstance(
                x.value, (ast.List, ast.Tuple, ast.Set, ast.ListComp)):
            return named(x.target)
    if isinstance(x, ast.Assign):
        for t in x.targets:
            if isinstance(t, ast.Subscript) and not isinstance(
                    t.slice, ast.Slice):
                n = named(t.value)
                if n in made and mapping(made[n].value):
                    return n
            if isinstance(t, ast.Name) and isinstance(
                    x.value, ast.BinOp) and isinstance(
                    x.value.op, ast.Add) and named(x.value.left) == t.id \
                    and isinstance(x.value.right, (ast.List, ast.Tuple)):
                return t.id
    return None


def mapping(v):
    return isinstance(v, ast.Dict) and not v.keys or isinstance(
        v, ast.Call) and called(v) in ('dict', 'defaultdict', 'OrderedDict',
                                       'Counter', 'BucketQueue')


def shrinks(x, n):
    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and \
            x.func.attr in SHRINK:
        return named(x.func.value) == n
    if isinstance(x, ast.Delete):
        return any(named(t) == n or isinstance(t, ast.Subscript) and
                   named(t.value) == n for t in x.targets)
    if isinstance(x, ast.Assign):
        for t in x.targets:
            if isinstance(t, ast.Subscript) and isinstance(
                    t.slice, ast.Slice) and named(t.value) == n:
                return True
            if isinstance(t, ast.Tuple) and n in [named(e) for e in t.elts]:
                return True
            if named(t) == n and growth(x) != n:
                return True
    if isinstance(x, ast.AugAssign):
        return isinstance(x.op, (ast.Sub, ast.BitAnd, ast.BitXor)) and \
            named(x.target) == n
    return False


def shrinks_param(fn, i):
    args = fn.args.args
    if i >= len(args):
        return True
    return any(shrinks(x, args[i].arg) or isinstance(x, ast.Call) and any(
        named(a) == args[i].arg for a in x.args) for x in ast.walk(fn))


def collecting(frame, fn, name, any_loop=False):
    """The loop, handing nothing out, in which a container that started
    empty collects one thing per round of an unbounded loop."""
    empty = False
    for x in body_nodes(fn):
        if isinstance(x, ast.Assign) and name in [
                named(t) for t in x.targets]:
            v = x.value
            if isinstance(v, (ast.List, ast.Set)) and not v.elts or \
                    isinstance(v, ast.Dict) and not v.keys or isinstance(
                        v, ast.Call) and called(v) in MAKERS and not v.args:
                empty = True
            elif isinstance(v, (ast.ListComp, ast.SetComp)):
                for g in v.generators:
                    it = g.iter
                    if frame.stream(it) or isinstance(it, ast.Call) and \
                            frame.function(it) and \
                            frame.function(it)[1] is fn:
                        return x
    if not empty:
        return None
    for x in body_nodes(fn):
        if not isinstance(x, (ast.While, ast.For)) or yields(x):
            continue
        if isinstance(x, ast.For) and not any_loop:
            it = x.iter
            again = isinstance(it, ast.Call) and frame.function(it) and \
                frame.function(it)[1] is fn
            if not frame.stream(it) and not again:
                continue
        if any(growth(y) == name for y in own(x)) and not any(
                shrinks(y, name) for y in own(x)):
            return x
    return None


# ----- sieves
class Sieve(object):
    """Whether the entry of the number being passed is gone at the end of
    each round.  States: 'in' (the entry may be there), 'out' (it is not)."""

    def __init__(self, frame, loop, table, counter):
        self.F, self.loop, self.D, self.n = frame, loop, table, counter
        self.unknown = False
        self.bad = []

    def takes(self, node):
        """The node takes the counter's entry out."""
        for x in own(node):
            if isinstance(x, ast.Delete):
                for t in x.targets:
                    if isinstance(t, ast.Subscript) and \
                            named(t.value) == self.D:
                        if named(t.slice) == self.n:
                            return True
                        self.unknown = True
            elif isinstance(x, ast.Call):
                if isinstance(x.func, ast.Attribute) and \
                        named(x.func.value) == self.D and \
                        x.func.attr in SHRINK:
                    if x.args and named(x.args[0]) == self.n and \
                            x.func.attr == 'pop':
                        return True
                    self.unknown = True
                for i, a in enumerate(x.args):
                    if named(a) == self.D:
                        got = self.F.function(x)
                        if got and shrinks_param(got[1], i):
                            return True
                        if got is None and called(x) not in (
                                'len', 'list', 'iter', 'sorted'):
                            self.unknown = True
                got = self.F.function(x)
                if got and got[1] in self.F.nested.values() and any(
                        shrinks(y, self.D) for y in ast.walk(got[1])):
                    return True
        return False

    def test(self, e):
        """-> (state when true, state when false); None: no change"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            a, b = self.test(e.operand)
            return b, a
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and \
                named(e.left) == self.n and \
                named(e.comparators[0]) == self.D:
            if isinstance(e.ops[0], ast.In):
                return None, 'out'
            if isinstance(e.ops[0], ast.NotIn):
                return 'out', None
        return None, None

    def block(self, body, state):
        """-> state after the body, None when its end is not reached"""
        for s in body:
            if state is None:
                return None
            state = self.statement(s, state)
        return state

    def statement(self, s, state):
        if isinstance(s, ast.If):
            a, b = self.test(s.test)
            if self.takes(s.test):
                state = 'out'
            x = self.block(s.body, a or state)
            y = self.block(s.orelse, b or state)
            return join(x, y)
        if isinstance(s, (ast.While, ast.For)):
            x = self.block(s.body, state)
            return join(state, x)
        if isinstance(s, (ast.With,)):
            return self.block(s.body, state)
        if isinstance(s, ast.Try):
            self.unknown = True
            return state
        if isinstance(s, (ast.Break, ast.Return, ast.Raise)):
            return None
        if isinstance(s, ast.Continue):
            self.end(s, state)
            return None
        if isinstance(s, FUNCTIONS + (ast.ClassDef,)):
            return state
        if self.takes(s):
            return 'out'
        if any(isinstance(x, (ast.Assign, ast.AugAssign)) and self.n in [
                named(t) for t in (x.targets if isinstance(x, ast.Assign)
                                   else [x.target])] for x in own(s)):
            self.end(s, state)
            return 'out'
        return state

    def end(self, s, state):
        if state == 'in':
            self.bad.append(s)

    def run(self):
        state = self.block(self.loop.body, 'in')
        if state == 'in':
            self.end(self.loop, state)
        return [] if self.unknown else self.bad


def join(a, b):
    if a is None or b is None:
        return a or b
    return 'in' if 'in' in (a, b) else 'out'


def sieve(F, rep):
    """Tables indexed by the number the main loop is at."""
    n = 0
    for lp in body_nodes(F.fn):
        if not isinstance(lp, (ast.While, ast.For)) or not yields(lp):
            continue
        pairs = set()
        for x in own(lp):
            if isinstance(x, ast.Compare) and len(x.ops) == 1 and \
                    isinstance(x.ops[0], (ast.In, ast.NotIn)) and \
                    named(x.left) and named(x.comparators[0]):
                pairs.add((named(x.comparators[0]), named(x.left)))
            elif isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Attribute) and x.func.attr in (
                    'pop', 'get') and named(x.func.value) and x.args and \
                    named(x.args[0]):
                pairs.add((named(x.func.value), named(x.args[0])))
        steps = {named(t) for x in lp.body + [lp] for t in (
            [x.target] if isinstance(x, (ast.AugAssign, ast.For)) else
            x.targets if isinstance(x, ast.Assign) else [])}
        for D, k in sorted(pairs):
            if k not in steps:
                continue
            if not any(isinstance(x, ast.Subscript) and named(
                    x.value) == D and isinstance(x.ctx, ast.Store)
                    for x in own(lp)) and not any(
                        isinstance(x, ast.Assign) and any(
                            isinstance(t, ast.Subscript) for t in x.targets)
                        for x in own(lp)):
                continue
            n += 1
            S = Sieve(F, lp, D, k)
            for s in S.run():
                F.bad(s, 'sieve entry kept',
                      'the entry of %s is still in %s when the sieve moves '
                      'on' % (k, D))
    return n


def judge(names, m, fn, entry=True, is_sieve=False, rep=None, seen=None,
          streams=()):
    seen = set() if seen is None else seen
    key = (id(fn), tuple(sorted(streams)))
    if key in seen or len(seen) > 60:
        return []
    seen.add(key)
    F = Frame(names, m, fn, entry, streams)
    F.consumed()
    F.returned()
    F.records()
    if rep is not None:
        rep.count('functions analysed')
        if is_sieve:
            rep.count('sieve tables followed', sieve(F, rep))
    elif is_sieve:
        sieve(F, rep)
    for d in fn.decorator_list:
        if called(d) in CACHES:
            F.bad(fn, 'record kept', 'results are kept by %s' % called(d))
    out = [(m, fn, x) for x in F.found]
    if rep is not None:
        rep.count('calls, loops and containers inspected', F.inspected)
    # helpers: generators of the same module, and functions that are handed
    # an enumeration
    for f in F.nested.values():
        if generator(f):
            out += judge(names, m, f, False, False, rep, seen)
    for x in body_nodes(fn):
        if isinstance(x, ast.Call):
            got = F.function(x)
            if not got or got[0] != m or got[1] is fn:
                continue
            args = [a.arg for a in got[1].args.args]
            tagged = [args[i] for i, a in enumerate(x.args)
                      if i < len(args) and F.stream(a)]
            if tagged or generator(got[1]) and got[1].name not in \
                    C31_ENUMERATIONS.get(m, ()):
                out += judge(names, m, got[1], False, False, rep, seen,
                             tagged)
    return out


EXAMPLES = '''
def good_recursive(n):
    if n == 0:
        yield []
        return
    for p in good_recursive(n - 1):
        p.append(1)
        yield p
        p.pop()

def good_sieve():
    D = {}
    n = 2
    while True:
        if n not in D:
            yield n
            D[2 * n] = [n]
        else:
            for p in D[n]:
                D.setdefault(n + p, []).append(p)
            del D[n]
        n += 1

def good_returned(n):
    return (list(p) for p in good_recursive(n))

def good_table(n):
    up = [i for i in range(n)]
    for x in up:
        yield x
    recur = good_table(n - 1)
    for y in recur:
        yield y

def bad_listed(n):
    if n == 0:
        yield []
        return
    for p in list(bad_listed(n - 1)):
        yield p + [1]

def bad_sorted(n):
    for p in sorted(good_recursive(n), key=len):
        yield p

def bad_gathered(n):
    out = []
    for p in good_recursive(n):
        out.append(list(p))
    for p in out:
        yield p

def bad_own(n):
    out = []
    i = 0
    while i < 2 ** n:
        out.append(i)
        i += 1
    return iter(out)

def bad_record(n):
    seen = set()
    for p in good_recursive(n):
        if tuple(p) not in seen:
            seen.add(tuple(p))
            yield p

def bad_sieve():
    D = {}
    n = 2
    while True:
        if n not in D:
            yield n
            D[2 * n] = [n]
        else:
            for p in D[n]:
                D.setdefault(n + p, []).append(p)
        n += 1

def bad_sieve_branch():
    D = {}
    n = 2
    while True:
        if n not in D:
            yield n
            D[2 * n] = [n]
        elif len(D[n]) == 1:
            D[n + 1] = D[n]
        else:
            D[n + 2] = D.pop(n)
        n += 1

def bad_helper(n):
    for p in _gather(good_recursive(n)):
        yield p

def _gather(items):
    return [list(p) for p in items]
'''


def check_c31(tier):
    rep = Report()
    tree = parse(EXAMPLES, '<examples>')
    names = Names({'ex': Module('ex', '/ex.py', tree, EXAMPLES)})
    n = 0
    for s in tree.body:
        if s.name.startswith('_'):
            continue
        n += 1
        got = judge(names, 'ex', s, True, 'sieve' in s.name)
        if bool(got) != s.name.startswith('bad'):
            raise AnalysisError('the rule misjudges its example %s: %s'
                                % (s.name, got))
    names = Names(load_modules())
    for m, fns in C31_ENUMERATIONS.items():
        for f in fns:
            got = names.look(m, f) if m in names.modules else None
            if not got or not isinstance(got[1], ast.FunctionDef):
                raise AnalysisError('function %s.%s has vanished' % (m, f))
            rep.count('enumerations followed')
            for mm, fn, (rule, node, text) in judge(
                    names, got[0], got[1], True, (m, f) in C31_SIEVES, rep):
                rep.add(rule, '%s.%s' % (mm, fn.name),
                        ast.unparse(node).split('\n')[0], text,
                        line=node.lineno)
    rep.count('rule examples checked', n)
    rep.need('enumerations followed', 20)
    rep.need('calls, loops and containers inspected', 60)
    rep.explanation = (
        'For each enumerating function and its helpers: the expressions that '
        'stand for an enumeration are followed through aliases, wrappers and '
        'helpers, and every construct that runs one to its end is a finding; '
        'containers that grow in the loops that hand items out must be cut '
        'back; the entry of the number a sieve passes must be gone on every '
        'branch before it moves on (forward must-analysis).')
    rep.assumptions = ['range objects of exponential length are enumerations',
                       'a container handed to unknown code may be cut back '
                       'there']
    return rep
