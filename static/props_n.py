"""C28: operations documented as taking constant time (or time proportional
to their argument) do not walk through the structure.  An effect analysis of
each method and its helpers: which expressions stand for the structure or a
part of it, and which constructs go through all of one."""
import ast

from props_l import Names
from report import Report
from scopes import AnalysisError, Module, load_modules, parse

C28_CONSTANT = {
    ('sequence', 'Sequence'): (
        'append', 'remove', 'insertAfter', 'insertBefore', 'predecessor',
        'successor', '__len__', 'key'),
    ('ordered_sequence', 'SimpleOrderedSequence'): (
        'cmp', 'remove', 'predecessor', 'successor', '__len__'),
    ('ordered_sequence', 'LogarithmicOrderedSequence'): (
        'cmp', 'remove', 'predecessor', 'successor', '__len__'),
    ('partition_refinement', 'PartitionRefinement'): (
        '__getitem__', '__len__', 'add', 'remove', 'refine'),
    ('bucketqueue', 'BucketQueue'): (
        '__getitem__', '__delitem__', '__setitem__', '__contains__',
        '__len__'),
    ('sorted_set', 'SortedSet'): ('add', 'remove', 'update', '__len__'),
    ('acyclic_reachability', 'Reachability'): ('reachable',),
    ('lca', 'RangeMin'): ('__getitem__', '__len__'),
    ('lca', 'RestrictedRangeMin'): ('__getitem__', '__len__'),
    ('lca', 'PrecomputedRangeMin'): ('__getitem__', '__len__'),
    ('lca', 'LogarithmicRangeMin'): ('__getitem__', '__len__'),
    ('lca', 'LCA'): ('__call__',),
    ('frequencyestimator', 'FrequencyEstimator'): ('__getitem__',),
    ('integer_heap', 'FlatHeap'): ('add', 'remove', 'min', '__bool__'),
    ('integer_heap', 'LinearHeap'): ('add', 'remove', '__bool__'),
    ('medium', 'ExplicitMedium'): (
        'reverse', 'action', '__len__', '__getitem__'),
    ('medium', 'LabeledGraphMedium'): ('reverse', 'action', '__len__'),
    ('medium', 'BitvectorMedium'): ('reverse', 'action'),
    ('strong_connectivity', 'StronglyConnectedComponents'): ('__len__',),
}
# fields that hold sets to be cut up: set arithmetic there makes new sets
SETS = {('partition_refinement', 'PartitionRefinement')}

EAGER = {'list', 'tuple', 'set', 'frozenset', 'sorted', 'sum', 'any', 'all',
         'dict', 'deque', 'Counter', 'deepcopy', 'copy', 'OrderedDict'}
LAZY = {'enumerate', 'zip', 'reversed', 'map', 'filter', 'iter', 'chain',
        'islice'}
VIEWS = {'keys', 'values', 'items', 'copy', 'itervalues', 'iteritems',
         'iterkeys'}
LIST_WALKS = {'index', 'count', 'remove', 'insert', 'reverse', 'sort'}
SET_MAKERS = {'difference', 'union', 'symmetric_difference', 'copy'}


def list_fields(names, m, cls):
    """Fields that some method of the class fills with a list."""
    out, other = set(), set()
    for s in members(names, m, cls):
        for n in ast.walk(s):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(
                            t.value, ast.Name) and t.value.id == 'self':
                        v = n.value
                        if isinstance(v, (ast.List, ast.ListComp)) or \
                                isinstance(v, ast.Call) and isinstance(
                                    v.func, ast.Name) and v.func.id in (
                                    'list', 'sorted', 'deque'):
                            out.add(t.attr)
                        elif not (isinstance(v, ast.Constant)
                                  and v.value is None):
                            other.add(t.attr)
    return out - other


def members(names, m, cls, depth=0):
    for s in cls.body:
        if isinstance(s, ast.FunctionDef):
            yield s
    for b in cls.bases:
        if isinstance(b, ast.Name) and depth < 6:
            got = names.look(m, b.id)
            if got and isinstance(got[1], ast.ClassDef):
                for s in members(names, got[0], got[1], depth + 1):
                    yield s


class Walk(object):
    def __init__(self, names, home, lists, sets):
        self.N = names
        self.home = home            # (module, class)
        self.lists = lists
        self.sets = sets
        self.found = []
        self.seen = set()
        self.inspected = 0

    def enter(self, m, cls, fn, parts, trail=()):
        """parts: names of parameters that stand for the structure."""
        key = (m, id(fn), frozenset(parts))
        if key in self.seen or len(trail) > 6:
            return
        self.seen.add(key)
        F = Frame(self, m, cls, fn, set(parts), trail)
        F.run()


class Frame(object):
    def __init__(self, W, m, cls, fn, parts, trail):
        self.W = W
        self.m = m
        self.cls = cls
        self.fn = fn
        self.trail = trail
        self.selfname = fn.args.args[0].arg if cls is not None and \
            fn.args.args else None
        self.parts = parts          # local names of (parts of) the structure
        self.raising = set()

    def run(self):
        for n in ast.walk(self.fn):
            if isinstance(n, ast.Raise):
                self.raising |= {id(x) for x in ast.walk(n)}
        for _ in range(4):
            for n in ast.walk(self.fn):
                if isinstance(n, ast.Assign) and self.part(n.value):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            self.parts.add(t.id)
                elif isinstance(n, ast.NamedExpr) and self.part(n.value):
                    self.parts.add(n.target.id)
        for n in ast.walk(self.fn):
            if id(n) not in self.raising:
                self.look(n)

    def bad(self, node, text):
        self.W.found.append((self.where(), node, text, self.trail))

    def where(self):
        return 'pads/%s.py:%s%s' % (
            self.m, self.cls.name + '.' if self.cls is not None else '',
            self.fn.name)

    # ----------------------------------------------------------- structure

    def whole(self, e):
        """self, a field of self, or another name for one."""
        if isinstance(e, ast.Name):
            return e.id in self.parts or e.id == self.selfname and \
                self.cls is not None
        if isinstance(e, ast.Attribute):
            return self.whole(e.value) and not e.attr.startswith('__')
        return False

    def part(self, e):
        """... or something kept inside one, or a view of one."""
        if self.whole(e):
            return True
        if isinstance(e, ast.Subscript):
            return self.part(e.value)
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute) and f.attr in VIEWS:
                return self.part(f.value)
            if isinstance(f, ast.Attribute) and f.attr in (
                    'get', 'setdefault', 'pop'):
                return self.part(f.value) and not self.is_self(f.value)
            if isinstance(f, ast.Name) and f.id in LAZY | EAGER:
                return any(self.part(a) for a in e.args[
                    f.id in ('map', 'filter'):])
            if isinstance(f, ast.Name) and f.id == 'range':
                return any(isinstance(a, ast.Call) and isinstance(
                    a.func, ast.Name) and a.func.id == 'len' and a.args
                    and self.part(a.args[0]) for a in e.args)
        if isinstance(e, ast.IfExp):
            return self.part(e.body) or self.part(e.orelse)
        return False

    def is_self(self, e):
        return isinstance(e, ast.Name) and e.id == self.selfname and \
            self.cls is not None

    def is_list(self, e):
        if isinstance(e, ast.Attribute):
            return self.whole(e) and e.attr in self.W.lists
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Attribute) and f.attr in (
                    'values', 'itervalues'):
                return self.part(f.value)
            return isinstance(f, ast.Name) and f.id in (
                'list', 'tuple', 'sorted') and self.part(e)
        return False

    # ---------------------------------------------------------- constructs

    def look(self, n):
        m = getattr(self, 'n_' + type(n).__name__, None)
        if m:
            m(n)

    def n_For(self, n):
        self.W.inspected += 1
        if self.part(n.iter):
            self.bad(n.iter, 'a loop goes through the structure')

    def n_comprehension(self, n):
        self.n_For(n)

    def n_Starred(self, n):
        if self.part(n.value) and isinstance(n.ctx, ast.Load):
            self.bad(n, 'the structure is unpacked')

    def n_While(self, n):
        self.W.inspected += 1
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and \
                        isinstance(x.targets[0], ast.Name) and \
                        self.step(x.value, x.targets[0].id):
                    self.bad(x, 'a loop walks along the structure')

    def step(self, v, name):
        """name -> the next thing in the structure"""
        if isinstance(v, ast.Subscript) and self.part(v.value):
            return any(isinstance(x, ast.Name) and x.id == name
                       for x in ast.walk(v.slice))
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) \
                and self.part(v.func.value):
            return any(isinstance(x, ast.Name) and x.id == name
                       for a in v.args for x in ast.walk(a))
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                v.func.id == 'next' and v.args:
            return self.part(v.args[0])
        return False

    def n_Compare(self, n):
        vals = [n.left] + n.comparators
        for op, b in zip(n.ops, vals[1:]):
            if not isinstance(op, (ast.In, ast.NotIn)):
                continue
            self.W.inspected += 1
            if self.is_self(b):
                if not self.method('__contains__', n):
                    self.method('__iter__', n)
            elif self.is_list(b):
                self.bad(n, 'a list is searched')

    def n_BinOp(self, n):
        if self.W.sets and isinstance(n.op, (ast.Sub, ast.BitOr,
                                             ast.BitXor)) and \
                self.part(n.left):
            self.bad(n, 'a set of the structure is copied')

    def n_Subscript(self, n):
        if isinstance(n.slice, ast.Slice):
            if self.is_list(n.value):
                self.bad(n, 'a part of a list is copied')
        elif self.is_self(n.value):
            self.method({ast.Load: '__getitem__', ast.Store: '__setitem__',
                         ast.Del: '__delitem__'}[type(n.ctx)], n)
        elif isinstance(n.ctx, ast.Del) and self.is_list(n.value):
            self.bad(n, 'an entry is cut out of a list')

    def n_Call(self, n):
        self.W.inspected += 1
        f = n.func
        hits = [a for a in n.args if not isinstance(a, ast.Starred)
                and self.part(a)]
        if isinstance(f, ast.Name):
            if f.id == 'len' and n.args and self.is_self(n.args[0]):
                self.method('__len__', n)
                return
            if f.id in EAGER and hits:
                self.bad(n, '%s() goes through the structure' % f.id)
                return
            if f.id in ('max', 'min') and len(n.args) == 1 and hits:
                self.bad(n, '%s() goes through the structure' % f.id)
                return
            got = self.W.N.look(self.m, f.id)
            if got and isinstance(got[1], ast.FunctionDef):
                self.call(got[0], None, got[1], n, 0)
        elif isinstance(f, ast.Attribute):
            if f.attr == 'join' and hits:
                self.bad(n, 'join() goes through the structure')
            elif self.is_self(f.value):
                self.method(f.attr, n)
            elif isinstance(f.value, ast.Call) and isinstance(
                    f.value.func, ast.Name) and f.value.func.id == 'super':
                self.method(f.attr, n, True)
            elif isinstance(f.value, ast.Name) and not self.part(f.value):
                got = self.W.N.look(self.m, f.value.id)
                if got and isinstance(got[1], ast.ClassDef):
                    r = self.W.N.method(got[0], got[1], f.attr)
                    if r and n.args and self.is_self(n.args[0]):
                        self.call(r[0], r[1], r[2], n, 0)
                elif f.attr in EAGER and hits:
                    self.bad(n, '%s() goes through the structure' % f.attr)
            elif self.is_list(f.value) and (
                    f.attr in LIST_WALKS or f.attr == 'pop' and n.args
                    and isinstance(n.args[0], ast.Constant)):
                self.bad(n, 'a list is searched or shifted')
            elif self.W.sets and f.attr in SET_MAKERS and \
                    self.part(f.value):
                self.bad(n, 'a set of the structure is copied')

    def method(self, name, n, above=False):
        hm, hc = self.W.home
        m, c = (self.m, self.cls) if above else (hm, hc)
        r = self.W.N.method(m, c, name, above)
        if r is None:
            return False
        self.call(r[0], r[1], r[2], n, 1)
        return True

    def call(self, m, cls, fn, n, skip):
        parts = set()
        a = [x.arg for x in fn.args.posonlyargs + fn.args.args]
        if isinstance(n, ast.Call):
            for i, v in enumerate(n.args):
                if isinstance(v, ast.Starred):
                    break
                if i + skip < len(a) and self.whole(v) and \
                        not isinstance(v, ast.Attribute) and (
                            cls is None or i + skip > 0):
                    parts.add(a[i + skip])
                elif i + skip < len(a) and isinstance(v, ast.Attribute) \
                        and self.whole(v):
                    parts.add(a[i + skip])
        self.W.enter(m, cls, fn, parts,
                     self.trail + (ast.unparse(n)[:60],))


EXAMPLES = '''
class Good:
    def __init__(self, items):
        self.next = {}
        self.rows = [x for x in items]

    def add(self, x):
        for table in (self.next, {}):
            table[x] = x
        if x in self.next:
            self._link(x)

    def _link(self, x):
        self.next[x] = self.next.get(x)

    def biggest(self, x, *more):
        return max(self.rows[x], self.rows[0], max(more))

    def size(self):
        return len(self.rows)

    def part(self, S):
        return [self.next[x] for x in S]

    def any(self):
        return next(iter(self.next))

class Bad:
    def __init__(self, items):
        self.next = {}
        self.rows = [x for x in items]

    def __iter__(self):
        for x in self.next:
            yield x

    def size(self):
        return sum(1 for x in self.next)

    def count(self):
        return len(list(self.next))

    def has(self, x):
        return x in self.rows

    def contains(self, x):
        return x in self

    def walk(self, x):
        while self.next[x] != x:
            x = self.next[x]
        return x

    def least(self):
        return min(self.next.values())

    def cut(self, i, j):
        return min(self.rows[i:j])

    def drop(self, x):
        self.rows.remove(x)

    def helper(self, x):
        return _scan(self.next, x)

    def alias(self, x):
        n = self.rows
        return [y for y in n if y == x]

def _scan(table, x):
    for y in table:
        if y == x:
            return True
'''


def judge(names, m, cls, meths, rep, sets=False):
    lists = list_fields(names, m, cls)
    bad = set()
    for meth in meths:
        r = names.method(m, cls, meth)
        if r is None:
            raise AnalysisError('%s.%s.%s has vanished' % (m, cls.name, meth))
        rep.count('operations followed')
        W = Walk(names, (m, cls), lists, sets)
        W.enter(r[0], r[1], r[2], ())
        rep.count('functions entered', len(W.seen))
        rep.count('calls, loops and searches inspected', W.inspected)
        for where, node, text, trail in W.found:
            bad.add(meth)
            rep.add('structure walked', where, ast.unparse(node),
                    '%s (in the constant time operation %s.%s)' % (
                        text, cls.name, meth), line=node.lineno,
                    trace=list(trail))
    return bad


def check_c28(tier):
    rep = Report()
    tree = parse(EXAMPLES, '<examples>')
    names = Names({'ex': Module('ex', '/ex.py', tree, EXAMPLES)})
    n = 0
    for c in ('Good', 'Bad'):
        cls = names.top['ex', c]
        meths = [s.name for s in cls.body if isinstance(s, ast.FunctionDef)
                 and not s.name.startswith('_')]
        bad = judge(names, 'ex', cls, meths, Report())
        for x in meths:
            n += 1
            if (x in bad) != (c == 'Bad'):
                raise AnalysisError('the rule misjudges its example %s.%s'
                                    % (c, x))
    names = Names(load_modules())
    for (m, c), meths in C28_CONSTANT.items():
        got = names.look(m, c) if m in names.modules else None
        if not got or not isinstance(got[1], ast.ClassDef):
            raise AnalysisError('class %s.%s has vanished' % (m, c))
        judge(names, got[0], got[1], meths, rep, (m, c) in SETS)
    rep.count('rule examples checked', n)
    rep.need('operations followed', 50)
    rep.need('calls, loops and searches inspected', 60)
    rep.explanation = (
        'For each operation documented as constant time the expressions that '
        'stand for the structure, one of its tables, or what they hold are '
        'followed through aliases and helpers; loops, comprehensions, eager '
        'built-ins, list searches, list shifts and slices over them are '
        'findings.')
    rep.assumptions = ['looking up a dict or set takes constant time',
                       'what a table holds is constant time to use through '
                       'its own methods']
    return rep
