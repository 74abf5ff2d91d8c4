"""C25: how often an iterable argument is read.  A structured may-analysis:
the state before each statement is the set of names that may hold the
argument and the number of passes (0, 1, 2 or more) already made over it."""
import ast

from report import Report
from scopes import AnalysisError, load_modules, parse, Module

# (module, function or Class.method, parameter): documented as an iterable,
# a sequence or a set of things to be read
C25_ITERABLES = [
    ('lcs', 'longest_common_subsequence', 'A'),
    ('lcs', 'longest_common_subsequence', 'B'),
    ('longest_increasing_subsequence', 'longest_increasing_subsequence', 'S'),
    ('sequence', 'Sequence.__init__', 'iterable'),
    ('ordered_sequence', 'SimpleOrderedSequence.__init__', 'iterable'),
    ('ordered_sequence', 'LogarithmicOrderedSequence.__init__', 'iterable'),
    ('partition_refinement', 'PartitionRefinement.__init__', 'items'),
    ('partition_refinement', 'PartitionRefinement.refine', 'S'),
    ('sorted_set', 'SortedSet.__init__', 'iterable'),
    ('medium', 'BitvectorMedium.__init__', 'states'),
    ('lca', 'OfflineLCA.__init__', 'pairs'),
    ('permutations', 'SteinhausJohnsonTrotter', 'x'),
    ('read_undirected_graph', 'ledaLines', 'lines'),
    ('read_undirected_graph', 'readLeda', 'lines'),
    ('read_undirected_graph', 'readMALF', 'lines'),
    ('read_undirected_graph', 'readEdgeList', 'lines'),
    ('read_undirected_graph', 'readNodeEdgeList', 'lines'),
    ('read_undirected_graph', 'readGraphML', 'lines'),
    ('read_undirected_graph', 'readUndirectedGraph', 'arg'),
    ('svg', 'SVG.polygon', 'points'),
    ('automata', 'FiniteAutomaton.__call__', 'symbols'),
    ('automata', 'DFA.__call__', 'symbols'),
    ('automata', 'RegularLanguage.__contains__', 'inputsequence'),
    ('sudoku', 'Sudoku.__init__', 'initial_placements'),
]

NEUTRAL = {'isinstance', 'type', 'id', 'hasattr', 'callable', 'range', 'int',
           'repr', 'str'}


class Names(object):
    """Functions and classes of the package by module and name."""

    def __init__(self, modules):
        self.modules = modules
        self.top = {}
        self.imports = {}
        for m, md in modules.items():
            for s in md.tree.body:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    self.top[m, s.name] = s
                elif isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                        isinstance(s.targets[0], ast.Name) and \
                        isinstance(s.value, ast.Name):
                    self.imports[m, s.targets[0].id] = (m, s.value.id)
                elif isinstance(s, ast.ImportFrom) and s.level and s.module:
                    for a in s.names:
                        self.imports[m, a.asname or a.name] = (
                            s.module, a.name)

    def look(self, m, name, depth=0):
        if (m, name) in self.top:
            return m, self.top[m, name]
        if (m, name) in self.imports and depth < 5:
            return self.look(*self.imports[m, name], depth + 1)
        return None

    def method(self, m, cls, name, skip=False, depth=0):
        """-> (module, class, function)"""
        if not skip:
            for s in cls.body:
                if isinstance(s, ast.FunctionDef) and s.name == name:
                    return m, cls, s
                if isinstance(s, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == name
                        for t in s.targets) and isinstance(s.value, ast.Name):
                    if s.value.id != name:
                        return self.method(m, cls, s.value.id, False,
                                           depth + 1)
        for b in cls.bases:
            if isinstance(b, ast.Name) and depth < 6:
                got = self.look(m, b.id)
                if got and isinstance(got[1], ast.ClassDef):
                    r = self.method(got[0], got[1], name, False, depth + 1)
                    if r:
                        return r
        return None


class State(object):
    __slots__ = ('names', 'passes', 'at')

    def __init__(self, names, passes, at=()):
        self.names = names
        self.passes = passes
        self.at = at

    def copy(self):
        return State(self.names, self.passes, self.at)


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    w = a if a.passes >= b.passes else b
    return State(a.names | b.names, w.passes, w.at)


class Reader(object):
    """One function, one argument."""

    def __init__(self, names, module, cls, fn, depth=0):
        self.N = names
        self.m = module
        self.cls = cls
        self.fn = fn
        self.depth = depth
        self.bad = []           # (node, message)
        self.ends = None        # join of the states at the exits
        self.safe = 0           # inside a try that expects TypeError
        self.inner = {s.name: s for s in ast.walk(fn)
                      if isinstance(s, ast.FunctionDef) and s is not fn}
        self.selfname = fn.args.args[0].arg if cls is not None and \
            fn.args.args else None
        self.busy = set()
        self.uses = 0

    def run(self, param):
        st = State(frozenset([param]), 0)
        st = self.block(self.fn.body, st)
        self.ends = join(self.ends, st)
        return self.ends.passes if self.ends is not None else 0

    # ---------------------------------------------------------- statements

    def block(self, body, st):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m:
            return m(s, st)
        self.exprs(s, st)
        return st

    def exprs(self, s, st):
        for n in ast.iter_child_nodes(s):
            if isinstance(n, ast.expr):
                self.ev(n, st)

    def s_FunctionDef(self, s, st):
        st.names -= {s.name}
        return st

    s_ClassDef = s_FunctionDef

    def s_Pass(self, s, st):
        return st

    def s_Return(self, s, st):
        if s.value is not None:
            self.ev(s.value, st)
        self.ends = join(self.ends, st.copy())
        return None

    def s_Raise(self, s, st):
        self.exprs(s, st)
        self.ends = join(self.ends, st.copy())
        return None

    def s_Break(self, s, st):
        self.out = join(self.out, st.copy())
        return None

    def s_Continue(self, s, st):
        self.again = join(self.again, st.copy())
        return None

    out = again = None

    def assign(self, t, alias, st):
        if isinstance(t, ast.Name):
            if alias:
                st.names |= {t.id}
            else:
                st.names -= {t.id}
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.assign(x, False, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, False, st)
        else:
            for n in ast.iter_child_nodes(t):
                if isinstance(n, ast.expr):
                    self.ev(n, st)

    def s_Assign(self, s, st):
        v = s.value
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and \
                isinstance(v, ast.Tuple) and \
                len(v.elts) == len(s.targets[0].elts):
            got = [self.ev(x, st) for x in v.elts]
            for t, a in zip(s.targets[0].elts, got):
                self.assign(t, a, st)
            return st
        a = self.ev(v, st)
        for t in s.targets:
            if a and isinstance(t, (ast.Tuple, ast.List)):
                self.consume(v, st)
            self.assign(t, a, st)
        return st

    def s_AugAssign(self, s, st):
        if self.ev(s.value, st):
            if isinstance(s.op, ast.Add):
                self.consume(s.value, st)
        if isinstance(s.target, ast.Name) and s.target.id in st.names:
            self.wrong(s, 'an operator is applied to it', st)
        else:
            self.assign(s.target, False, st)
        return st

    def narrow(self, test, st, yes):
        """Names known to hold a container, not a one-shot iterator."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(test.operand, st, not yes)
        if isinstance(test, ast.BoolOp) and \
                isinstance(test.op, ast.And) == yes:
            for v in test.values:
                self.narrow(v, st, yes)
            return
        if isinstance(test, ast.Call) and isinstance(test.func, ast.Name):
            if test.func.id == 'isinstance' and yes and \
                    isinstance(test.args[0], ast.Name):
                st.names -= {test.args[0].id}
            elif test.func.id == 'hasattr' and yes and \
                    isinstance(test.args[0], ast.Name):
                st.names -= {test.args[0].id}
        elif isinstance(test, ast.Compare) and len(test.ops) == 1 and \
                isinstance(test.left, ast.Name) and \
                isinstance(test.comparators[0], ast.Constant) and \
                test.comparators[0].value is None:
            if isinstance(test.ops[0], ast.Is) == yes:
                st.names -= {test.left.id}

    def s_If(self, s, st):
        self.ev(s.test, st)
        a, b = st.copy(), st.copy()
        self.narrow(s.test, a, True)
        self.narrow(s.test, b, False)
        return join(self.block(s.body, a), self.block(s.orelse, b))

    def loop(self, s, st, head):
        saved = self.out, self.again
        self.out = self.again = None
        done = None
        for _ in range(2):
            st = head(st)
            done = join(done, st.copy())
            self.again = None
            st = self.block(s.body, st)
            st = join(st, self.again)
            if st is None:
                break
        if st is not None:
            done = join(done, st)
        if s.orelse:
            done = self.block(s.orelse, done)
        done = join(done, self.out)
        self.out, self.again = saved
        return done

    def s_For(self, s, st):
        if self.ev(s.iter, st):
            self.consume(s.iter, st)

        def head(st):
            st = st.copy()
            self.assign(s.target, False, st)
            return st
        return self.loop(s, st, head)

    def s_While(self, s, st):
        def head(st):
            st = st.copy()
            self.ev(s.test, st)
            return st
        return self.loop(s, st, head)

    def s_With(self, s, st):
        for i in s.items:
            self.ev(i.context_expr, st)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        wide = any(h.type is None or {n.id for n in ast.walk(h.type)
                                      if isinstance(n, ast.Name)} &
                   {'TypeError', 'AttributeError', 'Exception',
                    'BaseException'} for h in s.handlers)
        before = st.copy()
        self.safe += wide
        end = self.block(s.body, st)
        self.safe -= wide
        mid = join(before, end.copy() if end is not None else None)
        if end is not None:
            end = self.block(s.orelse, end)
        for h in s.handlers:
            # something that cannot be read has not been read
            start = before if wide else mid
            end = join(end, self.block(h.body, start.copy()))
        if s.finalbody:
            if end is None:
                self.block(s.finalbody, mid.copy())
                return None
            end = self.block(s.finalbody, end)
        return end

    # --------------------------------------------------------- expressions

    def wrong(self, node, message, st):
        self.uses += 1
        if not self.safe:
            self.bad.append((node, message))

    def consume(self, node, st, n=1):
        self.uses += 1
        if n and st.passes + n > 1 and not self.safe:
            self.bad.append((node, 'it is read a second time (first: %s)' % (
                ' '.join(st.at) or ast.unparse(node))))
        st.passes = min(2, st.passes + n)
        if n:
            st.at = (ast.unparse(node),)

    def ev(self, e, st):
        """Evaluate; does the value may be the argument itself?"""
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m:
            return m(e, st)
        for n in ast.iter_child_nodes(e):
            if isinstance(n, ast.expr):
                self.ev(n, st)
        return False

    def e_Name(self, e, st):
        return e.id in st.names

    def e_NamedExpr(self, e, st):
        a = self.ev(e.value, st)
        self.assign(e.target, a, st)
        return a

    def e_Lambda(self, e, st):
        return False

    def e_IfExp(self, e, st):
        self.ev(e.test, st)
        a, b = st.copy(), st.copy()
        self.narrow(e.test, a, True)
        self.narrow(e.test, b, False)
        x = self.ev(e.body, a)
        y = self.ev(e.orelse, b)
        w = join(a, b)
        st.passes, st.at = w.passes, w.at
        return x or y

    def e_BoolOp(self, e, st):
        out = False
        for v in e.values:
            out |= self.ev(v, st)
        return out

    def e_Starred(self, e, st):
        if self.ev(e.value, st):
            self.consume(e.value, st)
        return False

    def e_YieldFrom(self, e, st):
        if self.ev(e.value, st):
            self.consume(e.value, st)
        return False

    def e_BinOp(self, e, st):
        for x in (e.left, e.right):
            if self.ev(x, st):
                self.wrong(e, 'an operator is applied to it', st)
        return False

    def e_Compare(self, e, st):
        vals = [e.left] + e.comparators
        got = [self.ev(v, st) for v in vals]
        for op, a, b in zip(e.ops, got, got[1:]):
            if isinstance(op, (ast.In, ast.NotIn)):
                if b:
                    self.wrong(e, 'it is searched for a member', st)
        return False

    def e_Subscript(self, e, st):
        a = self.ev(e.value, st)
        self.ev(e.slice, st)
        if a:
            self.wrong(e, 'it is indexed', st)
        return False

    def e_Attribute(self, e, st):
        if self.ev(e.value, st) and e.attr not in (
                '__iter__', '__class__', '__name__'):
            self.wrong(e, 'its attribute %s is used' % e.attr, st)
        return False

    def comp(self, e, st):
        inner = st.copy()
        for i, g in enumerate(e.generators):
            if self.ev(g.iter, inner):
                self.consume(g.iter, inner, 1 if i == 0 else 2)
            self.assign(g.target, False, inner)
            body = g.ifs
            for x in body:
                self.twice(x, inner)
        for x in ([e.key, e.value] if isinstance(e, ast.DictComp)
                  else [e.elt]):
            self.twice(x, inner)
        st.passes, st.at = inner.passes, inner.at
        return False

    def twice(self, x, st):
        before = st.passes
        self.ev(x, st)
        if st.passes > before:
            self.ev(x, st)

    e_ListComp = e_SetComp = e_DictComp = e_GeneratorExp = comp

    def e_Call(self, e, st):
        f = e.func
        name = f.id if isinstance(f, ast.Name) else None
        recv = False
        if isinstance(f, ast.Attribute):
            recv = self.ev(f.value, st)
            if recv and f.attr == '__iter__':
                self.consume(e, st)
                return False
            if recv:
                self.wrong(f, 'its method %s is called' % f.attr, st)
        elif name is None:
            self.ev(f, st)
        got = []
        for a in e.args:
            got.append((None, a, self.ev(a, st)))
        for k in e.keywords:
            got.append((k.arg, k.value, self.ev(k.value, st)))
        hits = [(i, k, a) for i, (k, a, hit) in enumerate(got) if hit]
        target = self.target(f)
        if target is not None and target[0] == 'inner':
            self.enter_inner(target[1], e, hits, st)
            return False
        if not hits:
            return False
        if name in NEUTRAL:
            return False
        if name == 'len':
            self.wrong(e, 'its length is asked for', st)
            return False
        if name == 'reversed':
            self.wrong(e, 'it is reversed', st)
            return False
        for i, k, a in hits:
            n = 1
            if target is not None and self.depth < 8:
                n = self.callee(target, e, i, k)
            self.consume(e, st, n)
        return False

    def target(self, f):
        """The function of the package a call enters."""
        if isinstance(f, ast.Name):
            if f.id in self.inner:
                return ('inner', self.inner[f.id])
            got = self.N.look(self.m, f.id)
            if got is None:
                return None
            m, d = got
            if isinstance(d, ast.FunctionDef):
                return ('call', m, None, d, 0)
            r = self.N.method(m, d, '__init__')
            return ('call',) + r + (1,) if r else None
        if isinstance(f, ast.Attribute):
            v = f.value
            if isinstance(v, ast.Name) and v.id == self.selfname and \
                    self.cls is not None:
                r = self.N.method(self.m, self.cls, f.attr)
                return ('call',) + r + (1,) if r else None
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                    v.func.id == 'super' and self.cls is not None:
                r = self.N.method(self.m, self.cls, f.attr, True)
                return ('call',) + r + (1,) if r else None
            if isinstance(v, ast.Name):
                got = self.N.look(self.m, v.id)
                if got and isinstance(got[1], ast.ClassDef):
                    r = self.N.method(got[0], got[1], f.attr)
                    if r:
                        static = any(isinstance(d, ast.Name) and
                                     d.id in ('staticmethod', 'classmethod')
                                     for d in r[2].decorator_list)
                        return ('call',) + r + (1 if static else 0,)
        return None

    def param(self, fn, i, k, skip):
        a = fn.args.posonlyargs + fn.args.args
        if k is not None:
            return k if k in [x.arg for x in a + fn.args.kwonlyargs] else None
        i += skip
        return a[i].arg if i < len(a) else None

    def callee(self, target, e, i, k):
        _, m, cls, fn, skip = target
        if any(isinstance(d, ast.Name) and d.id == 'staticmethod'
               for d in fn.decorator_list):
            skip = 0
        if any(isinstance(a, ast.Starred) for a in e.args[:i]):
            return 1
        p = self.param(fn, i, k, skip)
        if p is None:
            return 1
        r = Reader(self.N, m, cls, fn, self.depth + 1)
        n = r.run(p)
        if not self.safe:
            self.bad += [(b, '%s (called from %s)' % (t, ast.unparse(e)))
                         for b, t in r.bad]
        self.uses += r.uses
        return 0 if r.bad else min(n, 1)

    def enter_inner(self, fn, e, hits, st):
        """A local function: its parameters and the names it shares."""
        if fn.name in self.busy:
            return
        own = {a.arg for a in fn.args.args} | {
            n.id for n in ast.walk(fn) if isinstance(n, ast.Name)
            and isinstance(n.ctx, ast.Store)}
        names = st.names - own
        for i, k, a in hits:
            p = self.param(fn, i, k, 0)
            if p:
                names |= {p}
        if not names:
            return
        self.busy.add(fn.name)
        ends, self.ends = self.ends, None
        saved = self.out, self.again
        inner = self.block(fn.body, State(frozenset(names), st.passes,
                                          st.at))
        inner = join(inner, self.ends)
        self.ends = ends
        self.out, self.again = saved
        self.busy.discard(fn.name)
        if inner is not None:
            st.passes, st.at = inner.passes, inner.at


def subjects(names, table):
    """-> (subject, module, class, function, parameter)"""
    for m, q, p in table:
        if m not in names.modules:
            raise AnalysisError('module %s has vanished' % m)
        c, _, f = q.rpartition('.')
        label = '%s.%s(%s)' % (m, q, p)
        if c:
            got = names.look(m, c)
            if not got or not isinstance(got[1], ast.ClassDef):
                raise AnalysisError('class %s.%s has vanished' % (m, c))
            r = names.method(got[0], got[1], f)
            if r is None:
                raise AnalysisError('%s.%s has vanished' % (m, q))
            mm, cls, fn = r
            # inherited bodies are read with the class they run in
            if cls is not got[1] and mm == m:
                cls = got[1]
        else:
            got = names.look(m, f)
            if not got or not isinstance(got[1], ast.FunctionDef):
                raise AnalysisError('%s.%s has vanished' % (m, q))
            mm, fn = got
            cls = None
        a = fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs
        if p not in [x.arg for x in a]:
            # renamed: it is the only parameter, or the first after self
            a = [x.arg for x in a][1 if c else 0:]
            k = {'B': 1, 'pairs': 1}.get(p, 0)
            yield label, mm, cls, fn, a[k] if k < len(a) else None
            continue
        yield label, mm, cls, fn, p


def judge(names, table, rep):
    for label, m, cls, fn, p in subjects(names, table):
        rep.count('iterable parameters')
        if p is None:
            rep.count('parameters not found')
            continue
        r = Reader(names, m, cls, fn)
        n = r.run(p)
        rep.count('parameters followed')
        rep.count('uses inspected', r.uses)
        rep.samples.append('%s: %s pass' % (label, n))
        for node, text in r.bad:
            rep.add('iterable read twice', label, ast.unparse(node), '%s: %s'
                    % (p, text), line=getattr(node, 'lineno', 0))


EXAMPLES = '''
def good_list(A):
    A = list(A)
    return len(A), A[0], [x for x in A if x in A]

def good_branch(A, flag):
    if flag:
        return set(A)
    out = []
    for x in A:
        out.append(x)
    return out

def good_iter(A):
    it = iter(A)
    first = next(it)
    return [first] + [x for x in it]

def good_either(A):
    if not isinstance(A, list):
        A = list(A)
    return len(A), sum(A)

def good_helper(A):
    return good_list(A)

def good_none(A=None):
    return [] if A is None else [x for x in A]

def good_try(A):
    try:
        A = list(A)
    except TypeError:
        A = list(range(A))
    return A

def good_local(A):
    def load():
        return [x for x in A]
    return load()

def bad_twice(A):
    n = sum(1 for x in A)
    return n, list(A)

def bad_len(A):
    return [None] * len(A)

def bad_index(A):
    return A[0]

def bad_loop(A, k):
    out = []
    for i in range(k):
        for x in A:
            out.append((i, x))
    return out

def bad_nested(A, B):
    return [(b, a) for b in B for a in A]

def bad_helper(A):
    first = max(A)
    return good_list(A), first

def bad_member(A, x):
    return x in A

def bad_alias(A):
    B = A
    return sorted(A), sorted(B)

def bad_deep(A):
    return bad_len(A)

def bad_local(A):
    def total():
        return sum(A)
    return total(), total()
'''


def check_c25(tier):
    rep = Report()
    tree = parse(EXAMPLES, '<examples>')
    names = Names({'ex': Module('ex', '/ex.py', tree, EXAMPLES)})
    n = 0
    for s in tree.body:
        r = Report()
        judge(names, [('ex', s.name, 'A')], r)
        n += 1
        if bool(r.findings) != s.name.startswith('bad'):
            raise AnalysisError('the rule misjudges its example ' + s.name)
    names = Names(load_modules())
    judge(names, C25_ITERABLES, rep)
    rep.count('rule examples checked', n)
    rep.need('parameters followed', 15)
    rep.need('uses inspected', 15)
    rep.explanation = (
        'Forward may-analysis of each documented iterable parameter: which '
        'names hold it and how many passes were made over it, through '
        'branches, loops, comprehensions, local functions and calls into '
        'the package.  A second pass, a length, an index or a membership '
        'test on it is a finding.')
    rep.assumptions = ['an unknown callee reads its argument once']
    return rep
