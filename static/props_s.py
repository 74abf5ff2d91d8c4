"""C33: one-shot iterators.  A syntactic inference says which expressions
give a generator, map, zip, filter or other iterator that can be read only
once; the pass counting of C25 then follows the local names bound to them,
and the results, fields and entries they could end up in are inspected."""
import ast
import json
import os

from props_l import Names, Reader, State
from report import Report
from scopes import AnalysisError, load_modules, parse, Module

HERE = os.path.dirname(os.path.abspath(__file__))
BUILTIN = {'map', 'zip', 'filter', 'reversed', 'enumerate', 'iter'}
ITERTOOLS = {'chain', 'islice', 'starmap', 'takewhile', 'dropwhile',
             'combinations', 'permutations', 'product', 'accumulate',
             'groupby', 'zip_longest', 'compress', 'filterfalse', 'pairwise',
             'cycle', 'count', 'repeat', 'from_iterable',
             'combinations_with_replacement'}
SEQUENCE = ('it is indexed', 'its length is asked for', 'it is reversed')
FUNCTIONS = (ast.FunctionDef, ast.AsyncFunctionDef)


def own(fn):
    """The nodes of a function that are not in a function inside it."""
    todo = list(fn.body)
    while todo:
        x = todo.pop()
        yield x
        if isinstance(x, FUNCTIONS + (ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(x))


def generator(fn):
    return any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own(fn))


def bound(fn):
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    for x in own(fn):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            out.add(x.id)
    return out


class Program(object):
    def __init__(self, modules):
        self.N = Names(modules)
        self.modules = modules
        self.itertools = {}         # module -> names from itertools
        for m, md in modules.items():
            got = self.itertools[m] = set()
            for s in ast.walk(md.tree):
                if isinstance(s, ast.ImportFrom) and s.module == 'itertools':
                    got |= {a.asname or a.name for a in s.names
                            if a.name in ITERTOOLS}
                elif isinstance(s, ast.Import):
                    got |= {(a.asname or a.name) + '.' for a in s.names
                            if a.name == 'itertools'}
        self.memo = {}

    def functions(self):
        """-> (module, class, outer functions, function)"""
        for m, md in sorted(self.modules.items()):
            todo = [(None, (), s) for s in md.tree.body]
            while todo:
                cls, outer, s = todo.pop(0)
                if isinstance(s, ast.ClassDef):
                    todo += [(s, outer, x) for x in s.body]
                elif isinstance(s, FUNCTIONS):
                    yield m, cls, outer, s
                    todo += [(None if outer else cls, outer + (s,), x)
                             for x in own(s)
                             if isinstance(x, FUNCTIONS + (ast.ClassDef,))]

    def gives(self, m, cls, fn):
        """Does a call of this function give a one-shot iterator?"""
        key = id(fn)
        if key not in self.memo:
            self.memo[key] = False
            if any(isinstance(d, ast.Name) and d.id == 'contextmanager'
                   for d in fn.decorator_list):
                return False
            self.memo[key] = generator(fn) or any(
                isinstance(x, ast.Return) and x.value is not None and
                self.oneshot(m, cls, fn, x.value) for x in own(fn))
        return self.memo[key]

    def oneshot(self, m, cls, fn, e):
        if isinstance(e, ast.GeneratorExp):
            return True
        if isinstance(e, ast.IfExp):
            return self.oneshot(m, cls, fn, e.body) or \
                self.oneshot(m, cls, fn, e.orelse)
        if isinstance(e, ast.BoolOp):
            return any(self.oneshot(m, cls, fn, v) for v in e.values)
        if isinstance(e, ast.NamedExpr):
            return self.oneshot(m, cls, fn, e.value)
        if not isinstance(e, ast.Call):
            return False
        f = e.func
        if isinstance(f, ast.Name):
            inner = [x for x in ast.walk(fn) if isinstance(x, FUNCTIONS)
                     and x is not fn and x.name == f.id]
            if inner:
                return self.gives(m, None, inner[0])
            if f.id in bound(fn):
                return False
            got = self.N.look(m, f.id)
            if got:
                return isinstance(got[1], FUNCTIONS) and \
                    self.gives(got[0], None, got[1])
            return f.id in BUILTIN or f.id in self.itertools[m]
        if isinstance(f, ast.Attribute) and f.attr in ITERTOOLS:
            v = f.value
            if isinstance(v, ast.Name) and (
                    v.id + '.' in self.itertools[m] or
                    v.id in self.itertools[m] and f.attr == 'from_iterable'):
                return True
            if isinstance(v, ast.Attribute) and f.attr == 'from_iterable':
                return True
        r = Reader(self.N, m, cls, fn).target(f)
        if r and r[0] == 'call' and r[3].name != '__init__':
            return self.gives(r[1], r[2], r[3])
        return False


class Keep(Reader):
    """One local name bound to a one-shot iterator by one assignment."""

    def __init__(self, names, m, cls, fn, source, target, only):
        Reader.__init__(self, names, m, cls, fn)
        self.source = source
        self.mark = target
        self.only = only        # nothing else is assigned to the name
        self.kept = []          # (node, what)
        self.most = 0

    def follow(self):
        self.ends = None
        self.block(self.fn.body, State(frozenset(), 0))
        called = {x.func.id for x in own(self.fn)
                  if isinstance(x, ast.Call) and isinstance(x.func, ast.Name)}
        for f in own(self.fn):
            # read once more by a function that is called later
            if isinstance(f, FUNCTIONS) and f.name not in called and \
                    self.mark not in bound(f):
                r = Keep(self.N, self.m, None, f, None, self.mark, False)
                n = r.run(self.mark)
                self.uses += r.uses
                if n and self.most and not self.bad:
                    self.bad.append((f, 'it is read a second time by %s'
                                     % f.name))
        return self

    def consume(self, node, st, n=1):
        Reader.consume(self, node, st, n)
        self.most = max(self.most, st.passes)

    def e_Call(self, e, st):
        target = self.target(e.func)
        if target and target[0] == 'call':
            for i, k, a in [(i, None, a) for i, a in enumerate(e.args)] + \
                    [(0, k.arg, k.value) for k in e.keywords]:
                if self.ev_alias(a, st):
                    f = stores(self, target, i, k)
                    if f:
                        self.kept.append((f, ast.unparse(f)))
        return Reader.e_Call(self, e, st)

    def s_Assign(self, s, st):
        if s is not self.source and self.ev_alias(s.value, st):
            for t in s.targets:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    self.kept.append((t, ast.unparse(t)))
        st = Reader.s_Assign(self, s, st)
        if s is self.source:
            st.names = frozenset([self.mark])
            st.passes, st.at = 0, ()
        return st

    def ev_alias(self, e, st):
        return isinstance(e, ast.Name) and e.id in st.names

    def s_Return(self, s, st):
        v = s.value
        for e in v.elts if isinstance(v, ast.Tuple) else [v]:
            if self.ev_alias(e, st):
                self.kept.append((s, 'return'))
        return Reader.s_Return(self, s, st)

    def s_If(self, s, st):
        self.truth(s.test, st)
        return Reader.s_If(self, s, st)

    def truth(self, e, st):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.truth(e.operand, st)
        if isinstance(e, ast.BoolOp):
            for v in e.values:
                self.truth(v, st)
        elif self.only and self.ev_alias(e, st):
            self.bad.append((e, 'its truth is tested, and an iterator is '
                             'always true'))

    def wrong(self, node, message, st):
        if 'searched' in message:
            self.consume(node, st)
        elif self.only and message in SEQUENCE:
            Reader.wrong(self, node, message, st)


def stores(reader, target, i, k):
    """The field in which a called function keeps this argument as it is."""
    _, m, cls, fn, skip = target
    p = reader.param(fn, i, k, skip)
    stored = [x for x in own(fn) if isinstance(x, ast.Name) and x.id == p and
              isinstance(x.ctx, ast.Store)]
    if p is None or stored or cls is None:
        return None
    for x in own(fn):
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and \
                x.value.id == p:
            for t in x.targets:
                if isinstance(t, ast.Attribute):
                    return t
    return None


def by_hand(fn, name):
    """Stepped with next, or a loop over it is left early and resumed."""
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                x.func.id == 'next' and x.args and \
                isinstance(x.args[0], ast.Name) and x.args[0].id == name:
            return True
        if isinstance(x, ast.For) and isinstance(x.iter, ast.Name) and \
                x.iter.id == name and any(
                    isinstance(y, ast.Break) for y in ast.walk(x)):
            return True
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) \
                and x.value.id == name and x.attr in (
                    'send', 'close', 'throw', '__next__'):
            return True
    return False


def plain_iter(e):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
        e.func.id == 'iter'


def qual(cls, fn):
    return (cls.name + '.' if cls else '') + fn.name


def sources(prog, m, cls, fn):
    """-> (assignment, name) binding a local name to a one-shot iterator"""
    for s in own(fn):
        if not isinstance(s, ast.Assign):
            continue
        pairs = [(t, s.value) for t in s.targets]
        for t, v in list(pairs):
            if isinstance(t, ast.Tuple) and isinstance(v, ast.Tuple) and \
                    len(t.elts) == len(v.elts):
                pairs += list(zip(t.elts, v.elts))
        for t, v in pairs:
            if isinstance(t, ast.Name) and not plain_iter(v) and \
                    prog.oneshot(m, cls, fn, v):
                yield s, t.id


def stepped(cls, attr):
    for x in ast.walk(cls):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                x.func.id == 'next' and x.args and \
                isinstance(x.args[0], ast.Attribute) and \
                x.args[0].attr == attr:
            return True
    return False


def judge(prog, stored, rep):
    """stored: {module: [qualified names]}, None for all"""
    for m, md in sorted(prog.modules.items()):
        top = ast.parse('def module(): pass').body[0]
        top.body = md.tree.body
        for s, name in sources(prog, m, None, top):
            rep.count('module names inspected')
            if not by_hand(md.tree, name) and not any(
                    isinstance(x, ast.Delete) and name in ast.unparse(x)
                    for x in md.tree.body) and any(
                    isinstance(x, ast.Name) and x.id == name and
                    isinstance(x.ctx, ast.Load) and name not in bound(f)
                    for mm, _, o, f in prog.functions() if mm == m
                    for x in own(f)):
                rep.add('field can be read only once', m, name,
                        'it is set to %s' % ast.unparse(s.value),
                        line=s.lineno)
    for m, cls, outer, fn in prog.functions():
        label = '.'.join([m] + ([cls.name] if cls else []) +
                         [o.name for o in outer] + [fn.name])
        rep.count('functions inspected')
        kept = not outer and (stored is None or
                              qual(cls, fn) in stored.get(m, ()))

        def one(e):
            return prog.oneshot(m, cls, fn, e)
        if kept:
            rep.count('results inspected')
            if generator(fn):
                rep.add('result can be read only once', label, fn.name,
                        'it has become a generator', line=fn.lineno)
        sites = []
        for s, name in sources(prog, m, cls, fn):
            rep.count('iterators bound to names')
            if by_hand(fn, name):
                rep.count('iterators stepped by hand')
                continue
            others = [x for x in ast.walk(fn) if isinstance(x, ast.Name)
                       and x.id == name and isinstance(x.ctx, ast.Store)]
            only = len(others) == 1 or s in fn.body and all(
                x.lineno <= s.lineno for x in others)
            k = Keep(prog.N, m, cls, fn, s, name, only).follow()
            rep.count('uses of iterators inspected', k.uses)
            for node, text in k.bad:
                rep.add('iterator read again', label, '%s: %s' % (
                    name, ast.unparse(node)), '%s: %s' % (name, text),
                    line=getattr(node, 'lineno', 0))
            sites += [(node, what, s.value) for node, what in k.kept]
        for x in own(fn):
            if isinstance(x, ast.Return) and x.value is not None:
                for e in x.value.elts if isinstance(
                        x.value, ast.Tuple) else [x.value]:
                    if one(e):
                        sites.append((x, 'return', e))
            elif isinstance(x, (ast.Assign, ast.AnnAssign)) and \
                    x.value is not None and one(x.value):
                for t in (x.targets if isinstance(x, ast.Assign)
                          else [x.target]):
                    sites.append((t, ast.unparse(t), x.value))
            elif isinstance(x, ast.DictComp):
                rep.count('entries inspected')
                if one(x.value):
                    sites.append((x, 'entry', x.value))
            elif isinstance(x, ast.Dict):
                for v in x.values:
                    rep.count('entries inspected')
                    if one(v):
                        sites.append((x, 'entry', v))
            elif isinstance(x, (ast.ListComp, ast.SetComp)):
                rep.count('entries inspected')
                if one(x.elt):
                    sites.append((x, 'entry', x.elt))
            elif isinstance(x, ast.Yield) and x.value is not None and \
                    not outer and not fn.name.startswith('_'):
                rep.count('streamed items inspected')
                for e in x.value.elts if isinstance(
                        x.value, ast.Tuple) else [x.value]:
                    if one(e):
                        sites.append((x, 'item', e))
            elif isinstance(x, ast.Call):
                if isinstance(x.func, ast.Name) and x.func.id in (
                        'dict', 'list', 'set', 'tuple') and x.args and \
                        isinstance(x.args[0], ast.GeneratorExp):
                    rep.count('entries inspected')
                    e = x.args[0].elt
                    for e in e.elts if isinstance(e, ast.Tuple) else [e]:
                        if one(e):
                            sites.append((x, 'entry', e))
                target = Reader(prog.N, m, cls, fn).target(x.func)
                if not target or target[0] != 'call':
                    continue
                for i, k, a in [(i, None, a) for i, a in enumerate(x.args)] \
                        + [(0, k.arg, k.value) for k in x.keywords]:
                    if plain_iter(a) or not one(a):
                        continue
                    rep.count('iterators handed to the package')
                    r = Reader(prog.N, m, cls, fn)
                    f = stores(r, target, i, k)
                    if f:
                        sites.append((f, ast.unparse(f), a))
                    r.callee(target, x, i, k)
                    for node, text in r.bad:
                        if text.startswith(SEQUENCE + (
                                'it is read a second time',)):
                            rep.add('iterator read again', label,
                                    ast.unparse(x), '%s: %s' % (
                                        ast.unparse(node), text),
                                    line=x.lineno)
        for node, what, e in sites:
            if what == 'return':
                if kept and not fn.name == '__iter__':
                    rep.add('result can be read only once', label,
                            ast.unparse(node), 'it returns %s' %
                            ast.unparse(e), line=node.lineno)
            elif what in ('entry', 'item'):
                if not plain_iter(e) or any(
                        isinstance(x, ast.Return) and x.value is node
                        for x in own(fn)):
                    rep.add('entry can be read only once', label,
                            ast.unparse(node), '%s is %s' % (
                                what, ast.unparse(e)), line=node.lineno)
            elif isinstance(node, ast.Subscript):
                if not plain_iter(e) and not isinstance(
                        node.slice, ast.Slice):
                    rep.add('entry can be read only once', label, what,
                            'it is set to %s' % ast.unparse(e),
                            line=node.lineno)
            elif isinstance(node, ast.Attribute):
                rep.count('fields inspected')
                if cls is None or not stepped(cls, node.attr):
                    rep.add('field can be read only once', label, what,
                            'it is set to %s' % ast.unparse(e),
                            line=node.lineno)


EXAMPLES = '''
from itertools import chain

def good_list(A):
    x = list(map(str, A))
    return len(x), x

def good_once(A):
    x = (a + 1 for a in A)
    return sum(x)

def good_branch(A, flag):
    x = map(str, A)
    if flag:
        return list(x)
    return set(x)

def good_loop(A):
    out = []
    for a in A:
        x = zip(a, a)
        out.append(list(x))
    return out

def good_stepped(A):
    x = (a for a in A)
    first = next(x)
    return [first] + [y for y in x]

def good_shadow(A, reversed):
    return reversed(A)

def good_slice(A):
    B = list(A)
    B[:] = reversed(B)
    return B

def _stream(A):
    for a in A:
        yield a

def good_stored(A):
    return {k: list(_stream(A)) for k in A}

def good_pairs(A):
    return dict((k, set(v)) for k, v in A)

TABLE = [x for x in 'abc']

def good_table():
    return len(TABLE)

class Good:
    def __init__(self, A):
        self.a = [x for x in A]

def bad_twice(A):
    x = map(str, A)
    return len(list(x)), sum(1 for y in x)

def bad_in_loop(A, B):
    x = (a for a in A)
    return [b for b in B if b in x]

def bad_nested(A, B):
    x = _stream(A)
    out = []
    for b in B:
        for a in x:
            out.append((a, b))
    return out

def bad_truth(A):
    x = [a for a in A]
    x2 = filter(None, x)
    if not x2:
        return []
    return list(x2)

def bad_result(A):
    return reversed(list(A))

def bad_result_chain(A):
    return chain(A, A)

def bad_result_name(A):
    x = _stream(A)
    return x

def bad_result_call(A):
    return bad_result(A)

def bad_generator(A):
    yield A

def bad_entry(A):
    return {k: (v for v in A if v != k) for k in A}

def bad_entry_iter(A):
    return {k: iter(A[k]) for k in A}

def good_entry_iter(A):
    rest = {k: iter(A[k]) for k in A}
    return [next(rest[k]) for k in A]

def bad_entry_pairs(A):
    return dict((k, map(str, A)) for k in A)

def bad_entry_set(A):
    D = {}
    for k in A:
        D[k] = map(str, A)
    return D

def _double(A):
    return max(A) - min(A)

def bad_handed(A):
    return _double(a * a for a in A)

class Keeper:
    def __init__(self, items):
        self.items = items

def bad_kept(A):
    return Keeper(a for a in A)

def bad_kept_name(A):
    x = (a for a in A)
    return Keeper(x)

def bad_closure(A, later):
    x = (a for a in A)
    for y in x:
        print(y)
    def undo():
        for y in x:
            print(y)
    later.append(undo)

class Bad:
    def __init__(self, A):
        self.a = (x for x in A)
'''


def check_c33(tier):
    rep = Report()
    tree = parse(EXAMPLES, '<examples>')
    prog = Program({'ex': Module('ex', '/ex.py', tree, EXAMPLES)})
    r = Report()
    judge(prog, {'ex': [s.name for s in tree.body if isinstance(
        s, ast.FunctionDef) and not s.name.startswith('_')]}, r)
    found = {f.where.split('.')[1] for f in r.findings}
    n = 0
    for s in tree.body:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and \
                not s.name.startswith('_'):
            n += 1
            if (s.name in found) != s.name.lower().startswith('bad'):
                raise AnalysisError('the rule misjudges its example ' +
                                    s.name)
    prog = Program(load_modules())
    with open(os.path.join(HERE, 'stored.json')) as f:
        stored = json.load(f)
    for m in stored:
        if m not in prog.modules:
            raise AnalysisError('module %s has vanished' % m)
    judge(prog, stored, rep)
    rep.count('rule examples checked', n)
    rep.need('results inspected', 150)
    rep.need('iterators bound to names', 1)
    rep.explanation = (
        'Every expression that gives a one-shot iterator is found by an '
        'inference over the package; names bound to one are followed with '
        'the pass counting of C25, and none may be returned by an operation '
        'that gives a stored result, kept in a field or made an entry of a '
        'dictionary or list.')
    rep.assumptions = ['an unknown callee reads its argument once',
                       'an iterator made with iter() is stepped by hand']
    return rep
