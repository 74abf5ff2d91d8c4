"""C34: every way out of an operation gives its answer.  A reachability
analysis over the structure of each function says whether its end can be
reached; calls that give nothing are followed through the package."""
import ast
import json
import os

from props_s import FUNCTIONS, Program, bound, generator, own
from props_l import Reader
from report import Report
from scopes import AnalysisError, load_modules, parse, Module

HERE = os.path.dirname(os.path.abspath(__file__))
# methods of lists that give nothing, and are called nothing else here
PROCEDURES = {'sort', 'append', 'extend', 'insert'}
ON_PLAIN = PROCEDURES | {'reverse', 'add', 'update', 'clear', 'remove',
                         'discard', 'appendleft'}
LAZY = {'map', 'filter', 'zip', 'enumerate', 'reversed', 'sorted'}
CALLED = PROCEDURES | {'reverse', 'pop', 'popleft', 'appendleft', 'popitem',
                       'clear', 'add', 'remove', 'discard', 'update'}


def truth(e):
    """A test that always comes out the same way."""
    if isinstance(e, ast.Constant):
        return bool(e.value)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        v = truth(e.operand)
        return None if v is None else not v
    if isinstance(e, (ast.List, ast.Tuple)):
        return bool(e.elts)
    return None


def negation(a, b):
    """Is one test the other's opposite?"""
    if isinstance(b, ast.UnaryOp) and isinstance(b.op, ast.Not):
        return ast.dump(b.operand) == ast.dump(a)
    if isinstance(a, ast.UnaryOp) and isinstance(a.op, ast.Not):
        return ast.dump(a.operand) == ast.dump(b)
    if isinstance(a, ast.Compare) and isinstance(b, ast.Compare) and \
            len(a.ops) == len(b.ops) == 1:
        opposite = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
                    ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In,
                    ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE,
                    ast.LtE: ast.Gt}
        swapped = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE,
                   ast.GtE: ast.Gt}
        l, r = ast.dump(a.left), ast.dump(a.comparators[0])
        l2, r2 = ast.dump(b.left), ast.dump(b.comparators[0])
        if (l, r) == (l2, r2):
            return opposite.get(type(a.ops[0])) is type(b.ops[0])
        if (l, r) == (r2, l2):
            return swapped.get(type(a.ops[0])) is type(b.ops[0])
    return False


def plain(fn, e):
    """An expression or local name that is a list, dictionary or set."""
    if isinstance(e, (ast.List, ast.ListComp, ast.Dict, ast.DictComp, ast.Set,
                      ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        return isinstance(e.func, ast.Name) and e.func.id in (
            'list', 'dict', 'set', 'sorted')
    if not isinstance(e, ast.Name) or e.id in {
            a.arg for a in fn.args.args + fn.args.kwonlyargs}:
        return False
    given = [x for x in own(fn) if isinstance(x, ast.Assign) and any(
        isinstance(t, ast.Name) and t.id == e.id for t in x.targets)]
    stores = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and
              x.id == e.id and isinstance(x.ctx, ast.Store)]
    return bool(given) and len(given) == len(stores) and all(
        not isinstance(x.value, ast.Name) and plain(fn, x.value) or
        isinstance(x.value, ast.Call) and
        ast.unparse(x.value.func).startswith(e.id + '.')
        for x in given) and any(plain(fn, x.value) for x in given
                                if not isinstance(x.value, ast.Name))


class Ways(object):
    """The ways out of the functions of a package."""

    def __init__(self, prog):
        self.prog = prog
        self.memo = {}
        self.statements = 0

    def target(self, m, cls, fn, f):
        if isinstance(f, ast.Name):
            inner = [x for x in ast.walk(fn) if isinstance(x, FUNCTIONS)
                     and x is not fn and x.name == f.id]
            if inner:
                return m, None, inner[0]
        r = Reader(self.prog.N, m, cls, fn).target(f)
        if r and r[0] == 'call' and r[3].name != '__init__':
            return r[1:4]
        return None

    def ends(self, m, cls, fn):
        """Can the end of the function be reached?"""
        key = id(fn)
        if key not in self.memo:
            self.memo[key] = True
            at = (m, cls, fn)
            self.memo[key] = self.block(fn.body, at)
        return self.memo[key]

    def values(self, fn):
        return [x for x in own(fn) if isinstance(x, ast.Return) and
                x.value is not None and not (
                    isinstance(x.value, ast.Constant) and
                    x.value.value is None)]

    def block(self, body, at):
        ruled_out = []          # tests that did not hold, and still do not
        for s in body:
            self.statements += 1
            if isinstance(s, ast.If) and not s.orelse and any(
                    negation(t, s.test) for t in ruled_out):
                return self.block(s.body, at)
            if not self.stmt(s, at):
                return False
            stored = {x.id for x in ast.walk(s) if isinstance(x, ast.Name)
                      and isinstance(x.ctx, ast.Store)}
            ruled_out = [t for t in ruled_out if not stored & {
                x.id for x in ast.walk(t) if isinstance(x, ast.Name)}]
            if isinstance(s, ast.If) and not s.orelse and \
                    not self.block(s.body, at):
                ruled_out.append(s.test)
        return True

    def breaks(self, body):
        todo = list(body)
        while todo:
            x = todo.pop()
            if isinstance(x, ast.Break):
                return True
            if isinstance(x, (ast.For, ast.While)):
                todo += x.orelse
                continue
            if isinstance(x, FUNCTIONS + (ast.ClassDef, ast.expr)):
                continue
            todo += ast.iter_child_nodes(x)
        return False

    def endless(self, e, at):
        """An iterable that never runs out."""
        if not isinstance(e, ast.Call):
            return False
        f = e.func
        name = f.attr if isinstance(f, ast.Attribute) else \
            f.id if isinstance(f, ast.Name) else None
        t = self.target(*at, f)
        if t:
            return generator(t[2]) and not self.ends(*t) and not any(
                isinstance(x, ast.Return) for x in own(t[2]))
        if name in ('enumerate', 'iter', 'map', 'filter') and e.args:
            if name == 'iter' and len(e.args) == 2:
                return True
            return self.endless(e.args[-1 if name in (
                'map', 'filter') else 0], at)
        if name == 'repeat':
            return len(e.args) == 1
        return name in ('count', 'cycle')

    def stmt(self, s, at):
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return False
        if isinstance(s, ast.Assert):
            return truth(s.test) is not False
        if isinstance(s, ast.If):
            v = truth(s.test)
            return (v is not False and self.block(s.body, at)) | \
                (v is not True and self.other(s, at))
        if isinstance(s, ast.While):
            if self.breaks(s.body):
                return True
            self.block(s.body, at)
            return truth(s.test) is not True and self.block(s.orelse, at)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            if self.breaks(s.body):
                return True
            self.block(s.body, at)
            return not self.endless(s.iter, at) and self.block(s.orelse, at)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            out = self.block(s.body, at)
            return out or any(
                isinstance(i.context_expr, ast.Call) and 'suppress' in
                ast.unparse(i.context_expr.func) for i in s.items)
        if isinstance(s, ast.Try):
            out = self.block(s.body, at) and self.block(s.orelse, at)
            for h in s.handlers:
                out |= self.block(h.body, at)
            return self.block(s.finalbody, at) and out
        if isinstance(s, ast.Match):
            out = not any(isinstance(c.pattern, ast.MatchAs) and
                          c.pattern.pattern is None and c.guard is None
                          for c in s.cases)
            for c in s.cases:
                out |= self.block(c.body, at)
            return out
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            f = s.value.func
            if isinstance(f, ast.Attribute) and f.attr in (
                    'exit', '_exit') and isinstance(f.value, ast.Name) and \
                    f.value.id in ('sys', 'os'):
                return False
            t = self.target(*at, f)
            # a function that always raises
            if t and not generator(t[2]) and not self.ends(*t) and not any(
                    isinstance(x, ast.Return) for x in own(t[2])):
                return False
        return True

    def other(self, s, at):
        """The else part; an elif chain whose tests leave nothing open."""
        if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If) and \
                not s.orelse[0].orelse and \
                negation(s.test, s.orelse[0].test):
            return self.block(s.orelse[0].body, at)
        return self.block(s.orelse, at)

    def nothing(self, m, cls, fn, e, depth=0):
        """Does this expression give nothing, at least on some way?"""
        if isinstance(e, ast.Constant):
            return 'None' if e.value is None else None
        if isinstance(e, ast.IfExp):
            return self.nothing(m, cls, fn, e.body, depth) or \
                self.nothing(m, cls, fn, e.orelse, depth)
        if not isinstance(e, ast.Call):
            return None
        f = e.func
        t = self.target(m, cls, fn, f)
        if t is None:
            if self.procedure(fn, f):
                return ast.unparse(e) + ', which gives nothing'
            if isinstance(f, ast.Attribute) and f.attr == 'shuffle' and \
                    isinstance(f.value, ast.Name) and f.value.id == 'random':
                return ast.unparse(e) + ', which gives nothing'
            return None
        if generator(t[2]) or depth > 4 or t[2].decorator_list:
            return None
        if isinstance(f, ast.Attribute) and isinstance(
                f.value, ast.Name) and cls is not None and \
                any(isinstance(x, ast.Raise) for x in own(t[2])):
            return None                 # a hook, overridden below
        if self.ends(*t):
            return '%s, which may end without an answer' % ast.unparse(e)
        for x in own(t[2]):
            if isinstance(x, ast.Return):
                if x.value is None:
                    return '%s, which may end without an answer' % \
                        ast.unparse(e)
                if t[2] is not fn and self.nothing(*t, x.value, depth + 1):
                    return '%s, which may give nothing' % ast.unparse(e)
        return None

    def procedure(self, fn, f):
        """A method of a list, dictionary or set that gives nothing."""
        if not isinstance(f, ast.Attribute):
            return False
        return f.attr in PROCEDURES and f.attr not in self.methods() or \
            f.attr in ON_PLAIN and plain(fn, f.value)

    def methods(self):
        if 'methods' not in self.memo:
            self.memo['methods'] = {
                s.name for md in self.prog.modules.values()
                for c in ast.walk(md.tree) if isinstance(c, ast.ClassDef)
                for s in c.body if isinstance(s, FUNCTIONS)}
        return self.memo['methods']

    def answers(self, m, cls, fn):
        """-> findings (construct, message, line) for one function"""
        if self.ends(m, cls, fn):
            yield fn.name, 'a way through it ends without an answer', \
                fn.lineno
        for x in own(fn):
            if isinstance(x, ast.Return):
                v = None if x.value is None else self.nothing(
                    m, cls, fn, x.value)
                if x.value is None or v:
                    yield ast.unparse(x), 'it returns ' + (v or 'nothing'), \
                        x.lineno

    def dropped(self, m, cls, fn):
        for x in own(fn):
            if isinstance(x, ast.Assign):
                e = x.value
                if isinstance(e, ast.Call) and self.procedure(fn, e.func) \
                        and self.target(m, cls, fn, e.func) is None:
                    yield ast.unparse(x), 'the value of a procedure that ' \
                        'gives nothing is used', x.lineno
            if not isinstance(x, ast.Expr):
                continue
            e = x.value
            if isinstance(e, ast.GeneratorExp):
                yield ast.unparse(x), 'a generator is thrown away', x.lineno
            elif isinstance(e, ast.Attribute) and e.attr in CALLED:
                yield ast.unparse(x), 'a method is named but not called', \
                    x.lineno
            elif isinstance(e, ast.Call):
                f = e.func
                t = self.target(m, cls, fn, f)
                if t:
                    if generator(t[2]) and not t[2].decorator_list:
                        yield ast.unparse(x), 'the generator it makes is ' \
                            'thrown away', x.lineno
                elif isinstance(f, ast.Name) and f.id in LAZY and \
                        not self.prog.N.look(m, f.id) and \
                        f.id not in bound(fn):
                    yield ast.unparse(x), 'the iterator it makes is ' \
                        'thrown away', x.lineno


def judge(prog, table, rep):
    ways = Ways(prog)
    for m, cls, outer, fn in prog.functions():
        label = '.'.join([m] + ([cls.name] if cls else []) +
                         [o.name for o in outer] + [fn.name])
        rep.count('functions inspected')
        name = '.'.join(([cls.name] if cls else []) +
                        [o.name for o in outer] + [fn.name])
        if name in table.get(m, ()) and not generator(fn):
            rep.count('answering functions followed')
            for c, text, line in ways.answers(m, cls, fn):
                rep.add('no answer', label, c, text, line=line)
        for c, text, line in ways.dropped(m, cls, fn):
            rep.add('work thrown away', label, c, text, line=line)
        rep.count('ways out inspected', len(ways.values(fn)))
    rep.count('statements passed', ways.statements)


EXAMPLES = '''
from itertools import count

def good_branches(a):
    if a:
        return 1
    else:
        raise ValueError

def good_while(a):
    while True:
        if a():
            return 1

def good_for(a):
    for x in count():
        if a(x):
            return x

def good_try(a):
    try:
        return a()
    except KeyError:
        return 0

def good_chain(a):
    if a is None:
        return 0
    elif a is not None:
        return 1

def good_twice(a, b):
    if a:
        return 0
    b = b + 1
    if not a:
        return b

def bad_twice(a, b):
    if a:
        return 0
    a = b
    if not a:
        return b

def good_raise(a):
    if a:
        return 1
    _fail(a)

def good_with(a):
    with open(a) as f:
        return f.read()

def good_finally(a):
    try:
        x = a()
    finally:
        print(a)
    return x

def good_stream(a):
    return list(_stream(a))

def good_call(a):
    return good_branches(a)

def _fail(a):
    raise ValueError(a)

def _stream(a):
    for x in a:
        yield x

def _halves(a):
    if a:
        return 1

def bad_branch(a):
    if a:
        return 1

def bad_loop(a):
    for x in a:
        if x:
            return x

def bad_break(a):
    while True:
        if a():
            return 1
        break

def bad_except(a):
    try:
        return a()
    except KeyError:
        print(a)

def bad_bare(a):
    if a:
        return
    return 1

def bad_sort(a):
    return a.sort()

def bad_reverse(a):
    out = [x for x in a]
    return out.reverse()

def good_reverse(a):
    return a.reverse()

def bad_helper(a):
    return _halves(a)

def bad_assign(a):
    b = list(a).sort()
    return b

def bad_generator(a):
    _stream(a)
    return a

def bad_map(a):
    map(print, a)
    return a

def bad_named(a):
    a.reverse
    return a

def bad_recursion(a):
    if a:
        return a
    bad_recursion(a - 1)
'''


def check_c34(tier):
    rep = Report()
    tree = parse(EXAMPLES, '<examples>')
    prog = Program({'ex': Module('ex', '/ex.py', tree, EXAMPLES)})
    names = [s.name for s in tree.body if isinstance(s, FUNCTIONS) and
             not s.name.startswith('_')]
    r = Report()
    judge(prog, {'ex': names}, r)
    found = {f.where.split('.')[1] for f in r.findings}
    for n in names:
        if (n in found) != n.startswith('bad'):
            raise AnalysisError('the rule misjudges its example ' + n)
    prog = Program(load_modules())
    with open(os.path.join(HERE, 'answers.json')) as f:
        table = json.load(f)
    for m in table:
        if m not in prog.modules:
            raise AnalysisError('module %s has vanished' % m)
    judge(prog, table, rep)
    rep.count('rule examples checked', len(names))
    rep.need('answering functions followed', 150)
    rep.explanation = (
        'Reachability over the structure of each answering function: its '
        'end, an empty return or a return of nothing must not be reachable; '
        'constant tests, endless loops and iterables, complementary tests '
        'and functions that always raise are recognised. Statements that '
        'make a generator or iterator and drop it are searched for.')
    rep.assumptions = ['code outside the package answers']
    return rep
