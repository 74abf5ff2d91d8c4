"""C32: every argument counts.  A forward taint analysis (data and control
dependence, strong updates of names, over branches and loops to a fixpoint)
per parameter of the public operations: the value must reach a result, an
effect, a decision, or a parameter of another operation that counts; an
option that is handed on to another operation must be handed on at every call
of it."""
import ast
import json
import os

from props_l import Names
from report import Report
from scopes import AnalysisError, Module, load_modules, parse

HERE = os.path.dirname(os.path.abspath(__file__))
PURE = {'int', 'len', 'list', 'tuple', 'set', 'frozenset', 'dict', 'str',
        'repr', 'sorted', 'min', 'max', 'abs', 'sum', 'isinstance', 'bool',
        'float', 'iter', 'enumerate', 'zip', 'map', 'filter', 'range',
        'reversed', 'any', 'all', 'hasattr', 'callable', 'type', 'id',
        'hash', 'ord', 'chr', 'divmod', 'round', 'getattr', 'partial'}
FUNCTIONS = (ast.FunctionDef, ast.AsyncFunctionDef)


def params(fn):
    a = fn.args
    out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    if a.vararg:
        out.append(a.vararg.arg)
    if a.kwarg:
        out.append(a.kwarg.arg)
    return out


def optional(fn):
    a = fn.args
    out = [x.arg for x in a.args[len(a.args) - len(a.defaults):]
           if a.defaults]
    out += [x.arg for x in a.kwonlyargs]
    return out


class Program(object):
    def __init__(self, modules):
        self.N = Names(modules)
        self.modules = modules
        self.memo = {}
        self.loaded = set()
        for md in modules.values():
            for x in ast.walk(md.tree):
                if isinstance(x, ast.Attribute) and isinstance(
                        x.ctx, (ast.Load, ast.Del)):
                    self.loaded.add(x.attr)
                elif isinstance(x, ast.AugAssign) and isinstance(
                        x.target, ast.Attribute):
                    pass

    def find(self, m, qual):
        """-> (class or None, function)"""
        cls, _, name = qual.rpartition('.')
        if not cls:
            fn = self.N.top.get((m, name))
            return (None, fn) if isinstance(fn, FUNCTIONS) else None
        c = self.N.top.get((m, cls))
        if isinstance(c, ast.ClassDef):
            for s in c.body:
                if isinstance(s, FUNCTIONS) and s.name == name:
                    return c, s
        return None

    def counts(self, m, cls, fn, p):
        key = (id(fn), p)
        if key not in self.memo:
            self.memo[key] = False      # handing on to itself is no use
            self.memo[key] = Flow(self, m, cls, fn, {p}).run()
        return self.memo[key]


class Flow(object):
    def __init__(self, prog, m, cls, fn, start, local=None):
        self.P, self.m, self.cls, self.fn = prog, m, cls, fn
        self.start = set(start)
        self.used = False
        self.ever = set(start)
        self.local = dict(local or {})
        for s in ast.walk(fn):
            if isinstance(s, FUNCTIONS) and s is not fn:
                self.local[s.name] = s
        self.mentioned = {x.id for x in ast.walk(fn)
                          if isinstance(x, ast.Name)
                          and isinstance(x.ctx, ast.Load)}

    def run(self):
        self.block(self.fn.body, set(self.start))
        return self.used

    # ----- calls
    def callee(self, call):
        """-> (module, class, function, bound): bound when the first
        parameter is filled by the receiver"""
        f = call.func
        N = self.P.N
        if isinstance(f, ast.Name):
            if f.id in self.local:
                return self.m, self.cls, self.local[f.id], False
            got = N.look(self.m, f.id)
            if got and isinstance(got[1], FUNCTIONS):
                return got[0], None, got[1], False
            if got and isinstance(got[1], ast.ClassDef):
                r = N.method(got[0], got[1], '__init__')
                if r:
                    return r[0], r[1], r[2], True
        elif isinstance(f, ast.Attribute):
            b = f.value
            if isinstance(b, ast.Name):
                if self.cls is not None and b.id == self.selfname():
                    r = N.method(self.m, self.cls, f.attr)
                    if r:
                        return r[0], r[1], r[2], True
                got = N.look(self.m, b.id)
                if got and isinstance(got[1], ast.ClassDef):
                    r = N.method(got[0], got[1], f.attr)
                    if r:
                        return r[0], r[1], r[2], False
            elif isinstance(b, ast.Call) and isinstance(
                    b.func, ast.Name) and b.func.id == 'super' and \
                    self.cls is not None:
                r = N.method(self.m, self.cls, f.attr, True)
                if r:
                    return r[0], r[1], r[2], True
        return None

    def selfname(self):
        a = self.fn.args.args
        return a[0].arg if a else None

    def bind(self, call, fn, bound):
        """[(expression, parameter of the callee or None)]"""
        names = [x.arg for x in fn.args.posonlyargs + fn.args.args]
        if bound:
            names = names[1:]
        out = []
        star = False
        for i, a in enumerate(call.args):
            if isinstance(a, ast.Starred):
                star = True
                out.append((a.value, None))
            elif star:
                out.append((a, None))
            elif i < len(names):
                out.append((a, names[i]))
            else:
                out.append((a, fn.args.vararg.arg if fn.args.vararg
                            else None))
        for k in call.keywords:
            if k.arg is None:
                out.append((k.value, None))
            elif k.arg in params(fn):
                out.append((k.value, k.arg))
            else:
                out.append((k.value, fn.args.kwarg.arg if fn.args.kwarg
                            else None))
        return out

    def call(self, e, st):
        got = self.callee(e)
        f = e.func
        inner = self.expr(f.value, st) if isinstance(f, ast.Attribute) \
            else self.expr(f, st)
        if got:
            m, cls, fn, bound = got
            tainted = False
            for x, p in self.bind(e, fn, bound):
                if self.expr(x, st):
                    if p is None or self.P.counts(m, cls, fn, p):
                        self.used = True
                        tainted = True
            return tainted or inner
        name = f.id if isinstance(f, ast.Name) else None
        parts = [a.value if isinstance(a, ast.Starred) else a
                 for a in e.args] + [k.value for k in e.keywords]
        hit = any([self.expr(a, st) for a in parts])
        if name in PURE and not inner:
            return hit
        if isinstance(f, ast.Attribute) and not inner and hit and \
                isinstance(f.value, ast.Constant):
            return True         # "..".join(p), "..".format(p)
        if inner or hit:
            self.used = True
        if hit and isinstance(f, ast.Attribute) and isinstance(
                f.value, ast.Name):
            st.add(f.value.id)      # options.update(p)
            self.ever.add(f.value.id)
        return inner or hit

    # ----- expressions
    def expr(self, e, st):
        """May the value depend on the parameter?"""
        if e is None or isinstance(e, ast.Constant):
            return False
        if isinstance(e, ast.Name):
            return e.id in st
        if isinstance(e, ast.Call):
            return self.call(e, st)
        if isinstance(e, ast.Lambda):
            inner = st - {a.arg for a in e.args.args}
            return self.expr(e.body, inner) or any(
                [self.expr(d, st) for d in e.args.defaults])
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            st = set(st)
            hit = False
            for g in e.generators:
                h = self.expr(g.iter, st)
                names = {x.id for x in ast.walk(g.target)
                         if isinstance(x, ast.Name)}
                st = st | names if h else st - names
                hit = hit or h
                hit = any([self.expr(c, st) for c in g.ifs]) or hit
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp)
                      else [e.elt]):
                hit = self.expr(x, st) or hit
            return hit
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            if self.expr(e.value, st):
                self.used = True
            return False
        if isinstance(e, ast.NamedExpr):
            h = self.expr(e.value, st)
            if h:
                st.add(e.target.id)
                self.ever.add(e.target.id)
            else:
                st.discard(e.target.id)
            return h
        return any([self.expr(c, st) for c in ast.iter_child_nodes(e)
                    if isinstance(c, (ast.expr, ast.slice))])

    # ----- statements
    def store(self, t, h, st):
        if isinstance(t, ast.Name):
            if h:
                st.add(t.id)
                self.ever.add(t.id)
            else:
                st.discard(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x, h, st)
        elif isinstance(t, ast.Starred):
            self.store(t.value, h, st)
        elif isinstance(t, ast.Attribute):
            if (h or self.expr(t.value, st)) and t.attr in self.P.loaded:
                self.used = True
        elif isinstance(t, ast.Subscript):
            if h or self.expr(t.value, st) or self.expr(t.slice, st):
                self.used = True

    def block(self, body, st):
        for s in body:
            st = self.statement(s, st)
        return st

    def plain(self, body):
        """Only gives values to names (or does nothing)."""
        out = set()
        for s in body:
            if isinstance(s, ast.Pass) or isinstance(
                    s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                for t in (s.targets if isinstance(s, ast.Assign)
                          else [s.target]):
                    for x in ast.walk(t):
                        if isinstance(x, (ast.Attribute, ast.Subscript)):
                            return None
                        if isinstance(x, ast.Name):
                            out.add(x.id)
                continue
            if isinstance(s, ast.If):
                for b in (s.body, s.orelse):
                    got = self.plain(b)
                    if got is None:
                        return None
                    out |= got
                continue
            return None
        return out

    def statement(self, s, st):
        if isinstance(s, ast.Assign):
            h = self.expr(s.value, st)
            for t in s.targets:
                self.store(t, h, st)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.store(s.target, self.expr(s.value, st), st)
        elif isinstance(s, ast.AugAssign):
            h = self.expr(s.value, st) or self.expr(
                load(s.target), st)
            self.store(s.target, h, st)
        elif isinstance(s, (ast.Return,)):
            if self.expr(s.value, st):
                self.used = True
        elif isinstance(s, ast.Expr):
            self.expr(s.value, st)
        elif isinstance(s, ast.Raise):
            pass                    # the text of an error is no use
        elif isinstance(s, ast.Assert):
            if self.expr(s.test, st):
                self.used = True
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if not isinstance(t, ast.Name) and self.expr(load(t), st):
                    self.used = True
        elif isinstance(s, ast.If) and isinstance(s.test, ast.Constant):
            st = self.block(s.body if s.test.value else s.orelse, st)
        elif isinstance(s, ast.If):
            h = self.expr(s.test, st)
            names = None
            if h:
                a, b = self.plain(s.body), self.plain(s.orelse)
                if a is None or b is None:
                    self.used = True
                else:
                    names = a | b
            x = self.block(s.body, set(st))
            y = self.block(s.orelse, set(st))
            st = x | y
            if names:
                st |= names
                self.ever |= names
        elif isinstance(s, (ast.While, ast.For)):
            if isinstance(s, ast.While):
                if self.expr(s.test, st):
                    self.used = True
            else:
                h = self.expr(s.iter, st)
                if h:
                    self.used = True
                self.store(s.target, h, st)
            for _ in range(3):
                new = self.block(s.body, set(st)) | st
                if new == st:
                    break
                st = new
                if isinstance(s, ast.While) and self.expr(s.test, st):
                    self.used = True
            st = st | self.block(s.orelse, set(st))
        elif isinstance(s, ast.With):
            for i in s.items:
                h = self.expr(i.context_expr, st)
                if h:
                    self.used = True
                if i.optional_vars is not None:
                    self.store(i.optional_vars, h, st)
            st = self.block(s.body, st)
        elif isinstance(s, ast.Try):
            before = set(st)
            st = self.block(s.body, st)
            out = self.block(s.orelse, set(st))
            for h in s.handlers:
                out |= self.block(h.body, before | st)
            st = self.block(s.finalbody, out)
        elif isinstance(s, FUNCTIONS):
            if s.name in self.mentioned:
                free = st | self.ever
                inner = free - set(params(s))
                mine = {x.id for x in ast.walk(s) if isinstance(x, ast.Name)}
                if inner & mine:
                    F = Flow(self.P, self.m, self.cls, s, inner, self.local)
                    if F.run():
                        self.used = True
                for d in s.args.defaults:
                    if self.expr(d, st):
                        self.used = True
        elif isinstance(s, ast.ClassDef):
            if any(isinstance(x, ast.Name) and x.id in st
                   for x in ast.walk(s)):
                self.used = True
        elif isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass, ast.Break,
                            ast.Continue, ast.Import, ast.ImportFrom)):
            pass
        else:
            if any(isinstance(x, ast.Name) and x.id in st
                   for x in ast.walk(s)):
                self.used = True
        return st


def some_only(fn, p):
    """Of a list of arguments only chosen positions are looked at."""
    if not fn.args.vararg or fn.args.vararg.arg != p:
        return None
    part, whole = None, False
    inside = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Subscript) and isinstance(
                x.value, ast.Name) and x.value.id == p:
            s = x.slice
            if isinstance(s, ast.Slice):
                fixed = isinstance(s.upper, ast.Constant)
            else:
                fixed = isinstance(s, (ast.Constant, ast.UnaryOp))
            if fixed:
                part = x
                inside.add(id(x.value))
        elif isinstance(x, ast.Call) and isinstance(
                x.func, ast.Name) and x.func.id == 'len' and len(
                x.args) == 1 and isinstance(x.args[0], ast.Name):
            inside.add(id(x.args[0]))
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id == p and id(x) not in inside:
            whole = True
    return None if whole else part


def load(t):
    t = ast.parse(ast.unparse(t), mode='eval').body
    return t


# ----- options handed on
def qual(m, cls, fn):
    return '%s.%s' % (m, (cls.name + '.' if cls is not None else '')
                      + fn.name)


def branches(fn, ever):
    """Calls under a condition that depends on the option."""
    out = set()

    def go(node, under):
        for c in ast.iter_child_nodes(node):
            u = under
            if isinstance(node, (ast.If, ast.IfExp, ast.While)) and \
                    c is not node.test and any(
                        isinstance(x, ast.Name) and x.id in ever
                        for x in ast.walk(node.test)):
                u = True
            if isinstance(c, ast.Call) and u:
                out.add(id(c))
            go(c, u)
        # statements after a conditional that may leave
    go(fn, False)
    seen = False
    for s in fn.body:
        if seen:
            for x in ast.walk(s):
                if isinstance(x, ast.Call):
                    out.add(id(x))
        if isinstance(s, ast.If) and any(
                isinstance(x, ast.Name) and x.id in ever
                for x in ast.walk(s.test)) and any(
                    isinstance(x, (ast.Return, ast.Raise))
                    for x in ast.walk(s)):
            seen = True
    return out


def handed_on(prog, m, cls, fn, p):
    """[(callee, its option, call, handed on?, under a test of p?)]"""
    F = Flow(prog, m, cls, fn, {p})
    F.run()
    under = branches(fn, F.ever)
    out = []
    for x in ast.walk(fn):
        if not isinstance(x, ast.Call):
            continue
        got = F.callee(x)
        if not got or got[2] in F.local.values():
            continue
        m2, c2, g, bound = got
        pairs = F.bind(x, g, bound)
        wild = any(q is None and mentions(e, F.ever) for e, q in pairs)
        opts = optional(g)
        if g.args.kwarg:
            opts.append(g.args.kwarg.arg)
        for q in opts:
            given = [e for e, r in pairs if r == q]
            if g.args.kwarg and q == g.args.kwarg.arg:
                given += [k.value for k in x.keywords if k.arg is None]
            if not given and wild:
                continue
            ok = any(mentions(e, F.ever) for e in given)
            out.append((qual(m2, c2, g), q, x, ok, id(x) in under,
                        bool(given)))
    return out


def mentions(e, names):
    return any(isinstance(x, ast.Name) and x.id in names
               for x in ast.walk(e))


EXAMPLES = '''
def good_plain(a, b=None):
    if b is None:
        b = 0
    return a + b

def good_control(a, flag=False):
    out = []
    if flag:
        out.append(a)
    return out

def good_nested(a, b):
    def f(x):
        return x + b
    return f(a)

def good_rec(a, b=1):
    if a:
        return good_rec(a - 1, b)
    return b

def bad_dead(a, b=None):
    return a

def bad_default(a, b=None):
    if b is None:
        b = 0
    return a

def bad_over(a, b=2):
    b = a
    return a + b

def bad_pass(a, b=2):
    return _ignore(a, b)

def _ignore(a, b):
    return a

def bad_message(a, b=2):
    if a:
        raise ValueError(b)
    return a

def good_many(*a):
    if len(a) < 2:
        return a[0]
    return max(a)

def bad_many(*a):
    return a[0] if len(a) < 2 else a[0] + a[1]

def bad_recursion(a, b=1):
    if a:
        return bad_recursion(a - 1, b)
    return a

class Good:
    def __init__(self, key=None):
        self.key = key

    def get(self, x):
        return self.key(x)

class Bad:
    def __init__(self, key=None):
        self.unread = key
'''


def check_c32(tier):
    rep = Report()
    tree = parse(EXAMPLES, '<examples>')
    prog = Program({'ex': Module('ex', '/ex.py', tree, EXAMPLES)})
    n = 0
    for s in tree.body:
        if isinstance(s, ast.ClassDef):
            fn, cls, want, p = s.body[0], s, s.name == 'Good', 'key'
        elif s.name.startswith('_'):
            continue
        else:
            fn, cls, want, p = s, None, s.name.startswith('good'), \
                params(s)[-1]
        n += 1
        if (prog.counts('ex', cls, fn, p) and
                some_only(fn, p) is None) != want:
            raise AnalysisError('the rule misjudges its example ' + s.name)
    prog = Program(load_modules())
    with open(os.path.join(HERE, 'arguments.json')) as f:
        table = json.load(f)
    for m, quals in table['arguments'].items():
        if m not in prog.modules:
            raise AnalysisError('module %s has vanished' % m)
        for q, ps in quals.items():
            got = prog.find(m, q)
            if not got:
                rep.count('operations not found')
                continue
            cls, fn = got
            rep.count('operations analysed')
            for p in ps:
                if p not in params(fn):
                    rep.count('arguments not found')
                    continue
                rep.count('arguments followed')
                if not prog.counts(m, cls, fn, p):
                    rep.add('argument ignored', m + '.' + q, p,
                            'the value given for %s reaches no result, '
                            'effect or decision' % p, line=fn.lineno)
                part = some_only(fn, p)
                if part is not None:
                    rep.add('argument ignored', m + '.' + q,
                            ast.unparse(part), 'only some of the arguments '
                            'in *%s are looked at' % p, line=part.lineno)
    for m, q, p, g, o, *once in table['handed on']:
        got = prog.find(m, q)
        if not got or p not in params(got[1]):
            rep.count('options not found')
            continue
        rep.count('options handed on followed')
        calls = [x for x in handed_on(prog, m, got[0], got[1], p)
                 if x[:2] == (g, o)]
        rep.count('calls handing options on inspected', len(calls))
        # 'once': some call does not need it; 'given': a call may give
        # another value, but not leave it out
        if once == ['once'] and any(x[3] for x in calls):
            continue
        if once == ['given'] and not any(x[3] for x in calls):
            once = []
        for _, _, call, ok, under, given in calls:
            if not ok and not under and not (given and once):
                rep.add('option not handed on', m + '.' + q,
                        '%s to %s' % (p, g),
                        'the call of %s does not get %s' % (g, p),
                        line=call.lineno)
    for m, q, p in table['streams']:
        got = prog.find(m, q)
        if not got or p not in params(got[1]):
            rep.count('options not found')
            continue
        for x in ast.walk(got[1]):
            if isinstance(x, ast.Call) and isinstance(
                    x.func, ast.Name) and x.func.id == 'print':
                rep.count('printing calls inspected')
                F = Flow(prog, m, got[0], got[1], {p})
                F.run()
                if not any(mentions(k.value, F.ever) for k in x.keywords
                           if k.arg in ('file', None)):
                    rep.add('argument ignored', m + '.' + q,
                            ast.unparse(x), 'prints elsewhere than to %s'
                            % p, line=x.lineno)
    rep.count('rule examples checked', n)
    rep.need('arguments followed', 200)
    rep.need('options handed on followed', 10)
    rep.explanation = (
        'For each argument of the public operations a forward taint analysis '
        'over data and control dependence, with strong updates, decides '
        'whether its value reaches a result, an effect, a decision or an '
        'argument of another operation that counts. Options handed on to '
        'options of other operations must be handed on at every call.')
    rep.assumptions = ['code outside the package uses what it is given',
                       'the text of an error is not a use of an argument']
    return rep
