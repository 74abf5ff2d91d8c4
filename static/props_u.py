"""C35: no loop goes round with nothing changed.  For each while loop the
variables carried from one round to the next are found (read before they are
written); a must-analysis of the body then asks on every way back to the test
whether one of them was written or something was done that can change data."""
import ast

from props_s import FUNCTIONS, Program
from report import Report
from scopes import AnalysisError, load_modules, parse, Module

PURE = {'len', 'min', 'max', 'abs', 'range', 'isinstance', 'sorted', 'list',
        'set', 'dict', 'tuple', 'sum', 'any', 'all', 'zip', 'enumerate',
        'int', 'str', 'repr', 'bool', 'frozenset', 'reversed', 'float',
        'divmod', 'ord', 'chr', 'hash', 'id', 'round', 'pow', 'type', 'print'}
PURE_METHODS = {'get', 'keys', 'values', 'items', 'count', 'startswith',
                'endswith', 'issubset', 'issuperset', 'copy', 'bit_length',
                'strip', 'split', 'lower', 'upper', 'isdigit', 'join',
                'format', 'difference', 'intersection', 'index', 'find'}


CONTAINER = {n for t in (list, dict, set) for n in dir(t)}


def targets(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and
            isinstance(x.ctx, (ast.Store, ast.Del))}


class Carried(object):
    """Names that may be read in a round before the round has set them."""

    def __init__(self, loop):
        self.names = set()
        self.expr(loop.test, set())
        self.block(loop.body, set())

    def expr(self, e, known):
        if e is None:
            return
        inner = {x.id for c in ast.walk(e) if isinstance(c, ast.comprehension)
                 for x in ast.walk(c.target) if isinstance(x, ast.Name)}
        for x in ast.walk(e):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and \
                    x.id not in known and x.id not in inner:
                self.names.add(x.id)

    def block(self, body, known):
        """-> the names set on every way to the end, None: no way"""
        for s in body:
            known = self.stmt(s, known)
            if known is None:
                return None
        return known

    def meet(self, a, b):
        if a is None or b is None:
            return a if b is None else b
        return a & b

    def stmt(self, s, known):
        if isinstance(s, (ast.Continue, ast.Break)):
            return None
        if isinstance(s, (ast.Return, ast.Raise)):
            for e in ast.iter_child_nodes(s):
                self.expr(e, known)
            return None
        if isinstance(s, ast.If):
            self.expr(s.test, known)
            return self.meet(self.block(s.body, set(known)),
                             self.block(s.orelse, set(known)))
        if isinstance(s, ast.While):
            self.expr(s.test, known)
            self.block(s.body, set(known))
            return self.block(s.orelse, set(known)) if s.orelse else known
        if isinstance(s, (ast.For, ast.AsyncFor)):
            self.expr(s.iter, known)
            self.expr(s.target, known)
            self.block(s.body, known | targets(s.target))
            self.block(s.orelse, set(known))
            return known
        if isinstance(s, ast.Try):
            out = self.block(s.body, set(known))
            if out is not None:
                out = self.block(s.orelse, out)
            for h in s.handlers:
                out = self.meet(out, self.block(h.body, set(known)))
            if s.finalbody:
                self.block(s.finalbody, set(known))
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.expr(i.context_expr, known)
            return self.block(s.body, set(known))
        if isinstance(s, FUNCTIONS + (ast.Lambda, ast.ClassDef)):
            # may be called now or later
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    self.names |= {x.id} - known
            return known | {s.name}
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                self.expr(e, known)
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
            self.names |= {s.target.id} - known
        return known | targets(s)


def read(e):
    """Names, and fields written name.field, that are read."""
    out = set()
    bases = set()
    for x in ast.walk(e) if e is not None else ():
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name):
            bases.add(id(x.value))
            out.add(x.value.id + '.' + x.attr)
        elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and \
                id(x) not in bases:
            out.add(x.id)
    return out


def field(t):
    """The name.field a target stores into."""
    while isinstance(t, (ast.Subscript, ast.Attribute)):
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
            return t.value.id, t.value.id + '.' + t.attr
        t = t.value
    return None


class Deciding(object):
    """The names on which it can depend how the loop goes on: those in a test
    or in what an inner loop runs over, and what these are computed from."""

    def __init__(self, loop, guarded):
        self.inner = set()          # in tests inside the body
        self.feeds = {}             # name -> names it is computed from
        leaves = False
        for s in loop.body:
            for x in ast.walk(s):
                if isinstance(x, (ast.If, ast.IfExp, ast.While, ast.Assert)):
                    self.inner |= read(x.test)
                elif isinstance(x, (ast.For, ast.AsyncFor)):
                    self.inner |= read(x.iter)
                    for n in targets(x.target):
                        self.feeds.setdefault(n, set()).update(read(x.iter))
                elif isinstance(x, ast.BoolOp):
                    self.inner |= read(x)
                elif isinstance(x, ast.comprehension):
                    self.inner |= read(x.iter)
                elif isinstance(x, (ast.Try, ast.With, ast.Lambda) +
                                FUNCTIONS):
                    self.inner |= read(x)
                elif isinstance(x, ast.Match):
                    self.inner |= read(x)
                elif isinstance(x, ast.Assign):
                    for t in x.targets:
                        f = field(t)
                        for n in {f[1]} if f else targets(t):
                            self.feeds.setdefault(n, set()).update(
                                read(x.value))
                elif isinstance(x, (ast.AugAssign, ast.AnnAssign,
                                    ast.NamedExpr)):
                    f = field(x.target)
                    for n in {f[1]} if f else targets(x.target):
                        self.feeds.setdefault(n, set()).update(
                            read(x.value) | ({n} if isinstance(
                                x, ast.AugAssign) else set()))
                if isinstance(x, (ast.Return, ast.Break, ast.Raise)):
                    leaves = True
        self.names = None           # all
        if not guarded and (leaves or not isinstance(loop.test,
                                                     ast.Constant)):
            self.names = self.closure(self.inner | read(loop.test))

    def closure(self, names):
        out = set(names)
        todo = list(names)
        while todo:
            v = todo.pop()
            for n in self.feeds.get(v, set()) | self.feeds.get(
                    v.split('.')[0], set()):
                if n not in out:
                    out.add(n)
                    todo.append(n)
        return out

    def again(self, v):
        """Is the name computed from its own value of the round before?"""
        return v in {n.split('.')[0] for n in self.closure(
            self.feeds.get(v, set()))}


def accumulators(loop, deciding):
    """Names that only take things in during the loop."""
    if deciding.names is None:
        return set()
    uses, taking = {}, {}
    for s in [loop.test] + loop.body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name):
                uses[x.id] = uses.get(x.id, 0) + 1
            n = None
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and \
                    isinstance(x.value.func, ast.Attribute) and \
                    isinstance(x.value.func.value, ast.Name) and \
                    x.value.func.attr in ('append', 'extend', 'add'):
                n = x.value.func.value.id
            elif isinstance(x, ast.AugAssign) and isinstance(
                    x.target, ast.Name):
                n = x.target.id
            elif isinstance(x, ast.Assign) and len(x.targets) == 1 and \
                    isinstance(x.targets[0], ast.Subscript) and \
                    isinstance(x.targets[0].value, ast.Name):
                n = x.targets[0].value.id
            if n:
                taking[n] = taking.get(n, 0) + 1
    return {n for n in taking if taking[n] == uses[n] and
            n not in {d.split('.')[0] for d in deciding.names}}


class Round(object):
    """The ways through the body of one loop.  A state is True (something
    was changed), False, or None (no way)."""

    def __init__(self, loop, fn=None, guarded=False, pure=()):
        self.loop = loop
        self.pure = pure
        self.deciding = Deciding(loop, guarded)
        self.carried = Carried(loop).names
        fresh = self.fresh()
        if self.deciding.names is not None:
            self.carried &= self.deciding.names | {
                n.split('.')[0] for n in self.deciding.names}
        self.taking = accumulators(loop, self.deciding)
        if fn is not None:
            # only what this function has made itself
            made = {n for x in ast.walk(fn) if isinstance(x, ast.Assign) and
                    isinstance(x.value, (ast.List, ast.Dict, ast.Set,
                                         ast.Constant, ast.ListComp,
                                         ast.DictComp))
                    for t in x.targets for n in targets(t)}
            self.taking &= made
        self.taking |= fresh
        # set anew each round from things that have not changed
        self.renewed = {
            v for v in self.carried if self.deciding.names is not None and
            v in self.deciding.feeds and self.deciding.feeds[v] and
            v not in {n.split('.')[0] for n in self.deciding.inner} and not self.deciding.again(v)}
        self.back = []          # (state, statement before)
        self.ways = 0
        start = self.effect(loop.test)
        end = self.block(loop.body, start)
        if end is not None:
            self.way(end, loop.body[-1])

    def fresh(self):
        """Names that hold a container made in the same round."""
        made, all_ = {}, {}
        for s in self.loop.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    all_[x.id] = all_.get(x.id, 0) + 1
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and \
                        isinstance(x.targets[0], ast.Name) and isinstance(
                            x.value, (ast.List, ast.Dict, ast.Set,
                                      ast.ListComp, ast.DictComp,
                                      ast.SetComp)):
                    n = x.targets[0].id
                    made[n] = made.get(n, 0) + 1
        return {n for n in made if made[n] == all_[n] and
                n not in self.carried}

    def way(self, state, s):
        self.ways += 1
        if not state:
            self.back.append(s)

    def effect(self, e):
        """May evaluating this change data?"""
        if e is None:
            return False
        for x in ast.walk(e):
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)):
                # the same item for ever, or an endless stream on purpose
                if e is not x or isinstance(self.loop.test, ast.Constant) \
                        or self.deciding.names is None:
                    return True
            if isinstance(x, ast.NamedExpr) and \
                    x.target.id in self.carried:
                return True
            if isinstance(x, ast.Call):
                f = x.func
                if isinstance(f, ast.Name) and f.id in PURE and \
                        not any(isinstance(y, ast.Lambda)
                                for y in ast.walk(x)):
                    if f.id in ('list', 'set', 'tuple', 'dict', 'sum', 'any',
                                'all', 'min', 'max', 'sorted') and any(
                            isinstance(a, ast.Name) and
                            a.id in self.carried for a in x.args):
                        # may step an iterator
                        if f.id not in ('min', 'max', 'sum', 'sorted'):
                            return True
                    continue
                if isinstance(f, ast.Attribute) and f.attr in PURE_METHODS:
                    continue
                if isinstance(f, ast.Attribute) and isinstance(
                        f.value, ast.Name) and f.value.id in self.taking:
                    continue
                if isinstance(f, ast.Name) and f.id in self.pure or \
                        isinstance(f, ast.Attribute) and \
                        '.' + f.attr in self.pure:
                    continue
                if isinstance(f, ast.Attribute) and f.attr in (
                        'append', 'extend', 'add') and isinstance(
                            f.value, ast.Subscript) and self.aside(f.value):
                    continue
                return True
        return False

    def aside(self, t):
        """An entry of something no test of the loop looks at."""
        while isinstance(t, (ast.Subscript, ast.Attribute)):
            t = t.value
        return isinstance(t, ast.Name) and self.deciding.names is not None \
            and t.id not in {n.split('.')[0] for n in self.deciding.names}

    def store(self, t, reads=()):
        if isinstance(t, ast.Name):
            return t.id in self.carried and not (
                reads and t.id in self.renewed)
        if isinstance(t, (ast.Tuple, ast.List)):
            return any(self.store(x, reads) for x in t.elts)
        if isinstance(t, ast.Starred):
            return self.store(t.value, reads)
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            return t.value.id not in self.taking
        f = field(t)
        if f and self.deciding.names is not None:
            return bool({f[0], f[1]} & self.deciding.names)
        return True

    def block(self, body, st):
        for s in body:
            st = self.stmt(s, st)
            if st is None:
                return None
        return st

    def both(self, a, b):
        """May-analysis over ways: a way without change counts."""
        if a is None or b is None:
            return a if b is None else b
        return a and b

    def stmt(self, s, st):
        if isinstance(s, ast.Continue):
            self.way(st, s)
            return None
        if isinstance(s, (ast.Break, ast.Return, ast.Raise)):
            return None
        if isinstance(s, ast.Assert):
            if isinstance(s.test, ast.Constant) and not s.test.value:
                return None
            return st or self.effect(s.test)
        if isinstance(s, ast.If):
            st = st or self.effect(s.test)
            if isinstance(s.test, ast.Constant):
                return self.block(s.body if s.test.value else s.orelse, st)
            return self.both(self.block(s.body, st),
                             self.block(s.orelse, st))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            # what an inner loop does may have been done
            return st or self.anything(s)
        if isinstance(s, ast.Try):
            inside = st or any(self.anything(x) for x in s.body)
            out = self.block(s.body, st)
            if out is not None:
                out = self.block(s.orelse, out)
            for h in s.handlers:
                out = self.both(out, self.block(h.body, inside))
            if out is not None and s.finalbody:
                out = self.block(s.finalbody, out)
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return self.block(s.body, True)
        if isinstance(s, FUNCTIONS + (ast.ClassDef,)):
            return st
        return st or self.simple(s)

    def simple(self, s):
        if isinstance(s, ast.Delete):
            return True
        if isinstance(s, ast.Assign):
            if len(s.targets) == 1 and \
                    ast.dump(s.value).replace('Load', 'Store') == \
                    ast.dump(s.targets[0]):
                return False            # x = x
            return any(self.store(t, read(s.value)) for t in s.targets) or \
                self.effect(s.value)
        if isinstance(s, (ast.AugAssign, ast.AnnAssign)):
            return self.store(s.target) or self.effect(s.value)
        if isinstance(s, (ast.Global, ast.Nonlocal, ast.Pass, ast.Import,
                          ast.ImportFrom)):
            return False
        if isinstance(s, ast.Expr):
            return self.effect(s.value)
        return True

    def anything(self, s):
        for x in ast.walk(s):
            if isinstance(x, (ast.Break, ast.Continue)):
                continue
            if isinstance(x, ast.stmt) and not isinstance(x, (
                    ast.If, ast.For, ast.While, ast.Try, ast.With,
                    ast.Return, ast.Raise) + FUNCTIONS) and self.simple(x):
                return True
            if isinstance(x, ast.expr) and self.effect(x):
                return True
        if isinstance(s, (ast.For, ast.AsyncFor)):
            # a loop over an iterator uses it up
            it = s.iter
            if isinstance(it, ast.Name) and it.id in self.carried and any(
                    isinstance(x, ast.Break) for x in ast.walk(s)):
                return True
        return False


def loops(fn):
    """-> (loop, whether an error may be a way out of it)"""
    todo = [(x, False) for x in fn.body]
    while todo:
        x, guarded = todo.pop(0)
        if isinstance(x, FUNCTIONS + (ast.ClassDef, ast.Lambda)):
            continue
        if isinstance(x, ast.While):
            yield x, guarded
        guarded |= isinstance(x, (ast.Try, ast.With))
        todo += [(y, guarded) for y in ast.iter_child_nodes(x)]


def harmless(prog):
    """Package functions that only compute: module -> names"""
    out = {m: set() for m in prog.modules}
    for _ in range(3):
        for (m, name), fn in prog.N.top.items():
            if isinstance(fn, ast.FunctionDef) and not fn.decorator_list and \
                    computes(fn, out[m]):
                out[m].add(name)
        for (m, name) in prog.N.imports:
            got = prog.N.look(m, name)
            if got and isinstance(got[1], ast.FunctionDef) and \
                    got[1].name in out[got[0]]:
                out[m].add(name)
    # methods, by name, if all that have the name only compute
    methods = {}
    for md in prog.modules.values():
        for c in ast.walk(md.tree):
            if isinstance(c, ast.ClassDef):
                for s in c.body:
                    if isinstance(s, FUNCTIONS):
                        methods.setdefault(s.name, []).append(s)
    good = {'.' + n for n, fs in methods.items() if n not in CONTAINER and
            all(computes(f, set()) and f.body and not isinstance(
                f.body[-1], (ast.Pass, ast.Raise)) and any(
                    isinstance(x, ast.Return) and x.value is not None
                    for x in ast.walk(f)) for f in fs)}
    for names in out.values():
        names |= good
    return out


def computes(fn, pure):
    for x in ast.walk(fn):
        if isinstance(x, (ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal,
                          ast.Delete, ast.Lambda, ast.With, ast.While)):
            return False
        if isinstance(x, (ast.Attribute, ast.Subscript)) and \
                not isinstance(x.ctx, ast.Load):
            return False
        if isinstance(x, FUNCTIONS) and x is not fn:
            return False
        if isinstance(x, ast.AugAssign):
            return False
        if isinstance(x, ast.Call):
            f = x.func
            if isinstance(f, ast.Name) and (
                    f.id in PURE | pure or f.id in ('next', 'iter') or
                    f.id.endswith('Error')):
                if f.id == 'next' and not isinstance(x.args[0], ast.Call):
                    return False
                continue
            if isinstance(f, ast.Attribute) and f.attr in PURE_METHODS:
                continue
            return False
    return True


def judge(prog, rep):
    pure = harmless(prog)
    rep.count('functions that only compute', sum(map(len, pure.values())))
    for m, cls, outer, fn in prog.functions():
        label = '.'.join([m] + ([cls.name] if cls else []) +
                         [o.name for o in outer] + [fn.name])
        rep.count('functions inspected')
        # what callers hand in to be asked, as in Matrix(row, column)
        given = {a.arg for f in outer + (fn,) for a in f.args.args}
        given -= {x.value.func.id for x in ast.walk(fn)
                  if isinstance(x, ast.Expr) and
                  isinstance(x.value, ast.Call) and
                  isinstance(x.value.func, ast.Name)}
        given = {x.func.id for x in ast.walk(fn) if isinstance(x, ast.Call)
                 and isinstance(x.func, ast.Name) and x.func.id in given
                 and x.args}
        for w, guarded in loops(fn):
            r = Round(w, fn, guarded, pure[m] | given)
            rep.count('loops followed')
            rep.count('ways back to the test', r.ways)
            rep.count('carried variables', len(r.carried))
            for s in r.back:
                rep.add('loop goes round unchanged', label,
                        'while ' + ast.unparse(w.test),
                        'nothing has changed on a way back to the test '
                        'that ends with: ' + ast.unparse(s).split('\n')[0],
                        line=s.lineno)


EXAMPLES = '''
def good_count(n):
    i = 0
    while i < n:
        i += 1

def good_pop(a):
    while a:
        a.pop()

def good_branches(a, b):
    while a < b:
        m = (a + b) // 2
        if m % 2:
            a = m + 1
        else:
            b = m

def good_flag(a):
    first = True
    while a > 3:
        if first:
            first = False
            continue
        a -= 1

def good_leave(a):
    while True:
        x = a.get(1)
        if x:
            return x
        a[1] = 2

def good_yield(a):
    while True:
        yield a

def good_inner(a):
    while a:
        for x in list(a):
            a.remove(x)

def good_test(step):
    while step():
        pass

def good_hook(step, a):
    while a.get(1):
        step(a)

def bad_asked(value, a, b):
    best = 0
    while a != b:
        best = max(best, value(a))

def bad_fresh(a, b):
    while a:
        line = []
        for x in b:
            line.append(x)
        if line:
            a = a[1:]

def good_fresh(a, b):
    line = []
    while len(line) < 5:
        line.append(a)

class Grid:
    def ask(self, x):
        return self.cells[x]

def bad_question(a, grid, T):
    while a:
        bit = a & -a
        x = grid.ask(bit)
        T[bit].append(x)
        if x:
            a &= ~bit

def good_next(a):
    while a.step():
        pass

def good_delete(a, b):
    while b in a:
        del a[b]

def good_pair(a, b):
    while b:
        a, b = b, a % b

def bad_count(n):
    i = 0
    while i < n:
        j = i + 1

def bad_branch(a, b):
    while a < b:
        m = (a + b) // 2
        if m % 2:
            a = m + 1
        elif m > 3:
            b = m

def bad_continue(a):
    while a:
        x = a[-1]
        if x is None:
            continue
        a.pop()

def bad_get(a):
    while True:
        x = a.get(1)
        if x:
            return x

def bad_peek(a, b):
    while a:
        x = a[-1]
        if x > b:
            a.pop()

def good_link(a, link):
    while a is not None:
        following = link[a]
        a = following

def good_error(a):
    i = 0
    out = []
    try:
        while True:
            out.append(a[i])
            i += 1
    except IndexError:
        return out

def good_done(a):
    done = False
    while not done:
        done = True
        for i in range(len(a) - 1):
            if a[i] > a[i + 1]:
                a[i], a[i + 1] = a[i + 1], a[i]
                done = False

def bad_renewed(rows, last):
    r = 0
    row = rows[r]
    best = row
    while row != last:
        row = rows[r]
        best = min(best, row)

def bad_accumulator(a, link):
    out = []
    n = 0
    while a is not None:
        out.append(a)
        n += 1
        if a in link:
            a = link[a]

def first(a):
    for x in a:
        return x

def bad_pick(a):
    while a:
        x = first(a)

def bad_stream(a):
    while a:
        x = first(a)
        yield x

def bad_field(self):
    while self.pos < len(self.text):
        self.seen[self.pos] = True

def good_field(self):
    while self.pos < len(self.text):
        self.seen[self.pos] = True
        self.pos += 1

def good_chain(a):
    while a.link is not None:
        a = a.link

def good_alias(a):
    while a.link is not None:
        b = a.link
        a = b

def bad_self(a):
    while a.link is not None:
        x = a.link
'''


def check_c35(tier):
    rep = Report()
    tree = parse(EXAMPLES, '<examples>')
    prog = Program({'ex': Module('ex', '/ex.py', tree, EXAMPLES)})
    r = Report()
    judge(prog, r)
    found = {f.where.split('.')[1] for f in r.findings}
    for s in tree.body:
        if isinstance(s, FUNCTIONS) and (s.name in found) != s.name.startswith('bad'):
            raise AnalysisError('the rule misjudges its example ' + s.name)
    prog = Program(load_modules())
    judge(prog, rep)
    rep.count('rule examples checked', len(tree.body))
    rep.need('loops followed', 20)
    rep.explanation = (
        'For every while loop the variables carried from round to round are '
        'computed (upward exposed reads); on every way through the body back '
        'to the test one of them must be written, or something done that can '
        'change data: a store, a deletion, a call not known to be pure, an '
        'item handed out.')
    rep.assumptions = ['a call not known to be pure changes something',
                       'an inner loop does what its body can do']
    return rep
