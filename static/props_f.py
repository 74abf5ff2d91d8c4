"""C17, C18: how the solver may change a puzzle."""
import ast
import itertools

import bits
import gvn
import lang
from gvn import (TRUE, FALSE, NONE, Unknown, atoms_of, conj, disj, neg, show,
                 subst, tautology, value)
from props_c import EXAMPLES, SELF
from report import Report
from scopes import AnalysisError

MODULE, CLASS = 'sudoku', 'Sudoku'
CELLS, SETS = 'contents', 'locations'
FLAG, CACHE = 'progress', 'pairs'
QUERIES = ('log', 'choices', 'complete', 'reachable', 'shortest', 'cyclic')
CHANGES = ('place', 'unplace')
# rule -> the option that allows it
GATED = {'rectangle': 'assume_unique', 'trapezoid': 'assume_unique',
         'twosat': 'twosat'}


def builders(cls):
    """__init__ and the private methods that only the constructor calls."""
    out = {'__init__'}
    users = {}
    for f in cls.body:
        if isinstance(f, ast.FunctionDef):
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute):
                    users.setdefault(n.attr, set()).add(f.name)
    for i in range(3):
        for f in cls.body:
            if isinstance(f, ast.FunctionDef) and f.name[:1] == '_' and \
                    users.get(f.name) and users[f.name] <= out:
                out.add(f.name)
    return out


class Numbering(gvn.GVN):
    pure_names = QUERIES


def number(src, module, fn, cls=None, cname=None, keep=()):
    g = Numbering(src.resolver(module, cname, keep=keep))
    return g.run(fn, cls=cls)


def rule_names(src, module):
    """Functions listed in the module's table of rules."""
    defs = src.defs(module)
    for n in src.tree(module).body:
        if isinstance(n, ast.Assign) and any(
                isinstance(t, ast.Name) and t.id == 'rules'
                for t in n.targets):
            out = []
            for x in ast.walk(n.value):
                if isinstance(x, ast.Name) and x.id in defs and \
                        defs[x.id][0] == 'func' and x.id not in out:
                    out.append(x.id)
            return out
    return []


def functions(src, module):
    for n, d in src.defs(module).items():
        if d[0] == 'func' and d[1] == module:
            yield n, d[2]


def base_of(t):
    """Object whose field a location belongs to, and the field."""
    while isinstance(t, tuple):
        if t[0] in ('idx', 'after', 'slice'):
            t = t[1]
        elif t[0] == 'phi':
            t = t[2]
        elif t[0] == 'upd':
            t = t[1]
        elif t[0] == 'fld':
            return t[1], t[2]
        else:
            break
    return None, None


def owner(t):
    while isinstance(t, tuple) and t[0] in ('after', 'phi', 'upd'):
        t = t[1] if t[0] != 'phi' else t[2]
    return t


def mentions(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(mentions(y, x) for y in t)


def reads(t, name):
    """Looks at the field, directly or through getattr."""
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == 'fld' and t[2] == name or t == ('c', name):
        return True
    return any(reads(y, name) for y in t)


def atoms(guards):
    out = []
    for c in guards:
        atoms_of(c, out)
    return out


def possible(guards, given, about, unrelated=lambda a: False):
    """Can the guards hold when the atoms decided by given(atom) are so?
    None when an undecided atom mentions one of the terms in about."""
    known, free = {}, []
    for a in atoms(guards):
        v = given(a)
        if v is None:
            if not unrelated(a) and any(mentions(a, x) for x in about):
                return None
            free.append(a)
        else:
            known[a] = v
    if len(free) > 12:
        return None
    for v in itertools.product((True, False), repeat=len(free)):
        asg = dict(known)
        asg.update(zip(free, v))
        if all(value(c, asg) for c in guards):
            return True
    return False


# --------------------------------------------------------------------- C17
class Puzzle:
    """The rules for one class of puzzles and the functions solving them."""

    def __init__(self, src, module, cname, rep=None):
        self.src, self.module, self.cname, self.rep = src, module, cname, rep

    def note(self, what, n=1):
        if self.rep:
            self.rep.count(what, n)

    def problems(self):
        for n, fn in functions(self.src, self.module):
            for p in self.outside(n, fn):
                yield p
        d = self.src.defs(self.module).get(self.cname)
        if d is None or d[0] != 'class':
            raise AnalysisError('class %s has vanished' % self.cname)
        for fn in d[2].body:
            if isinstance(fn, ast.FunctionDef) and \
                    fn.name not in builders(d[2]):
                for p in self.method(fn, d[2]):
                    yield p
        for n in rule_names(self.src, self.module):
            for p in self.rule(n):
                yield p

    # functions outside the class
    def outside(self, name, fn):
        try:
            g = number(self.src, self.module, fn)
        except Unknown:
            self.note('functions not understood')
            g = None
        self.note('functions examined')
        params = set()
        for f in ast.walk(fn):
            if isinstance(f, ast.FunctionDef):
                params |= {a.arg for a in f.args.args}
        seen = set()
        for t in direct_stores(fn):
            x = t
            while isinstance(x, (ast.Subscript, ast.Attribute)):
                x = x.value
            if isinstance(x, ast.Name) and x.id in params:
                seen.add(t.lineno)
                yield (name, t.lineno, ast.unparse(t),
                       'changes the puzzle directly')
        for e in (g.log if g else ()):
            if e.op in ('call', 'havoc', 'yield', 'yieldall'):
                if e.op == 'call':
                    self.note('calls seen')
                continue
            if e.op in ('field', 'delattr'):
                o, f = e.base, e.key[1]
            else:
                o, f = base_of(e.base)
            if f in (CELLS, SETS) and owner(o)[0] == 'p' and \
                    e.node.lineno not in seen:
                yield (name, e.node.lineno, '%s %s' % (e.op, show(e.base)),
                       'changes the puzzle directly')

    # methods of the class
    def method(self, fn, cls):
        try:
            g = number(self.src, self.module, fn, cls, self.cname, ('log',))
        except Unknown:
            self.note('methods not understood')
            return
        self.note('methods examined')
        cells, sets = ('fld', SELF, CELLS), ('fld', SELF, SETS)
        for e in g.log:
            if e.op in ('call', 'havoc', 'yield', 'yieldall'):
                continue
            if e.base == cells and e.op == 'put':
                self.note('placements')
                for p in self.placed(e, cells, sets):
                    yield (fn.name, e.node.lineno, p, p)
            elif e.base == sets and e.op == 'put':
                self.note('eliminations')
                for p in self.shrunk(e, sets):
                    yield (fn.name, e.node.lineno, p, p)
            elif e.op == 'field' and e.base == SELF and \
                    e.key[1] in (CELLS, SETS):
                if not mentions(e.val, ('fld', SELF, e.key[1])):
                    yield (fn.name, e.node.lineno, 'self.' + e.key[1],
                           'replaces all of them')
                    continue
            else:
                continue
            for p in self.flagged(g, e, sets):
                yield fn.name, e.node.lineno, p, p

    def placed(self, e, cells, sets):
        """A cell is only filled when empty, with one of its candidates."""
        here = ('idx', cells, e.key)

        def full(a):
            if a == ('truth', here):
                return True
            if a[0] == 'eq' and here in a[1:]:
                other = a[1] if a[2] == here else a[2]
                if other == ('c', 0):
                    return False
                if other == e.val:
                    return False
                if other[0] == 'c':
                    return None
            if a[0] == 'lt' and a[1] == ('c', 0) and a[2] == here:
                return True
            return None
        every = atoms(e.guards)

        def ordered(a):
            """Compares the two digits by size, in one direction only."""
            return a[0] == 'lt' and set(a[1:]) == {here, e.val} and \
                ('lt', a[2], a[1]) not in every
        if possible(e.guards, full, (here,), ordered):
            yield 'fills a cell that may contain another digit'
        mask = gvn.binary('<<', ('c', 1), e.key)
        allowed = ('idx', sets, e.val)
        both = gvn.binary('&', mask, allowed)
        down = gvn.binary('&', gvn.binary('>>', allowed, e.key), ('c', 1))

        def excluded(a):
            for b in (both, down):
                if a == ('truth', b):
                    return False
                if a[0] == 'eq' and b in a[1:]:
                    other = a[1] if a[2] == b else a[2]
                    if other == ('c', 0):
                        return True
                    if other in (mask, ('c', 1)):
                        return False
            return None

        def unrelated(a):
            """Looks at a candidate of another cell or digit."""
            b = a[1] if a[0] == 'truth' else a[1] if a[0] == 'eq' and \
                a[2] == ('c', 0) else a[2] if a[0] == 'eq' and \
                a[1] == ('c', 0) else ()
            if b[:1] != ('&',) or len(b) != 3:
                return False
            x, y = b[1:]
            if y[0] == '<<':
                x, y = y, x
            return x[:2] == ('<<', ('c', 1)) and y[:2] == ('idx', sets) \
                and (x[2] != e.key or y[2] != e.val)
        if possible(e.guards, excluded, (allowed, sets), unrelated):
            yield 'places a digit that may be excluded from the cell'

    def shrunk(self, e, sets):
        old = ('idx', sets, e.key)

        def leaf(t):
            while t[0] == 'phi':
                t = t[2]
            return old if t == old else None
        if not mentions(e.val, old):
            yield 'the candidates of a digit are replaced'
            return
        names = []
        bits.leaves(e.val, names, leaf)
        if any(x != old and mentions(x, old) and x[0] != 'cond'
               for x in names):
            self.note('masks not understood')
            return
        for row in bits.rows([e.val], leaf):
            if bits.bit(e.val, row, leaf) and not row.get(old):
                yield 'a candidate that was excluded can come back'
                return

    def flagged(self, g, e, sets):
        """The change sets the flag and clears the cache."""
        for f, want in ((FLAG, TRUE), (CACHE, NONE)):
            marks = [m for m in g.log if m.op == 'field' and
                     m.base == SELF and m.key == ('f', f) and
                     m.loops == e.loops[:len(m.loops)]]
            good = []
            for m in marks:
                if m.val != want:
                    if m.n > e.n and consistent(m.guards, e.guards):
                        yield '%s is reset after a change' % f
                    continue
                good.append(conj(*[self.sure(x, e, sets) for x in m.guards
                                   if x not in e.guards]))
            if any(x is None for x in good):
                continue
            if not tautology(disj(*good)):
                if any(mentions(a, sets) for a in atoms(good)):
                    self.note('conditions not understood')
                    continue
                yield '%s is not set by every change' % f

    def sure(self, c, e, sets):
        """A condition that holds whenever the change really changes."""
        if e.base != sets or e.op != 'put':
            return c
        old = ('idx', sets, e.key)
        if c[0] == 'truth':
            x = c[1]
        elif c[0] == 'not' and c[1][0] == 'eq':
            x = ('^',) + c[1][1:]
        else:
            return c

        def leaf(t):
            while t[0] == 'phi':
                t = t[2]
            return old if t == old else None
        if not mentions(x, old):
            return c
        for row in bits.rows([e.val, x], leaf):
            if bits.bit(e.val, row, leaf) != row.get(old) and \
                    not bits.bit(x, row, leaf):
                return FALSE
        return TRUE

    # solver rules
    def rule(self, name):
        fn = self.src.defs(self.module)[name][2]
        try:
            g = number(self.src, self.module, fn)
        except Unknown:
            return
        self.note('rules examined')
        changes = [e for e in g.log if changing(e)]
        self.note('changes made by rules', len(changes))
        for e in g.log:
            if e.op != 'field' or owner(e.base)[0] != 'p':
                continue
            if e.key == ('f', FLAG) and e.val == FALSE:
                yield (name, e.node.lineno, FLAG,
                       'the flag is reset by a rule')
            if e.key == ('f', CACHE) and e.val != NONE:
                for c in changes:
                    after = c.n < e.n or (e.loops and c.loops and
                                          e.loops[0] == c.loops[0])
                    if after and consistent(c.guards, e.guards):
                        yield (name, e.node.lineno, CACHE,
                               'deductions are cached after a change')
                        break


def changing(e):
    return e.op == 'call' and e.val[0] == 'mcall' and \
        e.val[1] in CHANGES and owner(e.base)[0] == 'p'


def consistent(a, b):
    return not any(neg(x) in b for x in a)


def direct_stores(fn):
    """Assignments to X.contents, X.locations or their elements."""
    for n in ast.walk(fn):
        ts = []
        if isinstance(n, (ast.Assign, ast.Delete)):
            ts = n.targets
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            ts = [n.target]
        elif isinstance(n, (ast.For, ast.comprehension)):
            ts = [n.target]
        todo = list(ts)
        while todo:
            t = todo.pop()
            if isinstance(t, (ast.Tuple, ast.List)):
                todo.extend(t.elts)
                continue
            x = t
            while isinstance(x, ast.Subscript):
                x = x.value
            if isinstance(x, ast.Attribute) and x.attr in (CELLS, SETS):
                yield t


def puzzle_problems(src, module, cname):
    return Puzzle(src, module, cname).problems()


def check_c17(tier):
    rep = Report()
    from props_c import rule_examples
    rule_examples(rep, puzzle_problems, 'puzzles', ['Good'],
                  ['BadGrow', 'BadFull', 'BadExcluded', 'BadFlag'])
    src = lang.Source()
    for where, line, what, msg in Puzzle(src, MODULE, CLASS, rep).problems():
        rep.add('C17', '%s.%s' % (MODULE, where), what, msg, line)
    rep.need('functions examined', 15)
    rep.need('placements', 1)
    rep.need('eliminations', 1)
    rep.need('rules examined', 6)
    rep.explanation = (
        'Value numbers and guarded effects of every function of the solver: '
        'no function changes cells or candidate masks of a puzzle it was '
        'given; in the methods of the puzzle every stored mask is, bit by '
        'bit, below the old one, a cell is filled only under conditions that '
        'imply it is empty and the digit still a candidate, and the progress '
        'flag and the cached pairs are updated whenever a mask or cell '
        'really changes.')
    return rep


# --------------------------------------------------------------------- C18
def off(grid, option):
    """Substitution and decision for a puzzle with the option off."""
    f = ('fld', grid, option)

    def settle(t):
        if not isinstance(t, tuple) or t[:1] in ((), ('c',)):
            return t
        if t == f:
            return FALSE
        t = tuple(settle(x) if isinstance(x, tuple) else x for x in t)
        if t[0] == 'truth':
            return gvn.truth(t[1]) if isinstance(t[1], tuple) else t
        if t[0] == 'not':
            return neg(t[1])
        if t[0] == 'and':
            return conj(*t[1:])
        if t[0] == 'or':
            return disj(*t[1:])
        if t[0] == 'ite':
            return gvn.gate(*t[1:])
        if t[0] in ('eq', 'is') and len(t) == 3:
            return gvn.compare({'eq': 'Eq', 'is': 'Is'}[t[0]], t[1], t[2])
        return t
    return settle


def nothing(it):
    """An iterable without elements."""
    while it[0] in ('keys', 'after') and len(it) == 2:
        it = it[1]
    return it == ('tuple',) or it[0] == 'new' and it[2] == ('empty',) or \
        it[0] == 'c' and it[1] in ('', None)


class Options:
    def __init__(self, src, module, rep=None):
        self.src, self.module, self.rep = src, module, rep

    def note(self, what, n=1):
        if self.rep:
            self.rep.count(what, n)

    def gated(self, name, option):
        r = self.src.find(self.module, name)
        if r is None:
            raise AnalysisError('rule %s has vanished' % name)
        fn = r[0]
        if fn.decorator_list:
            self.note('rules not understood')
            return
        try:
            g = number(self.src, self.module, fn)
        except Unknown:
            self.note('rules not understood')
            return
        if g.opaque:
            self.note('rules not understood')
            return
        self.note('rules examined')
        grid = ('p', fn.args.args[0].arg)
        settle = off(grid, option)
        for e in g.log:
            if e.op in ('havoc', 'yield', 'yieldall'):
                continue
            if e.op == 'call':
                if not changing(e) and not self.handed(e, grid):
                    continue
            elif owner(e.base) != grid and \
                    owner(base_of(e.base)[0]) != grid:
                continue
            self.note('changes examined')
            d = self.disabled(e, settle, option)
            if d is None:
                self.note('conditions not understood')
            elif not d:
                yield (name, e.node.lineno,
                       '%s without %s' % (self.what(e), option),
                       'can change a puzzle whose option %s is off'
                       % option)

    def handed(self, e, grid):
        """The puzzle is passed to an unexpanded function of the module."""
        t = e.val
        if t[0] == 'call' and any(owner(x) == grid for x in t[2:]
                                  if isinstance(x, tuple)):
            d = self.src.defs(self.module).get(t[1])
            if d is None or d[0] != 'func':
                return False
            return any(isinstance(x, ast.Attribute) and x.attr in CHANGES
                       for x in ast.walk(d[2])) and not any(
                isinstance(x, (ast.Yield, ast.YieldFrom))
                for x in gvn.walk_own(d[2]))
        return False

    def what(self, e):
        if e.op == 'call':
            return e.val[1] if isinstance(e.val[1], str) else 'call'
        return e.op

    def disabled(self, e, settle, option):
        """The effect cannot happen with the option off."""
        left = []
        for c in e.guards:
            s = settle(c)
            if s == FALSE:
                return True
            left.append(s)
        if conj(*left) == FALSE:
            return True
        unsure = False
        for lp in e.loops:
            it = settle(lp[1])
            if it == FALSE or nothing(it):
                return True
            r = self.empty(it, option)
            if r:
                return True
            if r is None:
                unsure = True
        if unsure or any(reads(x, option) for x in left):
            return None
        return False

    def empty(self, it, option):
        """A generator of the module that produces nothing."""
        while it[0] in ('keys', 'after'):
            it = it[1]
        if it[0] != 'call' or not isinstance(it[1], str):
            return False
        d = self.src.defs(self.module).get(it[1])
        if d is None or d[0] != 'func':
            return False
        fn = d[2]
        if not mentions_name(fn, option):
            return False
        try:
            g = number(self.src, self.module, fn)
        except Unknown:
            return None
        names = [a.arg for a in fn.args.args]
        for e in g.log:
            if e.op in ('yield', 'yieldall'):
                ok = False
                for n in names:
                    if self.disabled(e, off(('p', n), option), option):
                        ok = True
                if not ok:
                    return None
        return True

    def stores(self, option, others):
        """Assignments to the option."""
        def visit(n, tests, params, where=None):
            if isinstance(n, ast.ClassDef):
                where = n
            if isinstance(n, ast.FunctionDef):
                where = (where.name if isinstance(where, ast.ClassDef) and
                         n.name == '__init__' else n.name, n)
                ds = n.args.defaults
                pos = n.args.args
                params = dict(params)
                for a, d in zip(pos[len(pos) - len(ds):], ds):
                    params[a.arg] = d
                tests = []
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and t.attr == option:
                        self.note('assignments to options')
                        p = wrong(n.value, tests, params, where)
                        if p:
                            yield n.lineno, ast.unparse(n), p
            if isinstance(n, ast.If):
                for x in n.body:
                    for y in visit(x, tests + [n.test], params,
                                   where):
                        yield y
                for x in n.orelse:
                    for y in visit(x, tests, params, where):
                        yield y
                return
            for x in ast.iter_child_nodes(n):
                for y in visit(x, tests, params, where):
                    yield y

        def passed(name, fn):
            """What callers give for the parameter."""
            names = [a.arg for a in fn[1].args.args]
            if names[:1] == ['self']:
                names = names[1:]
            for c in ast.walk(self.src.tree(self.module)):
                if isinstance(c, ast.Call) and getattr(
                        c.func, 'id', getattr(c.func, 'attr', None)) == fn[0]:
                    for a, x in list(zip(names, c.args)) + [
                            (k.arg, k.value) for k in c.keywords]:
                        if a == name:
                            yield x

        def foreign(name, fn):
            """A parameter that carries something else than the option."""
            if not isinstance(fn, tuple) or name == option or name not in \
                    [a.arg for a in fn[1].args.args]:
                return False
            xs = list(passed(name, fn))
            if any(isinstance(x, ast.Constant) and x.value for x in xs):
                return True
            return bool(xs) and not any(
                isinstance(x, (ast.Name, ast.Call, ast.Starred)) or
                mentions_name(x, option) for x in xs)

        def wrong(v, tests, params, fn):
            x = v.operand if isinstance(v, ast.UnaryOp) and \
                isinstance(v.op, ast.Not) else v
            if isinstance(x, ast.Name) and any(
                    not isinstance(y, ast.Constant) or y.value
                    for y in passed(x.id, fn)
                    ) if isinstance(fn, tuple) and x is v else False:
                if foreign(x.id, fn):
                    return 'follows something else'
            if x is not v and isinstance(x, ast.Name) and \
                    isinstance(fn, tuple) and x.id != option and x.id in [
                        a.arg for a in fn[1].args.args]:
                return 'follows the absence of something else'
            if isinstance(v, ast.Name) and v.id in params:
                v = params[v.id]
            if isinstance(v, ast.Attribute):
                if v.attr in others:
                    return 'takes the value of another option'
                return None
            if isinstance(v, ast.Constant):
                if not v.value or any(mentions_name(t, option)
                                      for t in tests):
                    return None
                return 'is enabled without being asked for'
            if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not) and \
                    isinstance(v.operand, ast.Constant) and \
                    not v.operand.value:
                return 'is enabled without being asked for'
            if isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not) and \
                    isinstance(v.operand, ast.Attribute) and \
                    v.operand.attr == option:
                return 'is inverted'
            return None
        for x in visit(self.src.tree(self.module), [], {}):
            yield x

    def problems(self, table):
        for name, option in sorted(table.items()):
            for p in self.gated(name, option):
                yield p
        opts = set(table.values())
        for option in sorted(opts):
            for line, text, p in self.stores(option, opts - {option}):
                yield option, line, text, p


def mentions_name(n, name):
    return any(isinstance(x, ast.Attribute) and x.attr == name or
               isinstance(x, ast.Name) and x.id == name or
               isinstance(x, ast.Constant) and x.value == name
               for x in ast.walk(n))


def option_problems(src, module, name):
    return Options(src, module).gated(name, 'careful')


def check_c18(tier):
    rep = Report()
    from props_c import rule_examples
    rule_examples(rep, option_problems, 'options',
                  ['good', 'good_helper', 'good_stream'],
                  ['bad_none', 'bad_late', 'bad_other', 'bad_either'])
    src = lang.Source()
    for where, line, what, msg in Options(src, MODULE, rep).problems(GATED):
        rep.add('C18', '%s.%s' % (MODULE, where), what, msg, line)
    rep.need('rules examined', 2)
    rep.need('changes examined', 3)
    rep.need('assignments to options', 2)
    rep.explanation = (
        'Guarded effects of the rules that rely on a unique solution or on '
        '2-satisfiability: with the option taken as off, the condition of '
        'every change of the puzzle becomes false. Assignments to the '
        'options only turn them off, copy them, or follow a request.')
    return rep
