"""Gated value numbering of single functions.

A function body is turned into terms (value numbers) and a log of guarded
effects.  Branches are merged with gates, a loop body is looked at once, as a
generic iteration, and helpers are expanded where they are called.  Nothing is
executed and no formula is handed to a solver: two values are the same when
their normal forms are the same.

Terms are tuples.  ('c', value) constant, ('p', name) parameter or outer
variable, ('fld', object, name) field at entry, ('idx', container, key)
element, ('el', depth, iterable) the generic element of a loop,
('new', kind, contents, number) a fresh container, ('ite', c, a, b) a gate.
"""
import ast
import itertools

TRUE, FALSE, NONE = ('c', True), ('c', False), ('c', None)
DEPTH = 12

PURE = {'len', 'isinstance', 'min', 'max', 'abs', 'int', 'str', 'repr',
        'range', 'sorted', 'frozenset', 'tuple', 'id', 'hash', 'type', 'iter',
        'zip', 'enumerate', 'ord', 'chr', 'any', 'all', 'sum', 'bool',
        'float', 'map', 'filter', 'reversed', 'divmod', 'pow', 'round',
        'object', 'issubclass', 'callable', 'complex', 'operator.or_',
        'operator.and_', 'operator.xor', 'chain'}
FRESH = {'list': 'list', 'set': 'set', 'dict': 'dict'}
# method -> name of the effect on its receiver
MUTATORS = {'append': 'append', 'add': 'add', 'remove': 'remove',
            'discard': 'discard', 'pop': 'pop', 'clear': 'clear',
            'update': 'update', 'extend': 'extend', 'insert': 'insert',
            'popitem': 'popitem', 'sort': 'sort', 'reverse': 'reverse',
            'setdefault': 'setdefault', 'appendleft': 'appendleft',
            'popleft': 'popleft', 'difference_update': 'difference_update',
            'intersection_update': 'intersection_update',
            'symmetric_difference_update': 'symmetric_difference_update'}
PURE_METHODS = {'get', 'keys', 'values', 'items', 'copy', 'index', 'count',
                'startswith', 'endswith', 'split', 'join', 'strip', 'rstrip',
                'lstrip', 'format', 'union', 'intersection', 'difference',
                'issubset', 'issuperset', 'lower', 'upper', 'replace',
                'itervalues', 'iteritems', 'iterkeys', 'isdisjoint',
                'isdigit', 'find', 'symmetric_difference'}
COMM = {'|', '&', '^', '*'}
BOOLEAN = {'not', 'and', 'or', 'eq', 'lt', 'is', 'in', 'truth', 'isinst',
           'any', 'all'}


class Unknown(Exception):
    """A construct the value numbering has no normal form for."""


def is_bool(t):
    return t in (TRUE, FALSE) or t[0] in BOOLEAN or (
        t[0] == 'ite' and is_bool(t[2]) and is_bool(t[3]))


WORK = 0
LIMIT = 150000000


def spend(n):
    """Terms can grow exponentially; give up on a function long before."""
    global WORK
    WORK += n
    if WORK > LIMIT:
        raise Unknown('the terms grow too large')


def key_of(t):
    r = repr(t)
    spend(len(r))
    return r


def neg(t):
    if t == TRUE:
        return FALSE
    if t == FALSE:
        return TRUE
    if t[0] == 'not':
        return t[1]
    if t[0] == 'and':
        return disj(*[neg(x) for x in t[1:]])
    if t[0] == 'or':
        return conj(*[neg(x) for x in t[1:]])
    if t[0] == 'ite' and is_bool(t):
        return gate(t[1], neg(t[2]), neg(t[3]))
    return ('not', t)


def _nary(op, unit, zero, parts):
    spend(100 * len(parts))
    out = []
    for p in parts:
        if p == unit:
            continue
        if p == zero:
            return zero
        for q in (p[1:] if p[0] == op else (p,)):
            if q not in out:
                out.append(q)
    for q in out:
        if neg(q) in out:
            return zero
    if not out:
        return unit
    if len(out) == 1:
        return out[0]
    return (op,) + tuple(sorted(out, key=key_of))


def conj(*parts):
    return _nary('and', TRUE, FALSE, parts)


def disj(*parts):
    return _nary('or', FALSE, TRUE, parts)


def gate(c, a, b):
    if a == b:
        return a
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if c[0] == 'not':
        return gate(c[1], b, a)
    if is_bool(a) and is_bool(b):
        return disj(conj(c, a), conj(neg(c), b))
    if a[0] == 'ite' and a[1] == c:
        a = a[2]
    if b[0] == 'ite' and b[1] == c:
        b = b[3]
    if a == b:
        return a
    return ('ite', c, a, b)


def compare(op, a, b):
    if a[0] == 'c' and b[0] == 'c':
        try:
            r = {'Eq': lambda: a[1] == b[1], 'NotEq': lambda: a[1] != b[1],
                 'Lt': lambda: a[1] < b[1], 'LtE': lambda: a[1] <= b[1],
                 'Gt': lambda: a[1] > b[1], 'GtE': lambda: a[1] >= b[1],
                 'Is': lambda: a[1] is b[1],
                 'IsNot': lambda: a[1] is not b[1]}.get(op)
            if r:
                return ('c', r())
        except TypeError:
            pass
    if op in ('Gt', 'LtE'):
        a, b = b, a
        op = {'Gt': 'Lt', 'LtE': 'GtE'}[op]
    if op == 'GtE':                     # a >= b
        return neg(compare('Lt', a, b))
    if op == 'Lt':
        # len(x) > 0, len(x) < 1, len(x) >= 1
        if a == ('c', 0) and b[0] == 'len':
            return truth(b[1])
        if b == ('c', 1) and a[0] == 'len':
            return neg(truth(a[1]))
        if b[0] == 'c' and type(b[1]) is int and a[0] == 'len' \
                and b[1] > 1:
            pass
        if b[0] == 'c' and type(b[1]) is int:        # a < k: keep
            return ('lt', a, b)
        if a[0] == 'c' and type(a[1]) is int:        # k < b: not b < k + 1
            return neg(('lt', b, ('c', a[1] + 1))) \
                if b[0] == 'len' else ('lt', a, b)
        if a == b:
            return FALSE
        return ('lt', a, b)
    if op in ('NotEq', 'IsNot', 'NotIn'):
        return neg(compare({'NotEq': 'Eq', 'IsNot': 'Is', 'NotIn': 'In'}[op],
                           a, b))
    if op in ('Eq', 'Is'):
        if a == b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if x == ('c', 0) and y[0] == 'len':
                return neg(truth(y[1]))
            if x in (TRUE, FALSE) and is_bool(y):
                return y if x == TRUE else neg(y)
        if NONE in (a, b):
            op = 'Is'
        a, b = sorted((a, b), key=key_of)
        return ('eq' if op == 'Eq' else 'is', a, b)
    raise Unknown(op)


def truth(t):
    if t[0] == 'c':
        return ('c', bool(t[1]))
    if is_bool(t):
        return t
    if t[0] == 'len':
        return truth(t[1])
    if t[0] == 'tuple':
        return ('c', len(t) > 1)
    if t[0] == 'ite':
        return gate(t[1], truth(t[2]), truth(t[3]))
    if t[0] == 'call' and t[1] == 'bool':
        return truth(t[2])
    return ('truth', t)


NUMERIC = {'len', '-', '*', '//', '%', '<<', '>>', '~', '**', 'neg'}


def numeric(t):
    return t[0] == 'c' and type(t[1]) in (int, float) or t[0] in NUMERIC or \
        t[0] == '+' and all(numeric(x) for x in t[1:])


def binary(op, a, b):
    if a[0] == 'c' and b[0] == 'c':
        try:
            import operator as o
            f = {'+': o.add, '-': o.sub, '*': o.mul, '//': o.floordiv,
                 '%': o.mod, '<<': o.lshift, '>>': o.rshift, '|': o.or_,
                 '&': o.and_, '^': o.xor, '**': o.pow, '/': o.truediv}[op]
            if not (op in ('<<', '**') and type(b[1]) is int and b[1] > 64):
                return ('c', f(a[1], b[1]))
        except Exception:
            pass
    if op == '+' and (numeric(a) or numeric(b)):
        parts = []
        k = 0
        for x in (a, b):
            for y in (x[1:] if x[0] == '+' else (x,)):
                if y[0] == 'c' and type(y[1]) is int:
                    k += y[1]
                else:
                    parts.append(y)
        if k:
            parts.append(('c', k))
        if not parts:
            return ('c', 0)
        if len(parts) == 1:
            return parts[0]
        return ('+',) + tuple(sorted(parts, key=key_of))
    if op == '+' and (a[0] == 'str' or b[0] == 'str' or
                      a[0] == 'c' and type(a[1]) is str or
                      b[0] == 'c' and type(b[1]) is str):
        return text(a, b)
    if op == '-':
        if b == ('c', 0):
            return a
        if a == b:
            return ('c', 0)
        if b[0] == 'c' and type(b[1]) is int:
            return binary('+', a, ('c', -b[1]))
        return ('-', a, b)
    if op in COMM:
        parts = []
        for x in (a, b):
            parts.extend(x[1:] if x[0] == op else (x,))
        return (op,) + tuple(sorted(parts, key=key_of))
    return (op, a, b)


def text(*parts):
    """Concatenation of strings."""
    out = []
    for p in parts:
        for q in (p[1:] if p[0] == 'str' else (p,)):
            if q == ('c', ''):
                continue
            if q[0] == 'c' and type(q[1]) is str and out \
                    and out[-1][0] == 'c' and type(out[-1][1]) is str:
                out[-1] = ('c', out[-1][1] + q[1])
            else:
                out.append(q)
    if not out:
        return ('c', '')
    if len(out) == 1 and out[0][0] == 'c':
        return out[0]
    return ('str',) + tuple(out)


BIN = {'Add': '+', 'Sub': '-', 'Mult': '*', 'FloorDiv': '//', 'Div': '/',
       'Mod': '%', 'LShift': '<<', 'RShift': '>>', 'BitOr': '|',
       'BitAnd': '&', 'BitXor': '^', 'Pow': '**', 'MatMult': '@'}


def atoms_of(t, out):
    """Boolean atoms of a condition."""
    if t in (TRUE, FALSE):
        return out
    if t[0] == 'not':
        return atoms_of(t[1], out)
    if t[0] in ('and', 'or'):
        for x in t[1:]:
            atoms_of(x, out)
        return out
    if t[0] == 'ite' and is_bool(t):
        for x in t[1:]:
            atoms_of(x, out)
        return out
    if t not in out:
        out.append(t)
        gate_atoms(t, out)
    return out


def gate_atoms(t, out):
    """Conditions of the gates inside a term."""
    if not isinstance(t, tuple) or t[:1] == ('c',):
        return out
    if t[:1] == ('ite',):
        atoms_of(t[1], out)
    for x in t:
        if isinstance(x, tuple):
            gate_atoms(x, out)
    return out


def value(t, asg):
    """Truth of a condition under an assignment of its atoms."""
    if t in (TRUE, FALSE):
        return t[1]
    if t[0] == 'not':
        return not value(t[1], asg)
    if t[0] == 'and':
        return all(value(x, asg) for x in t[1:])
    if t[0] == 'or':
        return any(value(x, asg) for x in t[1:])
    if t[0] == 'ite':
        return value(t[2] if value(t[1], asg) else t[3], asg)
    return asg[t]


def tautology(t, limit=9):
    atoms = atoms_of(t, [])
    if len(atoms) > limit:
        return False
    for bits in itertools.product((True, False), repeat=len(atoms)):
        if not value(t, dict(zip(atoms, bits))):
            return False
    return True


class Entry:
    """One guarded effect."""
    __slots__ = ('op', 'base', 'key', 'val', 'guards', 'loops', 'node', 'fn',
                 'n')

    def __init__(self, n, op, base, key, val, guards, loops, node, fn):
        self.n = n
        self.op, self.base, self.key, self.val = op, base, key, val
        self.guards, self.loops = guards, loops
        self.node, self.fn = node, fn

    def __repr__(self):
        return '%s %s[%s]=%s if %s in %s' % (
            self.op, show(self.base), show(self.key), show(self.val),
            ' & '.join(show(g) for g in self.guards) or 'always',
            [show(x) for x in self.loops])


class Closure:
    def __init__(self, node, frame, cls):
        self.node, self.frame, self.cls = node, frame, cls
        self.env = dict(frame.env)


class Frame:
    def __init__(self, node, env, outer=None, cls=None):
        self.node, self.env, self.outer, self.cls = node, env, outer, cls
        self.rets = []
        self.defs = {}
        self.nonlocals = set()


class Dead(Exception):
    pass


class GVN:
    """Value numbering of one root function.

    resolve(kind, name, cls) -> (function node, class) or None tells which
    calls are expanded: kind 'method' (on self), 'func' (by global name)."""

    def __init__(self, resolve=None, self_name=None, cls=None, expand=True):
        self.resolve = resolve or (lambda *a: None)
        self.log = []
        self.guards = ()
        self.loops = ()
        self.frames = []
        self.count = 0
        self.opaque = []
        self.closures = {}
        self.raises = []        # (guards, loops, term, node, log length)
        self.returns = []       # of the root: (guards, loops, term, node, n)
        self.yields = []
        self.reads = []         # (n, container, key, guards, node)
        self.loop_stack = []
        self.steps = []         # (value in a loop, values it takes next)

    # ------------------------------------------------------------- running
    def run(self, fn, args=None, cls=None, env=None):
        global WORK
        WORK = 0
        env = dict(env or {})
        a = fn.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            names.append(a.vararg.arg)
        if a.kwarg:
            names.append(a.kwarg.arg)
        for i, x in enumerate(names):
            env[x] = args[x] if args and x in args else ('p', 'self') \
                if cls is not None and i == 0 else ('p', x)
        f = Frame(fn, env, None, cls)
        self.frames.append(f)
        try:
            self.block(fn.body)
            self.returns.append((self.guards, self.loops, NONE, fn,
                                 len(self.log)))
        except Dead:
            pass
        self.returns = f.rets + self.returns
        self.frames.pop()
        self.root_frame = f
        return self

    @property
    def frame(self):
        return self.frames[-1]

    def fact(self, g):
        if g == TRUE:
            return
        if g == FALSE:
            raise Dead()
        for x in (g[1:] if g[0] == 'and' else (g,)):
            if neg(x) in self.guards:
                raise Dead()
            if x not in self.guards:
                self.guards = self.guards + (x,)

    def cond(self, e):
        """A condition, simplified by what is known here."""
        return self.known(truth(self.expr(e)))

    def known(self, t):
        if t in self.guards:
            return TRUE
        if neg(t) in self.guards:
            return FALSE
        if t[0] == 'and':
            return conj(*[self.known(x) for x in t[1:]])
        if t[0] == 'or':
            parts = [self.known(x) for x in t[1:]]
            return disj(*parts)
        if t[0] == 'not':
            return neg(self.known(t[1]))
        return t

    # ---------------------------------------------------------- statements
    def block(self, stmts):
        for s in stmts:
            getattr(self, 's_' + type(s).__name__, self.s_unknown)(s)

    def s_unknown(self, s):
        self.opaque.append(s)

    def s_Pass(self, s):
        pass

    s_Import = s_ImportFrom = s_Global = s_Pass

    def s_Nonlocal(self, s):
        self.frame.nonlocals.update(s.names)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.expr(s.value)

    def s_Assign(self, s):
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and \
                isinstance(s.value, ast.Tuple) and \
                len(s.targets[0].elts) == len(s.value.elts):
            vals = [self.expr(e) for e in s.value.elts]
            for t, v in zip(s.targets[0].elts, vals):
                self.assign(t, v)
            return
        v = self.expr(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value))

    def s_AugAssign(self, s):
        op = BIN[type(s.op).__name__]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name(t.id)
            v = self.expr(s.value)
            if self.container(old) and op in ('+', '|', '&', '-', '^'):
                self.emit({'+': 'extend', '|': 'update',
                           '-': 'difference_update',
                           '&': 'intersection_update',
                           '^': 'symmetric_difference_update'}[op],
                          old, None, v, s)
                return
            self.assign(t, binary(op, old, v))
        elif isinstance(t, ast.Attribute):
            b = self.expr(t.value)
            old = self.field(b, t.attr)
            self.store_field(b, t.attr, self.aug(op, old,
                                                 self.expr(s.value), s), t)
        elif isinstance(t, ast.Subscript):
            b = self.expr(t.value)
            k = self.index(t.slice)
            old = self.read(b, k, t)
            self.store_item(b, k, self.aug(op, old, self.expr(s.value), s), t)
        else:
            raise Unknown('augmented')

    def aug(self, op, old, v, s):
        return binary(op, old, v)

    def container(self, t):
        """In-place operators change the object itself."""
        return t[0] in ('new', 'mut') or self.set_like(t)

    def set_like(self, t):
        """Does the value belong to a structure of mutable sets?"""
        return False

    def s_Delete(self, s):
        for t in s.targets:
            self.delete(t)

    def delete(self, t):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.delete(x)
        elif isinstance(t, ast.Subscript):
            b = self.expr(t.value)
            k = self.index(t.slice)
            if b == ('p', 'self') and self.method('__delitem__', [k], t):
                return
            self.emit('del', b, k, None, t)
        elif isinstance(t, ast.Name):
            self.frame.env.pop(t.id, None)
        elif isinstance(t, ast.Attribute):
            self.emit('delattr', self.expr(t.value), ('f', t.attr), None, t)
        else:
            raise Unknown('delete')

    def s_Return(self, s):
        v = self.expr(s.value) if s.value is not None else NONE
        self.frame.rets.append((self.guards, self.loops, v, s,
                                len(self.log)))
        raise Dead()

    def s_Raise(self, s):
        v = self.expr(s.exc) if s.exc is not None else ('reraise',)
        self.raises.append((self.guards, self.loops, v, s, len(self.log)))
        raise Dead()

    def s_Assert(self, s):
        self.fact(self.cond(s.test))

    def s_FunctionDef(self, s):
        i = ('closure', s.name, len(self.closures))
        self.closures[i] = Closure(s, self.frame, self.frame.cls)
        self.frame.env[s.name] = i

    def s_ClassDef(self, s):
        self.frame.env[s.name] = ('class', s.name)

    def s_If(self, s):
        self.branch(self.cond(s.test), s.body, s.orelse)

    def branch(self, c, body, orelse):
        g0 = self.guards
        f = self.frame
        env0 = dict(f.env)
        outs = []
        for cc, b in ((c, body), (neg(c), orelse)):
            self.guards = g0
            f.env = dict(env0)
            try:
                self.fact(cc)
                self.block(b)
                outs.append((cc, f.env, self.guards))
            except Dead:
                outs.append(None)
        self.join(c, outs, g0)

    def join(self, c, outs, g0):
        f = self.frame
        if outs[0] is None and outs[1] is None:
            raise Dead()
        if outs[0] is None or outs[1] is None:
            o = outs[0] or outs[1]
            f.env, self.guards = o[1], o[2]
            return
        (c1, e1, g1), (c2, e2, g2) = outs
        env = {}
        for k in set(e1) | set(e2):
            a, b = e1.get(k), e2.get(k)
            if a is None or b is None:
                a = a or ('unset',)
                b = b or ('unset',)
            env[k] = gate(c1, a, b)
        f.env = env
        x1 = [g for g in g1 if g not in g0 and g != c1
              and not (c1[0] == 'and' and g in c1)]
        x2 = [g for g in g2 if g not in g0 and g != c2
              and not (c2[0] == 'and' and g in c2)]
        self.guards = g0
        if x1 or x2:
            if x1 == x2:
                for g in x1:
                    self.fact(g)
            else:
                self.fact(disj(conj(c1, *x1), conj(c2, *x2)))

    def checkpoint(self):
        return [len(x) for x in (self.log, self.raises, self.returns,
                                 self.yields, self.reads, self.opaque,
                                 self.frame.rets)] + [
            [dict(x) for x in self.loop_stack]]

    def rollback(self, c):
        for x, n in zip((self.log, self.raises, self.returns, self.yields,
                         self.reads, self.opaque, self.frame.rets), c):
            del x[n:]

    # loops
    def assigned(self, stmts):
        names = []

        class W(ast.NodeVisitor):
            def visit_Name(self, n):
                if isinstance(n.ctx, (ast.Store, ast.Del)) \
                        and n.id not in names:
                    names.append(n.id)

            def visit_FunctionDef(self, n):
                if n.name not in names:
                    names.append(n.name)

            def visit_Lambda(self, n):
                pass

            def visit_ListComp(self, n):
                pass
            visit_SetComp = visit_DictComp = visit_GeneratorExp = \
                visit_ListComp
        for s in stmts:
            W().visit(s)
        return names

    def loop(self, head, stmts, setup, s):
        """One generic iteration of a loop."""
        f = self.frame
        g0, l0, e0 = self.guards, self.loops, dict(f.env)
        seen = {}
        names = self.assigned(stmts)
        phis = {}
        for nme in names:
            init = e0.get(nme, ('unset',))
            k = seen.get(init, 0)
            seen[init] = k + 1
            phis[nme] = ('phi', len(l0), init, k)
            f.env[nme] = phis[nme]
        mark = len(self.log)
        save = self.checkpoint()
        env = dict(f.env)
        written = None
        while True:
            if written:
                for b, k in written:
                    self.emit('havoc', b, k, ('phi', len(l0), b, k), s)
            self.loop_stack.append({'brk': []})
            test = None
            try:
                test = setup()
                if test is not None:
                    self.fact(test)
                self.block(stmts)
                ends = [(self.guards, dict(f.env))]
            except Dead:
                ends = []
            top = self.loop_stack.pop()
            if written is not None:
                break
            written = []
            for e in self.log[mark:]:
                if e.op in ('call', 'yield', 'yieldall', 'havoc'):
                    continue
                w = (e.base, e.key if e.op in ('field', 'delattr') else None)
                if w not in written and not mentions_depth(e.base, len(l0)):
                    written.append(w)
            if not written:
                break
            self.rollback(save)
            f.env = dict(env)
            self.guards, self.loops = g0, l0
        after = dict(e0)
        for nme in names:
            if nme in getattr(self, 'targets', ()):
                continue
            upd = [e.get(nme) for g, e in ends + top['brk']
                   if e.get(nme) not in (None, phis[nme])]
            self.steps.append((phis[nme], upd))
            if not upd:
                after[nme] = e0.get(nme, ('unset',))
            else:
                after[nme] = ('exit', phis[nme][2], self.loops[-1:] or
                              ('loop',)) + tuple(sorted(set(upd),
                                                        key=key_of))
        f.env = after
        sig = self.loops[-1] if len(self.loops) > len(l0) else None
        self.guards, self.loops = g0, l0
        if s.orelse:
            self.block(s.orelse)
        return test, bool(top['brk'])

    def s_For(self, s):
        it = self.iterable(self.expr(s.iter))
        d = len(self.loops)

        def setup():
            self.loops = self.loops + (('for', it),)
            self.bind_element(s.target, it, d)
        self.loop(None, s.body, setup, s)

    def bind_element(self, target, it, d):
        kind, src = it
        if kind == 'items' and isinstance(target, ast.Tuple) and \
                len(target.elts) == 2:
            e = ('el', d, ('keys', src))
            self.assign(target.elts[0], e)
            self.assign(target.elts[1], ('idx', src, e))
        elif kind == 'enum' and isinstance(target, ast.Tuple) and \
                len(target.elts) == 2:
            self.assign(target.elts[0], ('pos', d, src))
            self.assign(target.elts[1], ('el', d, ('keys', src)))
        elif kind == 'pos':
            self.assign(target, ('pos', d, src))
        elif kind == 'zip' and isinstance(target, ast.Tuple) and \
                len(target.elts) == len(src):
            for t, x in zip(target.elts, src):
                self.assign(t, ('el', d, ('keys', x)))
        else:
            self.assign(target, ('el', d, it))

    def iterable(self, t):
        """(kind, source): what a loop ranges over."""
        while True:
            if t[0] == 'new' and t[1] in ('list', 'set', 'tuple') and \
                    len(t[2]) == 2 and t[2][0] == 'from':
                t = t[2][1]
                continue
            if t[0] == 'call' and t[1] in ('iter', 'tuple', 'list') \
                    and len(t) == 3:
                t = t[2]
                continue
            break
        if t[0] == 'mcall' and t[1] in ('items', 'iteritems'):
            return ('items', t[2])
        if t[0] == 'mcall' and t[1] in ('keys', 'iterkeys'):
            return ('keys', t[2])
        if t[0] == 'mcall' and t[1] in ('values', 'itervalues'):
            return ('values', t[2])
        if t[0] == 'call' and t[1] == 'enumerate' and len(t) == 3:
            return ('enum', t[2])
        if t[0] == 'call' and t[1] == 'zip':
            return ('zip', t[2:])
        if t[0] == 'call' and t[1] == 'range' and len(t) == 3 and \
                t[2][0] == 'len':
            return ('pos', t[2][1])
        return ('keys', t)

    def s_While(self, s):
        def setup():
            c = self.cond(s.test)
            self.loops = self.loops + (('while', c),)
            return c
        test, brk = self.loop(None, s.body, setup, s)
        if test == TRUE and not brk:
            raise Dead()

    def s_Break(self, s):
        self.loop_stack[-1]['brk'].append((self.guards,
                                           dict(self.frame.env)))
        raise Dead()

    def s_Continue(self, s):
        self.loop_stack[-1].setdefault('cont', []).append(
            (self.guards, dict(self.frame.env)))
        raise Dead()

    def s_Try(self, s):
        f = self.frame
        g0, e0 = self.guards, dict(f.env)
        n = len(self.raises)
        outs = []
        try:
            self.block(s.body)
            self.block(s.orelse)
            outs.append((self.guards, f.env))
        except Dead:
            pass
        for h in s.handlers:
            what = self.expr(h.type) if h.type is not None else \
                ('g', 'BaseException')
            self.guards, f.env = g0, dict(e0)
            self.fact(('exc', what))
            if h.name:
                f.env[h.name] = ('caught', what)
            try:
                self.block(h.body)
                outs.append((self.guards, f.env))
            except Dead:
                pass
        if not outs:
            raise Dead()
        self.guards, f.env = outs[0]
        for g, e in outs[1:]:
            c = [x for x in g if x not in g0]
            c = c[0] if c else TRUE
            for k in set(f.env) | set(e):
                f.env[k] = gate(c, e.get(k, ('unset',)),
                                f.env.get(k, ('unset',)))
            self.guards = g0
        if s.finalbody:
            self.block(s.finalbody)

    def s_With(self, s):
        for i in s.items:
            v = self.expr(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, ('entered', v))
        self.block(s.body)

    # --------------------------------------------------------- assignments
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.set_name(t.id, v)
        elif isinstance(t, ast.Attribute):
            self.store_field(self.expr(t.value), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            b = self.expr(t.value)
            k = self.index(t.slice)
            if b == ('p', 'self') and \
                    self.method('__setitem__', [k, v], t) is not None:
                return
            self.store_item(b, k, v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unknown('starred target')
            for i, x in enumerate(t.elts):
                self.assign(x, self.part(v, i, len(t.elts)))
        else:
            raise Unknown('target')

    def part(self, v, i, n):
        if v[0] == 'tuple' and len(v) == n + 1:
            return v[i + 1]
        if v[0] == 'ite':
            return gate(v[1], self.part(v[2], i, n), self.part(v[3], i, n))
        return ('part', v, i)

    def set_name(self, n, v):
        if n in self.frame.nonlocals:
            fr = self.frame.outer
            while fr is not None:
                if n in fr.env:
                    fr.env[n] = v
                    return
                fr = fr.outer
        self.frame.env[n] = v

    def store_field(self, b, name, v, node):
        self.emit('field', b, ('f', name), v, node)

    def store_item(self, b, k, v, node):
        self.emit('put', b, k, v, node)

    def emit(self, op, base, key, val, node):
        e = Entry(len(self.log), op, base, key, val, self.guards, self.loops,
                  node, self.frame.node)
        self.log.append(e)
        return e

    # -------------------------------------------------------------- memory
    def field(self, b, name):
        return self.lookup(b, ('f', name), ('fld', b, name),
                           ('field', 'delattr'))

    def lookup(self, b, k, base, ops, stop=()):
        """The value stored under k of b, looking back through the log."""
        out = base
        for e in self.log:
            if e.base != b or self.dead_entry(e):
                continue
            if e.op == 'havoc':
                if e.key is None and k[0] != 'f' or e.key == k:
                    if e.loops == self.loops[:len(e.loops)]:
                        out = ('phi', len(e.loops), out, 0)
                continue
            if e.op not in ops:
                continue
            if e.key != k:
                if self.apart(e.key, k):
                    continue
                same = compare('Eq', e.key, k)
            else:
                same = TRUE
            g = [x for x in e.guards if self.known(x) != TRUE]
            if e.loops != self.loops[:len(e.loops)]:
                out = ('upd', out, e.loops[len(self.loops):], e.key,
                       e.val or ('gone',))
                continue
            val = e.val if e.op in ('put', 'field', 'add') else ('gone',)
            out = gate(conj(same, *g), val, out)
        return out

    def apart(self, a, b):
        """Keys known to differ."""
        if a[0] == 'f' or b[0] == 'f':
            return True
        if a[0] == 'c' and b[0] == 'c':
            return a[1] != b[1]
        return neg(compare('Eq', a, b)) in self.guards

    def dead_entry(self, e):
        return any(self.known(g) == FALSE for g in e.guards)

    def read(self, b, k, node=None):
        there = node is not None and k[0] != 'slice' and tautology(
            self.known(self.contains(k, b)))
        self.reads.append((len(self.log), b, k, self.guards, self.loops,
                           node, there))
        if k[0] == 'pos' and k[2] == b:
            return ('el', k[1], ('keys', b))
        if b[0] == 'tuple' and k[0] == 'c' and type(k[1]) is int and \
                -len(b) < k[1] < len(b) - 1:
            return b[1:][k[1]]
        if b[0] == 'new' and b[1] == 'dict' and b[2][0] == 'items':
            base = ('gone',)
            for kk, vv in zip(b[2][1::2], b[2][2::2]):
                if kk == k:
                    base = vv
                elif not self.apart(kk, k):
                    base = gate(compare('Eq', kk, k), vv, base)
            if base == ('gone',):
                base = ('idx', b, k)
        else:
            base = ('idx', b, k)
        return self.lookup(b, k, base, ('put', 'del'))

    def state(self, b):
        """The container with the changes made to it so far."""
        ch = []
        for e in self.log:
            if e.base == b and e.op not in ('field', 'delattr') \
                    and not self.dead_entry(e) and not (
                        e.op == 'havoc' and (e.key is not None or
                                             e.loops != self.loops[
                                                 :len(e.loops)])):
                g = tuple(sorted((x for x in e.guards
                                  if self.known(x) != TRUE), key=key_of))
                ch.append((e.op, e.key, e.val, g,
                           e.loops[len(self.loops):]
                           if e.loops != self.loops[:len(e.loops)] else ()))
        if not ch:
            return b
        return ('after', b) + tuple(ch)

    def contains(self, k, c):
        s = self.state(c)
        if s is not c and s[0] == 'after':
            out = ('in', k, c)
            if c[0] == 'new':
                out = FALSE if c[2] == ('empty',) else ('in', k, strip(c))
            for op, kk, v, g, lp in s[2:]:
                if lp:
                    return ('in', k, s)
                if op == 'havoc':
                    out = ('in', k, s)
                    continue
                x = v if op in ('add', 'remove', 'discard') else kk
                if op in ('put', 'add'):
                    to = TRUE
                elif op in ('del', 'remove', 'discard'):
                    to = FALSE
                else:
                    return ('in', k, s)
                same = TRUE if x == k else FALSE if self.apart(x, k) else \
                    compare('Eq', x, k)
                out = gate(conj(same, *g), to, out)
            return out
        if c[0] == 'new' and c[2] == ('empty',):
            return FALSE
        if c[0] == 'mcall' and c[1] == 'keys':
            return ('in', k, c[2])
        if c[0] in ('tuple',) or c[0] == 'new' and c[2][0] == 'seq':
            return disj(*[compare('Eq', k, x) for x in
                          (c[1:] if c[0] == 'tuple' else c[2][1:])])
        return ('in', k, s)

    # --------------------------------------------------------- expressions
    def expr(self, e):
        return getattr(self, 'e_' + type(e).__name__, self.e_unknown)(e)

    def e_unknown(self, e):
        raise Unknown(type(e).__name__)

    def e_Constant(self, e):
        return ('c', e.value)

    def name(self, n):
        fr = self.frame
        while fr is not None:
            if n in fr.env:
                return fr.env[n]
            fr = fr.outer
        return ('g', n)

    def e_Name(self, e):
        return self.name(e.id)

    def e_Attribute(self, e):
        b = self.expr(e.value)
        if b[0] == 'g':
            return ('g', b[1] + '.' + e.attr)
        return self.field(b, e.attr)

    def index(self, s):
        if isinstance(s, ast.Slice):
            return ('slice',) + tuple(self.expr(x) if x is not None else NONE
                                      for x in (s.lower, s.upper, s.step))
        return self.expr(s)

    def e_Subscript(self, e):
        b = self.expr(e.value)
        k = self.index(e.slice)
        if b == ('p', 'self'):
            r = self.method('__getitem__', [k], e)
            if r is not None:
                return r
        if k[0] == 'slice':
            return ('slice', self.state(b)) + k[1:]
        return self.read(b, k, e)

    def e_Tuple(self, e):
        return ('tuple',) + tuple(self.expr(x) for x in e.elts)

    def fresh(self, kind, content):
        self.count += 1
        return ('new', kind, content, self.count)

    def e_List(self, e):
        if not e.elts:
            return self.fresh('list', ('empty',))
        return self.fresh('list', ('seq',) + tuple(self.expr(x)
                                                   for x in e.elts))

    def e_Set(self, e):
        return self.fresh('set', ('seq',) + tuple(sorted(
            (self.expr(x) for x in e.elts), key=key_of)))

    def e_Dict(self, e):
        if not e.keys:
            return self.fresh('dict', ('empty',))
        out = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unknown('dict unpacking')
            out += [self.expr(k), self.expr(v)]
        return self.fresh('dict', ('items',) + tuple(out))

    def e_Starred(self, e):
        return ('star', self.expr(e.value))

    def e_BoolOp(self, e):
        """Later operands are evaluated knowing the earlier ones."""
        g0 = self.guards
        vals = []
        try:
            for x in e.values:
                v = self.expr(x)
                v = self.known(v) if is_bool(v) else v
                vals.append(v)
                c = truth(v)
                try:
                    self.fact(c if isinstance(e.op, ast.And) else neg(c))
                except Dead:
                    break
        finally:
            self.guards = g0
        if all(is_bool(v) for v in vals):
            return (conj if isinstance(e.op, ast.And) else disj)(*vals)
        out = vals[-1]
        for v in reversed(vals[:-1]):
            out = gate(truth(v), out, v) if isinstance(e.op, ast.And) else \
                gate(truth(v), v, out)
        if self.boolean_context:
            return truth(out)
        return out

    boolean_context = False

    def e_UnaryOp(self, e):
        v = self.expr(e.operand)
        n = type(e.op).__name__
        if n == 'Not':
            return self.known(neg(truth(self.sized(v))))
        if n == 'USub':
            if v[0] == 'c' and type(v[1]) in (int, float):
                return ('c', -v[1])
            return v[1] if v[0] == 'neg' else ('neg', v)
        if n == 'Invert':
            return v[1] if v[0] == '~' else ('~', v)
        return v

    def sized(self, v):
        """A container whose truth value is asked for."""
        if v[0] in ('fld', 'idx', 'p', 'new', 'phi', 'el', 'exit'):
            s = self.state(v)
            if s[0] == 'new' and s[2] == ('empty',):
                return FALSE
            return s
        return v

    def cond(self, e):
        v = self.expr(e)
        return self.known(truth(self.sized(v)))

    def e_BinOp(self, e):
        op = BIN[type(e.op).__name__]
        a, b = self.expr(e.left), self.expr(e.right)
        if op == '%' and a[0] == 'c' and type(a[1]) is str:
            return self.formatted(a[1], b)
        if a[0] == 'ite' and a[2][0] == a[3][0] == 'c':
            pass
        return binary(op, self.settled(a), self.settled(b))

    def settled(self, t):
        return self.state(t) if t[0] in ('fld', 'idx', 'p', 'new') else t

    def formatted(self, fmt, arg):
        args = list(arg[1:]) if arg[0] == 'tuple' else [arg]
        out = []
        i = 0
        lit = ''
        while i < len(fmt):
            ch = fmt[i]
            if ch != '%':
                lit += ch
                i += 1
                continue
            j = i + 1
            while j < len(fmt) and fmt[j] in '0123456789.-+ #':
                j += 1
            if j >= len(fmt):
                raise Unknown('format')
            conv = fmt[j]
            if conv == '%':
                lit += '%'
            elif conv == '(' or not args:
                raise Unknown('format')
            else:
                out.append(('c', lit))
                lit = ''
                spec = fmt[i + 1:j]
                a = args.pop(0)
                if conv in 'sr' and not spec:
                    a = self.as_text(a) if conv == 's' else \
                        ('call', 'repr', a)
                else:
                    a = ('fmt', spec + conv, a)
                out.append(a)
            i = j + 1
        out.append(('c', lit))
        return text(*out)

    def as_text(self, t):
        """str(t), which is t itself for texts."""
        if t[0] == 'c':
            return ('c', str(t[1]))
        if t[0] == 'call' and t[1] == 'str' and len(t) == 3:
            return t
        if t[0] in ('str', 'fmt') or t[0] == 'mcall' and t[1] in (
                'join', 'rstrip', 'strip', 'lstrip', 'format', 'replace',
                'lower', 'upper'):
            return t
        if t[0] == 'ite':
            return gate(t[1], self.as_text(t[2]), self.as_text(t[3]))
        return ('call', 'str', t)

    def e_JoinedStr(self, e):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(('c', v.value))
                continue
            x = self.expr(v.value)
            if v.conversion == 114:
                x = ('call', 'repr', x)
            if v.format_spec is not None:
                sp = self.expr(v.format_spec)
                if sp[0] != 'c':
                    raise Unknown('format')
                x = ('fmt', sp[1], x)
            else:
                x = self.as_text(x)
            out.append(x)
        return text(*out)

    def e_Compare(self, e):
        out = []
        left = self.expr(e.left)
        for op, r in zip(e.ops, e.comparators):
            right = self.expr(r)
            n = type(op).__name__
            if n in ('In', 'NotIn'):
                if right == ('p', 'self'):
                    c = self.method('__contains__', [left], e)
                    if c is None:
                        c = ('in', left, right)
                    c = truth(c)
                else:
                    c = self.contains(left, right)
                out.append(neg(c) if n == 'NotIn' else c)
            else:
                out.append(compare(n, self.settled(left),
                                   self.settled(right)))
            left = right
        return self.known(conj(*out))

    def e_IfExp(self, e):
        c = self.cond(e.test)
        g0 = self.guards
        vals = []
        for cc, x in ((c, e.body), (neg(c), e.orelse)):
            self.guards = g0
            try:
                self.fact(cc)
                vals.append(self.expr(x))
            except Dead:
                vals.append(None)
        self.guards = g0
        if vals[0] is None or vals[1] is None:
            return vals[0] or vals[1] or NONE
        return gate(c, vals[0], vals[1])

    def e_NamedExpr(self, e):
        v = self.expr(e.value)
        self.assign(e.target, v)
        return v

    def e_Lambda(self, e):
        env = {}
        for i, a in enumerate(e.args.args):
            env[a.arg] = ('arg', i)
        f = Frame(e, env, self.frame, self.frame.cls)
        self.frames.append(f)
        try:
            v = self.expr(e.body)
        finally:
            self.frames.pop()
        return ('lambda', len(e.args.args), v)

    def comp(self, e, kind, *elts):
        f = Frame(e, {}, self.frame, self.frame.cls)
        self.frames.append(f)
        g0, l0 = self.guards, self.loops
        try:
            gens = []
            for g in e.generators:
                it = self.iterable(self.expr(g.iter))
                d = len(self.loops)
                self.loops = self.loops + (('for', it),)
                self.bind_element(g.target, it, d)
                conds = []
                for c in g.ifs:
                    t = self.cond(c)
                    conds.append(t)
                    try:
                        self.fact(t)
                    except Dead:
                        pass
                gens.append((it, conj(*conds)))
            vals = tuple(self.expr(x) for x in elts)
        finally:
            self.frames.pop()
            self.guards, self.loops = g0, l0
        return ('comp', kind, vals, tuple(gens))

    def e_ListComp(self, e):
        return self.fresh('list', self.comp(e, 'seq', e.elt))

    def e_SetComp(self, e):
        return self.fresh('set', self.comp(e, 'seq', e.elt))

    def e_GeneratorExp(self, e):
        return self.comp(e, 'seq', e.elt)

    def e_DictComp(self, e):
        return self.fresh('dict', self.comp(e, 'map', e.key, e.value))

    def e_Yield(self, e):
        v = self.expr(e.value) if e.value is not None else NONE
        self.yields.append((self.guards, self.loops, v, e, len(self.log)))
        self.emit('yield', ('out',), None, v, e)
        return ('sent',)

    def e_YieldFrom(self, e):
        v = self.expr(e.value)
        self.emit('yieldall', ('out',), None, v, e)
        return ('sent',)

    # --------------------------------------------------------------- calls
    def e_Call(self, e):
        if any(isinstance(a, ast.Starred) for a in e.args) or \
                any(k.arg is None for k in e.keywords):
            return self.opaque_call(e)
        f = e.func
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and \
                    isinstance(f.value.func, ast.Name) and \
                    f.value.func.id == 'super':
                return self.super_call(f, e)
            return self.method_call(f, e)
        fv = self.expr(f)
        args = [self.expr(a) for a in e.args]
        kw = {k.arg: self.expr(k.value) for k in e.keywords}
        return self.apply(fv, args, kw, e)

    def opaque_call(self, e):
        parts = []
        if isinstance(e.func, ast.Attribute):
            b = self.expr(e.func.value)
            name = e.func.attr
            parts.append(b)
        else:
            b = None
            fv = self.expr(e.func)
            name = fv[1] if fv[0] in ('g', 'p') else 'value'
        for a in e.args:
            parts.append(self.expr(a))
        for k in e.keywords:
            parts.append(('kw', k.arg, self.expr(k.value)))
        t = ('call*', name) + tuple(parts)
        self.emit('call', b or ('g', str(name)), None, t, e)
        return t

    def apply(self, fv, args, kw, e):
        if fv[0] == 'closure':
            c = self.closures[fv]
            r = self.inline(c.node, c.cls, args, kw, c.frame, False)
            if r is not None:
                return r
            return self.unknown_call(fv[1], fv, args, kw, e)
        if fv[0] == 'lambda' and len(args) == fv[1] and not kw:
            return subst(fv[2], {('arg', i): a for i, a in enumerate(args)})
        if fv[0] == 'g':
            return self.global_call(fv[1], args, kw, e)
        if fv[0] == 'ite':
            return gate(fv[1], self.apply(fv[2], args, kw, e),
                        self.apply(fv[3], args, kw, e))
        t = ('app', fv) + tuple(args) + tuple(
            ('kw', k, v) for k, v in sorted(kw.items()))
        self.emit('call', ('g', 'callback'), None, t, e)
        return t

    def global_call(self, n, args, kw, e):
        if n == 'len' and len(args) == 1:
            a = args[0]
            if a == ('p', 'self'):
                r = self.method('__len__', [], e)
                if r is not None:
                    return r
            if a[0] == 'tuple':
                return ('c', len(a) - 1)
            return ('len', self.settled(a))
        if n == 'isinstance' and len(args) == 2:
            return self.isinstance(*args)
        if n == 'bool' and len(args) == 1:
            return truth(self.sized(args[0]))
        if n == 'str' and len(args) == 1:
            return self.as_text(args[0])
        if n in FRESH and not kw:
            if not args:
                return self.fresh(FRESH[n], ('empty',))
            a = args[0]
            if a[0] == 'new' and a[1] == FRESH[n] == 'list':
                pass
            if a[0] == 'comp':
                return self.fresh(FRESH[n], a)
            return self.fresh(FRESH[n], ('from', self.state(a)))
        if n in ('min', 'max') and not kw:
            if len(args) > 1:
                return ('call', n) + tuple(sorted(args, key=key_of))
        if n == 'abs' and len(args) == 1 and args[0][0] == '-':
            return ('call', 'abs', ('-',) + tuple(sorted(args[0][1:],
                                                         key=key_of)))
        ops = {'operator.or_': '|', 'operator.and_': '&',
               'operator.xor': '^'}
        if n in ops and len(args) == 2:
            return binary(ops[n], *args)
        if n in PURE:
            return ('call', n) + tuple(self.settled(a) for a in args) + tuple(
                ('kw', k, v) for k, v in sorted(kw.items()))
        r = self.resolve('func', n, None, self.frame.node)
        if r is not None:
            v = self.inline(r[0], r[1], args, kw, None, False)
            if v is not None:
                return v
        return self.unknown_call(n, None, args, kw, e)

    def isinstance(self, x, t):
        if t[0] == 'tuple':
            return disj(*[('isinst', x, y) for y in t[1:]])
        return ('isinst', x, t)

    def unknown_call(self, n, f, args, kw, e):
        t = ('call', n) + tuple(args) + tuple(
            ('kw', k, v) for k, v in sorted(kw.items()))
        if not self.is_pure(n):
            self.emit('call', ('g', n), None, t, e)
        return t

    pure_names = ()

    def is_pure(self, n):
        return n in PURE or n in self.pure_names or \
            n.endswith(('Error', 'Exception', 'Warning'))

    def method_call(self, f, e):
        b = self.expr(f.value)
        args = [self.expr(a) for a in e.args]
        kw = {k.arg: self.expr(k.value) for k in e.keywords}
        n = f.attr
        if b[0] == 'g':
            r = self.resolve('class', b[1], n, self.frame.node)
            if r is not None and args:
                v = self.inline(r[0], r[1], args[1:], kw, None, True,
                                args[0])
                if v is not None:
                    return v
            return self.global_call(b[1] + '.' + n, args, kw, e)
        if b == ('p', 'self') and self.root_cls() is not None:
            r = self.method(n, args, e, kw)
            if r is not None:
                return r
            if self.resolve('method', n, self.dynamic or
                            self.frame.cls) is None:
                return self.apply(self.field(b, n), args, kw, e)
        if n == 'get' and 1 <= len(args) <= 2 and not kw:
            d = args[1] if len(args) == 2 else NONE
            return gate(self.contains(args[0], b), self.read(b, args[0]), d)
        if n in MUTATORS:
            return self.mutate(n, b, args, kw, e)
        if b[0] == 'c' and type(b[1]) is str and n == 'join' and args:
            return self.joined(b[1], args[0])
        if b[0] == 'c' and type(b[1]) is str and n == 'format':
            return self.brace_format(b[1], args, kw)
        t = ('mcall', n, self.state(b)) + tuple(args) + tuple(
            ('kw', k, v) for k, v in sorted(kw.items()))
        if n == 'copy' and not args:
            return self.fresh('copy', ('from', self.state(b)))
        if n not in PURE_METHODS and n not in self.pure_names:
            self.emit('call', b, None, t, e)
        return t

    def joined(self, sep, a):
        if a[0] == 'new' and a[2][0] == 'seq':
            parts = []
            for i, x in enumerate(a[2][1:]):
                if i:
                    parts.append(('c', sep))
                parts.append(x)
            return text(*parts)
        return ('mcall', 'join', ('c', sep), self.state(a))

    def brace_format(self, fmt, args, kw):
        import string
        out = []
        k = 0
        for lit, fld, spec, conv in string.Formatter().parse(fmt):
            out.append(('c', lit))
            if fld is None:
                continue
            if fld == '':
                x = args[k]
                k += 1
            elif fld.isdigit():
                x = args[int(fld)]
            elif fld in kw:
                x = kw[fld]
            else:
                raise Unknown('format')
            if conv == 'r':
                x = ('call', 'repr', x)
            out.append(('fmt', spec, x) if spec else self.as_text(x))
        return text(*out)

    def mutate(self, n, b, args, kw, e):
        op = MUTATORS[n]
        if op == 'setdefault':
            d = args[1] if len(args) > 1 else NONE
            c = self.contains(args[0], b)
            old = self.read(b, args[0])
            g0 = self.guards
            try:
                self.fact(neg(c))
                self.emit('put', b, args[0], d, e)
            except Dead:
                pass
            self.guards = g0
            return gate(c, old, d)
        if op in ('append', 'add', 'remove', 'discard') and len(args) == 1:
            self.emit(op, b, None, args[0], e)
            return NONE
        if op == 'update' and len(args) == 1 and not kw and \
                args[0][0] == 'new' and args[0][2][0] == 'items':
            c = args[0][2]
            for k, v in zip(c[1::2], c[2::2]):
                self.emit('put', b, k, v, e)
            return NONE
        if op == 'pop' and len(args) == 0:
            t = ('popped', self.state(b))
            self.emit('pop', b, None, t, e)
            return t
        if op == 'pop' and len(args) == 1 and args[0] == ('c', -1):
            t = ('popped', self.state(b))
            self.emit('pop', b, None, t, e)
            return t
        if op == 'pop' and len(args) == 1:
            v = self.read(b, args[0], e)
            self.emit('del', b, args[0], None, e)
            return v
        if op == 'pop' and len(args) == 2:
            c = self.contains(args[0], b)
            v = gate(c, self.read(b, args[0]), args[1])
            g0 = self.guards
            try:
                self.fact(c)
                self.emit('del', b, args[0], None, e)
            except Dead:
                pass
            self.guards = g0
            return v
        self.emit(op, b, None, args[0] if len(args) == 1 else
                  ('args',) + tuple(args), e)
        return ('did', n, b) + tuple(args)

    # ------------------------------------------------------------ inlining
    def root_cls(self):
        # a helper outside the class that is given self
        for f in reversed(self.frames):
            if f.cls is not None:
                return f.cls
        return None

    dynamic = None

    def method(self, n, args, e, kw=None):
        r = self.resolve('method', n, self.dynamic or self.frame.cls)
        if r is None:
            return None
        return self.inline(r[0], r[1], args, kw or {}, None, True,
                           ('p', 'self'))

    def super_call(self, f, e):
        args = [self.expr(a) for a in e.args]
        kw = {k.arg: self.expr(k.value) for k in e.keywords}
        r = self.resolve('super', f.attr, self.frame.cls)
        if r is not None:
            v = self.inline(r[0], r[1], args, kw, None, True, ('p', 'self'))
            if v is not None:
                return v
        return self.unknown_call('super.' + f.attr, None, args, kw, e)

    def inline(self, fn, cls, args, kw, outer, bound, selfv=None):
        """Expand a call; None when it cannot be expanded."""
        if len(self.frames) > DEPTH or any(f.node is fn
                                           for f in self.frames):
            return None
        if any(isinstance(n, (ast.Yield, ast.YieldFrom))
               for n in walk_own(fn)):
            return None
        a = fn.args
        if a.vararg or a.kwarg:
            return None
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        vals = ([selfv] if bound else []) + list(args)
        if len(vals) > len(names):
            return None
        for x, v in zip(names, vals):
            env[x] = v
        for k, v in kw.items():
            if k not in names + [x.arg for x in a.kwonlyargs] or k in env:
                return None
            env[k] = v
        defaults = dict(zip(names[len(names) - len(a.defaults):],
                            a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs,
                                                  a.kw_defaults) if d})
        for x in names + [y.arg for y in a.kwonlyargs]:
            if x not in env:
                if x not in defaults:
                    return None
                env[x] = self.expr(defaults[x])
        f = Frame(fn, env, outer, cls)
        g0, l0 = self.guards, self.loops
        stack = self.loop_stack
        self.loop_stack = []
        self.frames.append(f)
        try:
            try:
                self.block(fn.body)
                f.rets.append((self.guards, self.loops, NONE, fn,
                               len(self.log)))
            except Dead:
                pass
        finally:
            self.frames.pop()
            self.loop_stack = stack
        self.guards, self.loops = g0, l0
        if not f.rets:
            raise Dead()
        # value and condition of returning
        out = None
        conds = []
        for g, lp, v, node, n in reversed(f.rets):
            own = [x for x in g if x not in g0]
            if lp != l0:
                own = own + [('ran', lp[len(l0):])]
            c = conj(*own)
            conds.append(c)
            out = v if out is None else gate(c, v, out)
        self.fact(cover(conds))
        return out


def cover(conds):
    """The disjunction of path conditions, complementary tails merged."""
    sets = [frozenset(c[1:]) if c[0] == 'and' else
            frozenset() if c == TRUE else frozenset([c]) for c in conds]
    changed = True
    while changed:
        changed = False
        for i in range(len(sets)):
            for j in range(len(sets)):
                if i == j:
                    continue
                a, b = sets[i], sets[j]
                if a <= b:              # b is implied
                    sets.pop(j)
                    changed = True
                    break
                d = a - b
                # a = r + {x}, b contains not x and the rest of a
                if len(d) == 1:
                    x = next(iter(d))
                    if neg(x) in b and (a - d) <= b:
                        sets[j] = b - {neg(x)}
                        changed = True
                        break
            if changed:
                break
    if any('ran' in [x[0] for x in s] for s in sets):
        sets = [frozenset(x for x in s if x[0] != 'ran') for s in sets]
        if frozenset() in sets:
            return TRUE
        common = frozenset.intersection(*sets)
        return conj(*common)
    return disj(*[conj(*s) for s in sets])


def mentions_depth(t, d):
    """The term depends on the element of the loop at depth d or deeper."""
    if not isinstance(t, tuple):
        return False
    if t[:1] in (('el',), ('pos',), ('phi',)) and len(t) > 2 and \
            type(t[1]) is int and t[1] >= d:
        return True
    if t[:1] == ('c',):
        return False
    return any(mentions_depth(x, d) for x in t)


def walk_own(fn):
    """Nodes of a function without those of nested functions."""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def subst(t, m):
    if t in m:
        return m[t]
    if not isinstance(t, tuple) or t[:1] == ('c',):
        return t
    return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)


def strip(t):
    """Forget the numbers of fresh containers."""
    if not isinstance(t, tuple):
        return t
    if t[:1] == ('new',) and len(t) == 4:
        return ('new', t[1], strip(t[2]))
    if t[:1] == ('c',):
        return t
    return tuple(strip(x) for x in t)


def show(t):
    if t is None:
        return '-'
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if k == 'c':
        return repr(t[1])
    if k in ('p', 'g'):
        return str(t[1])
    if k == 'fld':
        return '%s.%s' % (show(t[1]), t[2])
    if k == 'f':
        return t[1]
    if k == 'idx':
        return '%s[%s]' % (show(t[1]), show(t[2]))
    if k == 'not':
        return 'not ' + show(t[1])
    if k in ('and', 'or'):
        return '(' + (' %s ' % k).join(show(x) for x in t[1:]) + ')'
    if k in ('eq', 'lt', 'is', 'in'):
        return '%s %s %s' % (show(t[1]), {'eq': '==', 'lt': '<'}.get(k, k),
                             show(t[2]))
    if k == 'el':
        return 'each(%s)' % show(t[2][1])
    if k == 'truth':
        return show(t[1])
    if k == 'new':
        return 'new %s%s' % (t[1], '' if t[2] == ('empty',)
                             else ' ' + show(t[2]))
    if k == 'ite':
        return '(%s if %s else %s)' % (show(t[2]), show(t[1]), show(t[3]))
    return '%s(%s)' % (k, ', '.join(show(x) if isinstance(x, tuple)
                                    else str(x) for x in t[1:]))
