"""Rejection conditions of a function as quantified formulas.

reject(fn) reads off, from the statements that can end a function early, the
condition under which it rejects its argument (raises, or returns False):

    for v in G:
        if v in G[v]: return False         exists v in G: v in G[v]
        for w in G[v]:
            if v not in G[w]:              exists v in G, w in G[v]:
                return False                   not v in G[w]
    return True

as a list of disjuncts (quantifier list, literals).  Any construct outside the
understood fragment becomes an opaque disjunct.  Purely a rewriting of the
syntax tree; nothing is evaluated.
"""
import ast
import copy
import itertools

OPAQUE = ('?',)


class Opaque(Exception):
    pass


def breaks(stmts):
    """the break statements that leave the loop with this body"""
    for s in stmts:
        if isinstance(s, ast.Break):
            yield s
        elif isinstance(s, (ast.For, ast.While)):
            yield from breaks(s.orelse)
        elif not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            for field in ('body', 'orelse', 'finalbody'):
                yield from breaks(getattr(s, field, []))
            for h in getattr(s, 'handlers', []):
                yield from breaks(h.body)


class Reader(object):
    def __init__(self, functions):
        self.functions = functions      # name -> ast.FunctionDef
        self.n = itertools.count()
        self.depth = 0

    # ------------------------------------------------------------- terms

    def term(self, e, env):
        if isinstance(e, ast.Name):
            return env.get(e.id, ('name', e.id))
        if isinstance(e, ast.Constant):
            return ('const', type(e.value).__name__, repr(e.value))
        if isinstance(e, ast.Subscript):
            return ('item', self.term(e.value, env), self.term(e.slice, env))
        if isinstance(e, ast.Attribute):
            return ('attr', self.term(e.value, env), e.attr)
        if isinstance(e, ast.Tuple):
            return ('tuple',) + tuple(self.term(x, env) for x in e.elts)
        if isinstance(e, ast.Call) and not e.keywords:
            if isinstance(e.func, ast.Name) and e.func.id in (
                    'list', 'tuple', 'iter', 'set', 'frozenset',
                    'sorted') and len(e.args) == 1:
                return self.term(e.args[0], env)
            if isinstance(e.func, ast.Attribute) and e.func.attr == 'keys' \
                    and not e.args:
                return self.term(e.func.value, env)
            return ('call', self.term(e.func, env)) + tuple(
                self.term(a, env) for a in e.args)
        if isinstance(e, ast.BinOp):
            return ('op', type(e.op).__name__, self.term(e.left, env),
                    self.term(e.right, env))
        if isinstance(e, ast.UnaryOp):
            return ('op', type(e.op).__name__, self.term(e.operand, env))
        raise Opaque(ast.dump(e)[:80])

    # ---------------------------------------------------------- formulas
    # ('lit', positive, atom) ('and', [..]) ('or', [..]) ('ex', v, set, f)
    # ('not', f) True False

    def formula(self, e, env):
        if isinstance(e, ast.BoolOp):
            parts = [self.formula(x, env) for x in e.values]
            return ('and' if isinstance(e.op, ast.And) else 'or', parts)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return ('not', self.formula(e.operand, env))
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.Name) and '#' + e.id in env:
            return env['#' + e.id]
        if isinstance(e, ast.Compare):
            parts = []
            left = e.left
            for op, right in zip(e.ops, e.comparators):
                parts.append(self.compare(op, left, right, env))
                left = right
            return parts[0] if len(parts) == 1 else ('and', parts)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            f = e.func.id
            if f in ('any', 'all') and len(e.args) == 1 and isinstance(
                    e.args[0], (ast.GeneratorExp, ast.ListComp)):
                return self.quantified(f, e.args[0], env)
            if f == 'bool' and len(e.args) == 1:
                return self.formula(e.args[0], env)
            if f in self.functions and f not in self.keep:
                mode, self.mode = self.mode, 'false'
                try:
                    return ('not', self.inlined(self.functions[f], e, env))
                finally:
                    self.mode = mode
        if isinstance(e, ast.IfExp):
            c = self.formula(e.test, env)
            return ('or', [('and', [c, self.formula(e.body, env)]),
                           ('and', [('not', c),
                                    self.formula(e.orelse, env)])])
        if isinstance(e, (ast.ListComp, ast.SetComp)):
            # truth of a comprehension: it has an element
            return self.nested(e.generators, env, lambda en: True)
        t = self.term(e, env)
        if t[:2] == ('op', 'BitXor') and len(t) == 4:
            return ('lit', False, ('eq',) + tuple(sorted(t[2:], key=repr)))
        return ('lit', True, ('true', t))

    keep = ()

    MIRROR = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE,
              ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def extreme(self, e, env):
        """max(... for ...) or min(...), also behind a function that
        returns one -> (name, generators, element, environment) or None"""
        if not isinstance(e, ast.Call) or e.keywords or not isinstance(
                e.func, ast.Name) or len(e.args) != 1:
            return None
        if e.func.id in ('max', 'min'):
            a = e.args[0]
            if isinstance(a, (ast.GeneratorExp, ast.ListComp, ast.SetComp)):
                return e.func.id, a.generators, a.elt, env
            return None
        f = self.functions.get(e.func.id)
        if f is None or e.func.id in self.keep or len(f.args.args) != 1:
            return None
        body = [x for x in f.body if not isinstance(x, (ast.Expr, ast.Pass))]
        if len(body) != 1 or not isinstance(body[0], ast.Return) or \
                not isinstance(body[0].value, ast.Call):
            return None
        return self.extreme(body[0].value, {
            f.args.args[0].arg: self.term(e.args[0], env)})

    def order(self, op, a, b):
        if op is ast.Lt:
            return ('lit', True, ('lt', a, b))
        if op is ast.Gt:
            return ('lit', True, ('lt', b, a))
        if op is ast.LtE:
            return ('lit', False, ('lt', b, a))
        return ('lit', False, ('lt', a, b))

    def bounded(self, op, x, bound):
        """max(f) < b as a statement about the elements"""
        name, gens, elt, env = x
        if op in (ast.Eq, ast.NotEq):
            over = self.bounded(ast.Gt if name == 'max' else ast.Lt, x, bound)
            some = self.bounded(ast.GtE if name == 'max' else ast.LtE, x,
                                bound)
            f = ('and', [('not', over), ('some',) + some[1:]])
            return f if op is ast.Eq else ('not', f)
        negate = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt,
                  ast.GtE: ast.Lt}
        some = op in ((ast.Gt, ast.GtE) if name == 'max'
                      else (ast.Lt, ast.LtE))
        test = op if some else negate[op]
        f = self.nested(gens, env, lambda en: self.order(
            test, self.term(elt, en), bound))
        return f if some else ('not', ('some',) + f[1:])

    def compare(self, op, left, right, env):
        if type(op) in self.MIRROR:
            x, y = self.extreme(left, env), self.extreme(right, env)
            if x and not y:
                return self.bounded(type(op), x, self.term(right, env))
            if y and not x:
                return self.bounded(self.MIRROR[type(op)], y,
                                    self.term(left, env))
        a, b = self.term(left, env), self.term(right, env)
        if isinstance(op, (ast.Eq, ast.NotEq)) and (number(a) or number(b)):
            f = ('or', [('lit', True, ('lt', a, b)),
                        ('lit', True, ('lt', b, a))])
            return f if isinstance(op, ast.NotEq) else ('not', f)
        if isinstance(op, (ast.In, ast.NotIn)):
            return ('lit', isinstance(op, ast.In), ('in', a, b))
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
            return ('lit', isinstance(op, (ast.Eq, ast.Is)),
                    ('eq',) + tuple(sorted((a, b), key=repr)))
        if isinstance(op, ast.Lt):
            return ('lit', True, ('lt', a, b))
        if isinstance(op, ast.Gt):
            return ('lit', True, ('lt', b, a))
        if isinstance(op, ast.LtE):
            return ('lit', False, ('lt', b, a))
        if isinstance(op, ast.GtE):
            return ('lit', False, ('lt', a, b))
        raise Opaque('compare')

    def bind(self, target, s, env):
        if not isinstance(target, ast.Name):
            raise Opaque('target')
        v = ('var', next(self.n))
        env = dict(env)
        env[target.id] = v
        env.pop('#' + target.id, None)
        return v, env

    def nested(self, gens, env, body):
        if not gens:
            return body(env)
        g = gens[0]
        s = self.term(g.iter, env)
        v, env = self.bind(g.target, s, env)
        conds = [self.formula(c, env) for c in g.ifs]
        return ('ex', v, s, ('and', conds + [self.nested(gens[1:], env,
                                                         body)]))

    def quantified(self, f, comp, env):
        if f == 'any':
            return self.nested(comp.generators, env,
                               lambda en: self.formula(comp.elt, en))
        return ('not', self.nested(
            comp.generators, env,
            lambda en: ('not', self.formula(comp.elt, en))))

    # --------------------------------------------------------- statements

    def inlined(self, fn, call, env):
        """Formula: the called function rejects."""
        if self.depth > 3 or call.keywords or any(
                isinstance(a, ast.Starred) for a in call.args):
            raise Opaque('call')
        names = [a.arg for a in fn.args.args]
        if len(names) < len(call.args):
            raise Opaque('call')
        inner = dict(zip(names, [self.term(a, env) for a in call.args]))
        for a, d in zip(names[::-1], fn.args.defaults[::-1]):
            if a not in inner:
                inner[a] = self.term(d, {})
        self.depth += 1
        try:
            rej, acc, fall = self.block(fn.body, inner)
        finally:
            self.depth -= 1
        if self.saw_opaque:
            raise Opaque('call')
        return rej

    def forget(self, env, name):
        env[name] = ('unknown', name, next(self.n))
        env.pop('#' + name, None)

    saw_opaque = False
    mode = 'false'

    def block(self, stmts, env):
        """-> (rejects, accepts, falls through): formulas"""
        rej, acc = [], []
        live = True             # formula: still running
        env = dict(env)
        for s in stmts:
            r, a, go = self.stmt(s, env)
            rej.append(('and', [live, r]))
            acc.append(('and', [live, a]))
            live = ('and', [live, go])
            if go is False:
                break
        return ('or', rej), ('or', acc), live

    def stmt(self, s, env):
        try:
            return self.stmt1(s, env)
        except Opaque:
            if any(isinstance(n, (ast.Raise, ast.Return)) for n in
                   ast.walk(s)):
                self.opaque.append(s)
                self.saw_opaque = True
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.forget(env, n.id)
            return False, False, True

    opaque = ()

    def searching(self, s, env):
        """for ... break, else: the loop looks for an element"""
        if any(isinstance(n, (ast.Return, ast.Raise, ast.Yield,
                              ast.YieldFrom))
               for b in s.body for n in ast.walk(b)):
            raise Opaque('break')
        own = set()

        class Found(ast.NodeTransformer):
            def visit_Break(self, n):
                return ast.copy_location(ast.Return(ast.Constant(True)), n) \
                    if id(n) in own else n

        loop = copy.deepcopy(s)
        own.update(id(n) for n in breaks(loop.body))
        rest, loop.orelse = loop.orelse, []
        loop = Found().visit(loop)
        mode, self.mode = self.mode, 'false'
        try:
            r, a, g = self.stmt1(loop, dict(env))
        finally:
            self.mode = mode
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                self.forget(env, n.id)
        r2, a2, g2 = self.block(rest, env)
        no = ('not', a)
        return (('and', [no, r2]), ('and', [no, a2]),
                ('or', [a, ('and', [no, g2])]))

    def flags(self, s, env):
        """A loop that only sets one flag: the flag becomes 'there is an
        element for which it is set'."""
        names = {n.id for n in ast.walk(s) if isinstance(n, ast.Name)
                 and isinstance(n.ctx, ast.Store)} - {
            n.id for f in ast.walk(s) if isinstance(f, (ast.For,
                                                        ast.comprehension))
            for n in ast.walk(f.target) if isinstance(n, ast.Name)}
        if len(names) != 1 or s.orelse or any(isinstance(n, (
                ast.Return, ast.Raise, ast.Yield, ast.YieldFrom, ast.While,
                ast.Try, ast.With)) for n in ast.walk(s)):
            return None
        x = names.pop()
        sets = [n for n in ast.walk(s) if isinstance(n, ast.Assign)
                and len(n.targets) == 1 and isinstance(
                    n.targets[0], ast.Name) and n.targets[0].id == x]
        values = {n.value.value if isinstance(n.value, ast.Constant)
                  else None for n in sets}
        before = env.get('#' + x)
        if len(values) != 1 or not isinstance(before, bool) or \
                values != {not before}:
            return None
        if any(isinstance(n, ast.Name) and n.id == x and isinstance(
                n.ctx, ast.Load) for n in ast.walk(s)):
            return None

        class Found(ast.NodeTransformer):
            def visit_Assign(self, n):
                return ast.copy_location(ast.Return(ast.Constant(True)), n) \
                    if n in sets else n

        loop = copy.deepcopy(s)
        sets = [n for n in ast.walk(loop) if isinstance(n, ast.Assign)
                and isinstance(n.targets[0], ast.Name)
                and n.targets[0].id == x]
        for n in ast.walk(loop):
            # a break that does not follow the assignment ends the search
            if isinstance(n, ast.If) or isinstance(n, ast.For):
                for body in (n.body, n.orelse):
                    for i, b in enumerate(body):
                        if isinstance(b, ast.Break) and not (
                                i and body[i - 1] in sets):
                            return None
        loop = Found().visit(loop)
        mode, self.mode = self.mode, 'false'
        try:
            r, a, g = self.stmt1(loop, dict(env))
        finally:
            self.mode = mode
        env['#' + x] = a if not before else ('not', a)
        env[x] = ('unknown', x, next(self.n))
        return False, False, True

    def stmt1(self, s, env):
        if isinstance(s, ast.Raise):
            return True, False, False
        if isinstance(s, ast.Return):
            if s.value is None:
                return False, True, False
            if self.mode == 'raise':
                v = s.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) \
                        and v.func.id in self.functions and self.depth < 3:
                    # the called function may reject in its turn
                    fn = self.functions[v.func.id]
                    names = [a.arg for a in fn.args.args]
                    if len(names) == len(v.args) and not v.keywords:
                        inner = dict(zip(names, [self.term(a, env)
                                                 for a in v.args]))
                        self.depth += 1
                        try:
                            r = self.block(fn.body, inner)[0]
                        finally:
                            self.depth -= 1
                        return r, ('not', r), False
                return False, True, False
            f = self.formula(s.value, env)
            return ('not', f), f, False
        if isinstance(s, ast.Pass):
            return False, False, True
        if isinstance(s, (ast.Continue, ast.Break)):
            return False, False, False
        if isinstance(s, ast.Expr):
            v = s.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) \
                    and v.func.id in self.functions and any(
                        isinstance(n, ast.Raise) for n in ast.walk(
                            self.functions[v.func.id])):
                mode, self.mode = self.mode, 'raise'
                try:
                    r = self.inlined(self.functions[v.func.id], v, env)
                finally:
                    self.mode = mode
                return r, False, ('not', r)
            return False, False, True
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
                s.targets[0], ast.Tuple) and isinstance(
                    s.value, ast.Tuple) and len(s.targets[0].elts) == len(
                        s.value.elts) and all(isinstance(
                            x, ast.Name) for x in s.targets[0].elts):
            values = [self.term(x, env) for x in s.value.elts]
            for x, v in zip(s.targets[0].elts, values):
                self.forget(env, x.id)
                env[x.id] = v
            return False, False, True
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
                s.targets[0], ast.Name):
            x = s.targets[0].id
            truth = value = None
            opaque, saw = list(self.opaque), self.saw_opaque
            try:
                truth = self.formula(s.value, env)
            except Opaque:
                pass
            self.opaque, self.saw_opaque = opaque, saw
            try:
                value = self.term(s.value, env)
            except Opaque:
                if truth is None:
                    raise
            self.forget(env, x)
            if truth is not None:
                env['#' + x] = truth
            if value is not None:
                env[x] = value
            return False, False, True
        if isinstance(s, ast.If):
            c = self.formula(s.test, env)
            e1, e2 = dict(env), dict(env)
            r1, a1, g1 = self.block(s.body, e1)
            r2, a2, g2 = self.block(s.orelse, e2)
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.forget(env, n.id)
            nc = ('not', c)

            def mix(x, y):
                return ('or', [('and', [c, x]), ('and', [nc, y])])
            return mix(r1, r2), mix(a1, a2), mix(g1, g2)
        if isinstance(s, ast.For):
            done = self.flags(s, env)
            if done is not None:
                return done
            early = list(breaks(s.body))
            if early and s.orelse:
                return self.searching(s, env)
            for n in s.body:
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(
                            x.ctx, ast.Store):
                        self.forget(env, x.id)
            t = self.term(s.iter, env)
            v, inner = self.bind(s.target, t, env)
            r, a, g = self.block(s.body, inner)
            a = nnf(a)
            if early:
                r = ('and', [r, ('lit', True, ('first', v, t))])
            if a is not False and self.mode != 'raise':
                if nnf(r) is False:
                    r2, a2, g2 = self.block(s.orelse, env)
                    yes = ('ex', v, t, a)
                    no = ('not', yes)
                    return (('and', [no, r2]), ('or', [yes, (
                        'and', [no, a2])]), ('and', [no, g2]))
                # only reached if no earlier element was accepted
                r = ('and', [r, ('lit', True, ('first', v, t))])
            r = ('ex', v, t, r)
            r2, a2, g2 = self.block(s.orelse, env)
            nr = ('not', r)
            return (('or', [r, ('and', [nr, r2])]), ('and', [nr, a2]),
                    ('and', [nr, g2]))
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import,
                          ast.ImportFrom)):
            return False, False, True
        raise Opaque(type(s).__name__)


# ---------------------------------------------------------------- normal form

def size(pos, a):
    """One way to write each bound on a length."""
    if a[0] == 'lt' and a[1][:2] == ('const', 'int') and length(a[2]):
        pos, a = not pos, ('lt', a[2], ('const', 'int',
                                        repr(int(a[1][2]) + 1)))
    if a[0] == 'lt' and length(a[1]) and a[2] == ('const', 'int', '1'):
        return not pos, ('true', a[1][2])
    if a[0] == 'true' and length(a[1]):
        return pos, ('true', a[1][2])
    return pos, a


def length(t):
    return t[0] == 'call' and t[1] == ('name', 'len') and len(t) == 3


def nnf(f, pos=True):
    if f is True or f is False:
        return f if pos else not f
    if f[0] == 'not':
        return nnf(f[1], not pos)
    if f[0] == 'lit':
        return ('lit',) + size(f[1] == pos, f[2])
    if f[0] in ('and', 'or'):
        op = f[0] if pos else ('or' if f[0] == 'and' else 'and')
        parts = []
        for x in f[1]:
            y = nnf(x, pos)
            if y is (op == 'or'):
                return y
            if y is (op == 'and'):
                continue
            if y[0] == op:
                parts.extend(y[1])
            else:
                parts.append(y)
        if not parts:
            return op == 'and'
        return parts[0] if len(parts) == 1 else (op, parts)
    if f[0] in ('ex', 'fa', 'some'):
        body = nnf(f[3], pos)
        q = f[0] if pos else {'ex': 'fa', 'fa': 'ex', 'some': 'each'}[f[0]]
        if q == 'some':
            q = 'ex'
        if body is False and q == 'ex' or body is True and q == 'fa':
            return body
        return (q, f[1], f[2], body)
    raise ValueError(f)


def disjuncts(f):
    """nnf -> list of (quantifiers, literals); universal subformulas are
    dropped from conjunctions (they are the 'not rejected earlier' part) and
    reported as extra literal ('forall',)."""
    if f is True:
        return [((), frozenset())]
    if f is False:
        return []
    if f[0] == 'lit':
        return [((), frozenset([f[1:]]))]
    if f[0] == 'or':
        return [d for x in f[1] for d in disjuncts(x)]
    if f[0] == 'and':
        out = [((), frozenset())]
        for x in f[1]:
            ds = disjuncts(x)
            out = [(q1 + q2, l1 | l2) for q1, l1 in out for q2, l2 in ds]
            if len(out) > 400:
                raise Opaque('size')
        return out
    if f[0] == 'ex':
        return [(((f[1], f[2]),) + q, l) for q, l in disjuncts(f[3])]
    if f[0] == 'each':
        return [((), frozenset([(True, ('each', repr(canon_fa(f))))]))]
    if f[0] == 'fa':
        return [((), frozenset([(True, ('forall', repr(canon_fa(f))))]))]
    raise ValueError(f)


def canon_fa(f):
    return f


def number(t):
    """a term that is a number: compared with <, = and >"""
    return t[0] == 'const' and t[1] == 'int' or t[0] == 'call' and \
        t[1] == ('name', 'len')


def subst(t, m):
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        return tuple(subst(x, m) for x in t)
    return t


def simplify(d):
    """Equality elimination, constant literals, contradictions -> disjunct or
    None."""
    q, l = d
    change = True
    while change:
        change = False
        for pos, atom in l:
            if atom[0] == 'eq' and atom[1] == atom[2]:
                if not pos:
                    return None
                l = l - {(pos, atom)}
                change = True
                break
            if atom[0] == 'eq' and pos:
                vs = {v for v, s in q}
                for x, y in ((atom[1], atom[2]), (atom[2], atom[1])):
                    if x in vs and not occurs(x, y):
                        # replace bound variable x by y, keep membership
                        s = dict(q)[x]
                        m = {x: y}
                        q = tuple((v, subst(t, m)) for v, t in q if v != x)
                        l = frozenset((p, subst(a, m)) for p, a in l
                                      if (p, a) != (pos, atom))
                        l = l | {(True, ('in', y, subst(s, m)))}
                        change = True
                        break
                if change:
                    break
    # a variable ranging over its own set
    l = frozenset((p, a) for p, a in l if not (
        p and a[0] == 'in' and (a[1], a[2]) in q))
    for p, a in l:
        if (not p, a) in l:
            return None
        if not p and a[0] == 'in' and (a[1], a[2]) in q:
            return None
    l = frozenset((p, norm_eq(a)) for p, a in l)
    return (q, l)


def norm_eq(a):
    if a[0] == 'eq':
        return ('eq',) + tuple(sorted(a[1:], key=repr))
    return a


def occurs(x, t):
    return t == x or isinstance(t, tuple) and any(occurs(x, y) for y in t)


def alpha(d):
    """Canonical name of a disjunct: minimum over admissible orders of the
    quantified variables."""
    q, l = d
    best = None
    used = [v for v, s in q if any(occurs(v, a) for p, a in l)
            or any(occurs(v, t) for w, t in q if w != v)]
    q = [(v, s) for v, s in q if v in used]
    for perm in itertools.permutations(range(len(q))):
        m = {q[i][0]: ('v', str(k)) for k, i in enumerate(perm)}
        facts = {(True, ('in', v, s)) for v, s in q} | set(l)
        key = sorted(repr((p, norm_eq(subst(a, m)))) for p, a in facts)
        if best is None or key < best:
            best = key
        if len(q) > 4:
            break
    return repr(best)


def flip(l, lit):
    return (l - {lit}) | {(not lit[0], lit[1])}


def absorb(ds):
    """Drop literals implied by the failure of other disjuncts:
    A or (not A and B) == A or B."""
    ds = [s for s in (simplify(d) for d in ds) if s is not None]
    # universal literals come from 'not rejected by an earlier loop'
    ds = [(q, frozenset(x for x in l if x[1][0] != 'forall'))
          for q, l in ds if not l or any(x[1][0] != 'forall' for x in l)]
    change = True
    while change:
        change = False
        for i, (q, l) in enumerate(ds):
            for lit in sorted(l, key=repr):
                f = simplify((q, flip(l, lit)))
                if f is None:
                    other = True
                else:
                    other = any(j != i and implies(f, ds[j])
                                for j in range(len(ds)))
                if other:
                    ds[i] = (q, l - {lit})
                    change = True
                    break
            if change:
                break
    for i, (q, l) in enumerate(ds):
        for pos, a in l:
            other = opposite(a) if pos else None
            if other is None or a[1:] == other[1:]:
                continue
            twin = (q, (l - {(pos, a)}) | {(True, other)})
            if any(j != i and alpha(twin) == alpha(d)
                   for j, d in enumerate(ds)):
                x, y = a[1:] if a[0] == 'lt' else a[1][2:]
                ds[i] = (q, (l - {(pos, a)}) | {
                    (False, norm_eq(('eq', x, y)))})
                ds = [d for j, d in enumerate(ds)
                      if j == i or alpha(d) != alpha(twin)]
                return absorb(ds)
    out = []
    for i, d in enumerate(ds):
        if not any(implies(d, e) for e in out) and not any(
                implies(d, e) and not implies(e, d) for e in ds[i + 1:]):
            out.append(d)
    return out


def opposite(a):
    """a < b and b < a; a - b and b - a"""
    if a[0] == 'lt':
        return ('lt', a[2], a[1])
    if a[0] == 'true' and a[1][:2] == ('op', 'Sub') and len(a[1]) == 4:
        return ('true', ('op', 'Sub', a[1][3], a[1][2]))
    return None


def implies(d, e):
    """Disjunct d (stronger) implies e: an assignment of e's variables to
    d's terms maps e's facts into d's."""
    q, l = d
    facts = {(True, ('in', v, s)) for v, s in q} | set(l)
    terms = [v for v, s in q]
    for p, a in l:
        if a[0] == 'in':
            terms.append(a[1])
    eq, el = e
    need = [(True, ('in', v, s)) for v, s in eq] + list(el)
    if len(eq) > 4:
        return False
    for choice in itertools.product(terms, repeat=len(eq)):
        m = {v: t for (v, s), t in zip(eq, choice)}
        if all((p, norm_eq(subst(a, m))) in facts for p, a in need):
            return True
    return False


def reject(fn, functions, keep=(), params=None, mode='false'):
    """-> (list of canonical disjuncts, list of opaque statements)"""
    r = Reader(functions)
    r.keep = keep
    r.opaque = []
    r.mode = mode
    env = {}
    if params is None:
        params = [a.arg for a in fn.args.args]
    for i, p in enumerate(params):
        env[p] = ('arg', str(i))
    rej, acc, live = r.block(fn.body, env)
    try:
        ds = absorb(disjuncts(nnf(rej)))
    except Opaque:
        return [], r.opaque + [fn]
    if any(x[1][0] == 'true' and x[1][1][0] == 'unknown'
           for q, l in ds for x in l):
        r.opaque.append(fn)     # a flag this analysis does not follow
    return [(alpha(d), d) for d in ds], r.opaque


def expected(text, mode='false'):
    """Parse a specification function and return its disjuncts."""
    fn = ast.parse(text).body[0]
    ds, op = reject(fn, {}, mode=mode)
    assert not op, text
    return [a for a, d in ds]
