"""C11: parsed graphs.  C12: symmetric results."""
import ast
import itertools

import gvn
import lang
from gvn import FALSE, TRUE, Unknown, show
from props_c import SELF, consistent, rule_examples, settle
from props_h import NotUnderstood, Plain, bare, mention, terms
from report import Report
from scopes import AnalysisError


class Mirror(Plain):
    """Items named by their keys; nested functions that are known to leave
    the tables symmetric stay calls; short literal loops are unrolled."""

    def __init__(self, resolve, kept=(), outer=()):
        super().__init__(resolve)
        self.kept = set(kept)
        self.outer = set(outer)     # variables of the enclosing function

    def global_call(self, n, args, kw, e):
        name, _, m = str(n).partition('.')
        if name in self.outer and args and not kw:
            b = ('g', name)
            if m in ('setdefault', 'pop', 'update'):
                return self.mutate(m, b, args, kw, e)
            if m == 'get' and len(args) <= 2:
                return gvn.gate(self.contains(args[0], b),
                                self.read(b, args[0]),
                                args[1] if len(args) > 1 else gvn.NONE)
        return super().global_call(n, args, kw, e)

    def apply(self, fv, args, kw, e):
        if fv[0] == 'closure' and fv[1] in self.kept:
            return self.unknown_call(fv[1], None, args, kw, e)
        return super().apply(fv, args, kw, e)

    def s_For(self, s):
        it = s.iter
        if isinstance(it, (ast.Tuple, ast.List)) and len(it.elts) <= 4 and \
                not s.orelse and not any(
                    isinstance(n, (ast.Break, ast.Continue, ast.Starred))
                    for n in ast.walk(s)):
            for v in [self.expr(x) for x in it.elts]:
                self.assign(s.target, v)
                self.block(s.body)
            return
        super().s_For(s)

    def s_Assert(self, s):
        c = self.cond(s.test)
        self.raises.append((self.guards + (gvn.neg(c),), self.loops,
                            ('g', 'AssertionError'), s, len(self.log)))
        self.fact(c)


def inner(fn):
    return [n for n in ast.walk(fn)
            if isinstance(n, ast.FunctionDef) and n is not fn]


def calls(fn):
    """Names called by a function itself."""
    return {n.func.id for n in gvn.walk_own(fn)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)}


def locals_of(fn):
    """Names of variables of a function, without those of inner functions."""
    out = {a.arg for a in fn.args.args}
    for n in gvn.walk_own(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    return out


# ----------------------------------------------------------------- changes
class Change:
    """One direction of one edge of a table is recorded or removed."""
    made = False

    def __init__(self, sign, a, b, label, e):
        self.sign, self.a, self.b, self.label, self.e = sign, a, b, label, e


def changes(g, T, flat):
    """(changes, removed vertices) of one table.  flat: T[a] is b."""
    out, gone = [], []
    for e in g.log:
        b = bare(e.base)
        if e.op in ('call', 'havoc', 'field', 'delattr'):
            continue
        made = b[:1] == ('ite',) and b[1][:1] == ('in',) and \
            b[2] == ('idx', T, b[1][1])
        if made:
            b = b[2]                # the entry, made when missing
        if b == T:
            if flat and e.op == 'put':
                out.append(Change('+', e.key, e.val, None, e))
            elif flat and e.op == 'del':
                out.append(Change('-', e.key, None, None, e))
            elif e.op == 'del':
                gone.append((e.key, e))
            elif e.op == 'put' and e.val[0] == 'new':
                c = e.val[2]
                if c == ('empty',):
                    continue
                if c[0] == 'seq':
                    for x in c[1:]:
                        out.append(Change('+', e.key, x, None, e))
                elif c[0] == 'items':
                    for x, l in zip(c[1::2], c[2::2]):
                        out.append(Change('+', e.key, x, l, e))
                else:
                    raise NotUnderstood('new neighbours')
            else:
                raise NotUnderstood('%s of the table' % e.op)
        elif b[:1] == ('idx',) and b[1] == T and not flat:
            if e.op == 'put':
                out.append(Change('+', b[2], e.key, e.val, e))
                out[-1].made = made
            elif e.op == 'add':
                out.append(Change('+', b[2], e.val, None, e))
            elif e.op == 'del':
                out.append(Change('-', b[2], e.key, None, e))
            elif e.op in ('remove', 'discard'):
                out.append(Change('-', b[2], e.val, None, e))
            else:
                raise NotUnderstood('%s of neighbours' % e.op)
    return out, gone


def own_conditions(c, T):
    """Conditions of a change other than that it changes anything."""
    me = ('in', bare(c.b), ('idx', T, bare(c.a))) if c.b is not None else None
    out = set()
    for x in c.e.guards:
        x = bare(x)
        if x not in (me, ('not', me)):
            out.add(x)
    return frozenset(out)


def labels_agree(c, d, T):
    a, b = c.label and bare(c.label), d.label and bare(d.label)
    if a == b:
        return True
    for x, y in ((a, d), (b, c)):
        if x == ('idx', ('idx', T, bare(y.a)), bare(y.b)):
            return True             # the label of the other direction
    # pairs follow their direction
    return a is not None and b is not None and a[0] == b[0] == 'tuple' and \
        a[1:] == b[1:][::-1]


def mirrored(c, others, T):
    for d in others:
        if d.sign == c.sign and d.b is not None and \
                bare(d.a) == bare(c.b) and bare(d.b) == bare(c.a) and \
                d.e.loops == c.e.loops and \
                own_conditions(d, T) == own_conditions(c, T):
            return d
    return None


def copied(c):
    """T[x] = S[x] for every x of another table S."""
    v = bare(c.b)
    if v[:1] != ('idx',) or v[2] != bare(c.a) or \
            v[2][:1] != ('el',) or v[2][2] != ('keys', v[1]):
        return False
    own = [bare(x) for x in c.e.guards if mention(bare(x), v[2])]
    if any(mention(x, v) for x in own):
        raise NotUnderstood('condition on both ends')
    return not own


def both_ways(c, T):
    """Whether a change in the loops  for v in X: for w in X[v]  is made for
    (w, v) whenever it is made for (v, w); None without such loops."""
    its = [lp[1] for lp in c.e.loops
           if isinstance(lp, tuple) and lp[0] == 'for']
    for t in set(terms(bare(c.b))) | set(terms(bare(c.a))):
        if t[0] != 'el' or t[2][:1] != ('keys',):
            continue
        n = bare(t[2][1])
        if n[0] == 'idx' and n[2][0] == 'el' and \
                n[2][2] == ('keys', n[1]) and n[1] != T:
            v, w = sort(n[2]), sort(bare(t))

            def swap(x):
                if x == v:
                    return w
                if x == w:
                    return v
                if isinstance(x, tuple) and x[:1] != ('new',):
                    x = tuple(swap(y) for y in x)
                    if x[:1] in (('eq',), ('^',), ('+',), ('*',)):
                        x = x[:1] + tuple(sorted(x[1:], key=gvn.key_of))
                return x
            if swap(sort(bare(c.a))) != sort(bare(c.b)) or \
                    swap(sort(bare(c.b))) != sort(bare(c.a)):
                continue
            gs = {sort(x) for x in own_conditions(c, T)}
            return {swap(x) for x in gs} == gs and \
                not any(mention(x, T) for x in gs)
    return None


def sort(x):
    if isinstance(x, tuple):
        x = tuple(sort(y) for y in x)
        if x[:1] in (('eq',), ('^',), ('+',), ('*',)):
            x = x[:1] + tuple(sorted(x[1:], key=gvn.key_of))
    return x


def table_problems(g, T, flat, degree, note):
    """Changes without their mirror image."""
    cs, gone = changes(g, T, flat)
    if not cs and not gone:
        return
    for c in cs:
        if any(lp[1] in (('keys', T), ('items', T)) for lp in c.e.loops
               if isinstance(lp, tuple) and lp[0] == 'for'):
            raise NotUnderstood('loop over the table')
    left = []
    for c in cs:
        note('changes compared')
        if flat and c.sign == '-':
            raise NotUnderstood('deletion')
        if copied(c):
            continue
        d = mirrored(c, cs, T)
        if d is None and not flat and both_ways(c, T):
            continue
        if d is None:
            left.append(c)
        elif not labels_agree(c, d, T):
            yield c.e.node, 'labels the directions of an edge differently'
            return
    if not left and not gone:
        return
    yield from by_cases(g, T, cs, gone, degree, note)


def gated(t):
    return any(x[0] == 'ite' for x in terms(t))


def by_cases(g, T, cs, gone, degree, note):
    for c in cs:
        y = bare(c.a)
        if c.label is None and y[:1] == ('el',) and \
                y[2] == ('keys', ('idx', T, bare(c.b))):
            raise NotUnderstood('neighbours of neighbours')
    if T[0] == 'g' and any(
            e.op == 'call' and e.base[0] == 'g' and
            str(e.base[1]).startswith(T[1] + '.') for e in g.log):
        raise NotUnderstood('method of the table')
    if not any(gated(bare(x)) for c in cs for x in (c.a, c.b)):
        have = {(c.sign, bare(c.a), bare(c.b)) for c in cs}
        graves = {bare(k) for k, e in gone}
        for c in cs:
            a, b = bare(c.a), bare(c.b)
            if not copied(c) and (c.sign, b, a) not in have and \
                    not {a, b} & graves and \
                    ('+' if c.sign == '-' else '-', a, b) not in have and \
                    not both_ways(c, T):
                yield c.e.node, '%s %s under %s but not %s under %s' % (
                    'records' if c.sign == '+' else 'removes', show(b),
                    show(a), show(a), show(b))
                return
    atoms = []
    for c in cs:
        for x in c.e.guards:
            gvn.atoms_of(bare(x), atoms)
        for x in (c.a, c.b):
            gvn.gate_atoms(bare(x), atoms)
    for k, e in gone:
        for x in e.guards:
            gvn.atoms_of(bare(x), atoms)
    if len(atoms) > 9:
        # the conditions that all changes share do not matter
        shared = None
        for e in [c.e for c in cs] + [e for k, e in gone]:
            gs = {bare(x) for x in e.guards}
            shared = gs if shared is None else shared & gs
        atoms = []
        for e in [c.e for c in cs] + [e for k, e in gone]:
            for x in e.guards:
                if bare(x) not in shared:
                    gvn.atoms_of(bare(x), atoms)
        for c in cs:
            for x in (c.a, c.b):
                gvn.gate_atoms(bare(x), atoms)
        if len(atoms) > 9:
            raise NotUnderstood('conditions')
    else:
        shared = ()
    for bs in itertools.product((True, False), repeat=len(atoms)):
        asg = dict(zip(atoms, bs))
        if not consistent(asg):
            continue

        def holds(e):
            return all(gvn.value(bare(x), asg) for x in e.guards
                       if bare(x) not in shared)
        note('cases compared')
        dead = [(settle(bare(k), asg), e) for k, e in gone if holds(e)]
        graves = [k for k, e in dead]
        pairs = []
        for c in cs:
            if holds(c.e):
                pairs.append((c.sign, settle(bare(c.a), asg),
                              settle(bare(c.b), asg), c.e.loops, c))
        have = {(s, a, b, lp) for s, a, b, lp, c in pairs}
        for s, a, b, lp, c in pairs:
            if a == b and s == '+':
                yield c.e.node, 'records a vertex under itself'
                return
            if b in graves:
                if s == '+':
                    # recorded before the vertex is removed
                    yield c.e.node, 'records a removed vertex'
                    return
                continue
            if a in graves and s == '-':
                continue
            if (s, b, a, lp) in have:
                continue
            if ('+' if s == '-' else '-', a, b, lp) in have:
                raise NotUnderstood('changed back')
            yield c.e.node, '%s %s under %s but not %s under %s' % (
                'records' if s == '+' else 'removes', show(b), show(a),
                show(a), show(b))
            return
        if degree:
            for k, e in dead:
                n = len({a for s, a, b, lp, c in pairs
                         if s == '-' and b == k and a not in graves})
                if n != degree - (len(graves) - 1):
                    yield e.node, 'removes %s but leaves it with a ' \
                        'neighbour' % show(k)
                    return


# ---------------------------------------------------- functions and helpers
def symmetric(src, module, name, mode, note, degree=None):
    """Problems of one function and the functions inside it.  A nested
    function that records one direction only is judged where it is called."""
    fn, cls = src.need(module, name)
    cname = name.split('.')[0] if '.' in name else None
    nodes = [fn] + inner(fn)
    by_name = {f.name: f for f in nodes[1:]}
    half = {}               # name -> problems when taken alone
    tables = [x for x in locals_of(fn)]
    result = {n.value.id for n in gvn.walk_own(fn)
              if isinstance(n, ast.Return) and isinstance(n.value, ast.Name)}
    base = src.resolver(module, cname)

    def resolve(kind, n, c, at=None):
        if kind == 'func' and n in by_name:
            return (by_name[n], None) if n in half else None
        return base(kind, n, c, at)

    def problems(f):
        g = Mirror(resolve, [n for n in by_name if n not in half], tables)
        g.run(f, cls=cls if f is fn else None)
        if g.opaque:
            raise NotUnderstood('statement')
        found = []
        for T, flat in wanted(g, f):
            for node, what in table_problems(g, T, flat, degree, note):
                found.append((f.name, node.lineno, what))
        return found

    def wanted(g, f):
        """The tables of this function."""
        seen = []
        for e in g.log:
            b = bare(e.base)
            if mode == 'flat':
                T = b
                if e.op not in ('put', 'del'):
                    continue
                if f is fn:
                    ok = any(bare(g.root_frame.env.get(x, FALSE)) == T
                             for x in result)
                else:
                    ok = T[0] == 'g' and T[1] in result
            else:
                T = b[1] if b[:1] == ('idx',) else b
                nested = b[:1] == ('idx',) and e.op in (
                    'put', 'add', 'remove', 'discard', 'del')
                if mode == 'self':
                    ok = T == SELF and nested
                else:
                    ok = T[0] == 'g' and T[1] in tables and f is not fn or \
                        T[0] in ('new', 'call') and f is fn
                    ok = ok and nested
            if ok and (T, mode == 'flat') not in seen:
                seen.append((T, mode == 'flat'))
        if mode != 'flat':
            return seen
        return seen

    changed = True
    while changed:
        changed = False
        for f in nodes[1:]:
            if f.name in half:
                continue
            try:
                found = problems(f)
            except (Unknown, NotUnderstood):
                note('functions not understood')
                continue
            if found:
                half[f.name] = found
                changed = True
    verdict = {}            # with the helpers of one direction inlined
    for f in nodes:
        if f.name in half:
            verdict[f.name] = 'half'
            continue
        try:
            found = problems(f)
            if f is fn:
                note('functions examined')
                yield from found
                verdict[f.name] = 'half' if found else 'clean'
            else:
                verdict[f.name] = 'clean'
        except (Unknown, NotUnderstood):
            verdict[f.name] = None
            if f is fn:
                note('functions not understood')
    callers = {f.name: [c.name for c in nodes
                        if f.name in calls(c) and c is not f]
               for f in nodes}
    for n, found in half.items():
        above = callers[n]
        if n in passed_on(nodes):
            yield from found        # runs alone
        elif any(verdict[c] != 'half' for c in above):
            continue                # complete, or unknown, in a caller
        elif any(verdict[c] == 'clean' for d in above for c in callers[d]):
            continue
        else:
            yield from found


def passed_on(nodes):
    """Names of functions that are used other than by being called."""
    out = set()
    for f in nodes:
        called = {id(n.func) for n in gvn.walk_own(f)
                  if isinstance(n, ast.Call)}
        for n in gvn.walk_own(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and \
                    id(n) not in called:
                out.add(n.id)
    return out


# ------------------------------------------------------- modular neighbours
def circular(src, module, name, note, part=None):
    """Graphs whose neighbours are given by offsets modulo n."""
    fn, cls = src.need(module, name)
    if part:
        fn = dict((f.name, f) for f in inner(fn)).get(part)
        if fn is None:
            raise NotUnderstood('gone')
    g = Mirror(src.resolver(module))
    g.run(fn)
    if g.opaque:
        raise NotUnderstood('statement')
    rows = []                   # key, neighbours, node
    for e in g.log:
        if e.op != 'put':
            continue
        if e.guards and not part or len(e.loops) > 2 or not e.loops:
            raise NotUnderstood('condition')
        rows.append((e.key, neighbours(e.val), e.node))
    for guards, loops, v, node, n in g.returns:
        v = bare(v)
        if v[:1] == ('new',) and v[2][:2] == ('comp', 'map') and not rows:
            rows.append((v[2][2][0], neighbours(v[2][2][1]), node))
    if not rows:
        raise NotUnderstood('table')
    yield from offsets(rows, note)


def neighbours(t):
    if t[0] == 'tuple':
        return t[1:]
    if t[0] == 'new' and t[2][0] == 'seq':
        return t[2][1:]
    raise NotUnderstood('neighbours')


def offset(t, i):
    """(i + k) % n -> (k, n), with k a sorted tuple of signed terms."""
    n = None
    if t[0] == '%':
        t, n = t[1], t[2]
    if t == i:
        return (), n
    out = []

    def add(x, sign):
        if x[0] == '+':
            for y in x[1:]:
                add(y, sign)
        elif x[0] == '-':
            add(x[1], sign)
            add(x[2], -sign)
        elif x[0] == 'neg':
            add(x[1], -sign)
        elif x[0] == 'c' and type(x[1]) is int:
            if x[1]:
                out.append((('c', abs(x[1])),
                            sign if x[1] > 0 else -sign))
        else:
            out.append((x, sign))
    add(t, 1)
    if (i, 1) not in out:
        raise NotUnderstood('offset')
    out.remove((i, 1))
    if any(mention(x, i) for x, s in out):
        raise NotUnderstood('offset')
    return tuple(sorted(out, key=gvn.key_of)), n


def opposite(k):
    return tuple(sorted(((x, -s) for x, s in k), key=gvn.key_of))


def offsets(rows, note):
    """Steps between classes of vertices must occur in both directions."""
    table = {}
    for key, ns, node in rows:
        key = key[1:] if key[0] == 'tuple' else (key,)
        for x in ns:
            note('neighbours compared')
            x = x[1:] if x[0] == 'tuple' else (x,)
            if len(x) != len(key):
                raise NotUnderstood('vertex')
            steps, back = [], []
            for a, b in zip(key, x):
                size = None
                if a[0] == 'idx' and b[0] == 'idx' and a[1] == b[1]:
                    a, b = a[2], b[2]
                    size = loop_variable(a)[2][1]
                    size = size[2] if size[:2] == ('call', 'range') and \
                        len(size) == 3 else None
                if a[0] == 'c' and b[0] == 'c':
                    steps.append(('to', a, b))
                    back.append(('to', b, a))
                elif a == b:
                    steps.append(('same',))
                    back.append(('same',))
                elif b[0] == '^' and a in b[1:]:
                    r = [y for y in b[1:] if y != a]
                    steps.append(('flip', tuple(r)))
                    back.append(('flip', tuple(r)))
                else:
                    k, n = offset(b, loop_variable(a))
                    k0, n0 = offset(a, loop_variable(a))
                    k = tuple(sorted(k + opposite(k0), key=gvn.key_of))
                    n = size or n
                    k = cancel(k, n)
                    steps.append(('step', k, n))
                    back.append(('step', cancel(opposite(k), n), n))
            table.setdefault(tuple(steps), (tuple(back), node))
    for s, (b, node) in table.items():
        if b not in table:
            yield node, 'lists a neighbour that does not list it back'
            return


def cancel(k, modulus):
    out = list(k)
    for x, s in k:
        if (x, s) in out and (x, -s) in out:
            out.remove((x, s))
            out.remove((x, -s))
    out = [x for x in out if x[0] != modulus]
    total = sum(x[1] * s for x, s in out if x[0] == 'c')
    if modulus is not None and modulus[0] == 'c' and modulus[1]:
        total %= modulus[1]
    out = [(x, s) for x, s in out if x[0] != 'c']
    if total:
        out.append((('c', abs(total)), 1 if total > 0 else -1))
    return tuple(sorted(out, key=gvn.key_of))


def loop_variable(a):
    els = [t for t in terms(a) if t[0] == 'el']
    if not els:
        raise NotUnderstood('vertex')
    return els[0]



# ------------------------------------------------------------------ C11
FORMAT = 'GraphFormatError'


def rejections(g):
    """(guards, name of the error, node) of each raise."""
    for guards, loops, v, node, n in g.raises:
        if loops:
            raise NotUnderstood('loop')
        name = v[1] if v[0] in ('g', 'call') else None
        if not isinstance(name, str):
            raise NotUnderstood('error')
        yield [bare(x) for x in guards], name, node


def independent(a):
    """Conditions that can come out either way whatever the others do."""
    return all(t[0] in ('is', 'truth', 'idx', 'p') for t in terms(a))


def outcome_cases(g, facts):
    """Every consistent outcome of the conditions of a function, with the
    first rejection it leads to."""
    atoms = list(facts)
    raised = list(rejections(g))
    for guards in [r[0] for r in raised] + [
            [bare(x) for x in e.guards] for e in g.log]:
        for x in guards:
            gvn.atoms_of(x, atoms)
    strange = [a for a in atoms if a not in facts and not independent(a)]
    if len(atoms) > 9:
        raise NotUnderstood('conditions')
    for bs in itertools.product((True, False), repeat=len(atoms)):
        asg = dict(zip(atoms, bs))
        if not consistent(asg):
            continue
        hit = None
        for guards, name, node in raised:
            if all(gvn.value(x, asg) for x in guards):
                hit = name, node
                break
        yield asg, hit, strange


def declaration(src, module, name, note):
    """vertex(G, v): a new empty entry, or the format error."""
    fn, cls = src.need(module, name)
    g = Mirror(src.resolver(module))
    g.run(fn)
    if g.opaque or len(fn.args.args) < 2:
        raise NotUnderstood('statement')
    G, v = [('p', a.arg) for a in fn.args.args[:2]]
    known = ('in', v, G)
    for asg, hit, strange in outcome_cases(g, [known]):
        note('cases compared')
        puts = [e for e in g.log if bare(e.base) == G and
                all(gvn.value(bare(x), asg) for x in e.guards)]
        others = [e for e in g.log if bare(e.base) != G and
                  mention(bare(e.base), G) and e.op != 'call']
        if others:
            raise NotUnderstood('other change')
        if asg[known]:
            if hit is None:
                if strange:
                    raise NotUnderstood('condition')
                yield fn.lineno, 'accepts a vertex that is already there'
                return
            if hit[1] is None or hit[0] != FORMAT:
                yield hit[1].lineno, 'reports a duplicate vertex as %s' % \
                    hit[0]
                return
            continue
        if hit is not None:
            if strange:
                continue
            yield hit[1].lineno, 'rejects a new vertex'
            return
        if not puts:
            if strange:
                raise NotUnderstood('condition')
            yield fn.lineno, 'does not add a new vertex'
            return
        for e in puts:
            if e.op not in ('put', 'setdefault') or e.key != v:
                raise NotUnderstood('change')
            x = bare(e.val)
            if x[0] in ('p', 'g', 'field'):
                yield e.node.lineno, 'shares the neighbours of a vertex'
                return
            if x[0] != 'new':
                raise NotUnderstood('value')
            if x[2] != ('empty',):
                yield e.node.lineno, 'adds a vertex with neighbours'
                return


def recording(src, module, name, note):
    """edge(G, u, v, e): both directions, or the format error."""
    fn, cls = src.need(module, name)
    g = Mirror(src.resolver(module))
    g.run(fn)
    if g.opaque or len(fn.args.args) < 4:
        raise NotUnderstood('statement')
    G, u, v, e = [('p', a.arg) for a in fn.args.args[:4]]
    loop = ('eq',) + tuple(sorted((u, v), key=gvn.key_of))
    inu, inv = ('in', u, G), ('in', v, G)
    cs, gone = changes(g, G, False)
    if gone:
        raise NotUnderstood('deletion')
    if any(c.e.loops for c in cs):
        raise NotUnderstood('loop')
    for asg, hit, strange in outcome_cases(g, [loop, inu, inv]):
        note('cases compared')
        if asg[loop] and asg[inu] != asg[inv]:
            continue
        bad = asg[loop] and 'a self-loop' or \
            not asg[inu] and 'an edge from an undeclared vertex' or \
            not asg[inv] and 'an edge to an undeclared vertex'
        if bad:
            if hit is None:
                if strange:
                    raise NotUnderstood('condition')
                yield fn.lineno, 'accepts %s' % bad
                return
            if hit[0] != FORMAT:
                yield hit[1].lineno, 'reports %s as %s' % (bad, hit[0])
                return
            continue
        if hit is not None:
            if not strange:
                yield hit[1].lineno, 'rejects a proper edge'
                return
            continue
        now = [c for c in cs
               if all(gvn.value(bare(x), asg) for x in c.e.guards)]
        pairs = {(bare(c.a), bare(c.b)): c for c in now}
        if any(c.sign == '-' for c in now):
            raise NotUnderstood('removal')
        missing = [p for p in ((u, v), (v, u)) if p not in pairs]
        if missing:
            if strange and len(missing) == 2:
                continue            # an edge that is there already
            yield fn.lineno, 'records the edge under %s only' % (
                'one endpoint' if len(missing) == 1 else 'neither endpoint')
            return
        a, b = pairs[u, v], pairs[v, u]
        if not labels_agree(a, b, G) or bare(a.label)[:1] == ('tuple',):
            yield b.e.node.lineno, 'labels the directions differently'
            return


def from_text(t):
    """Whether a term comes from the text rather than from a range."""
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == 'el':
        i = t[2][1] if t[2][:1] == ('keys',) else t[2]
        if i[:2] == ('call', 'range'):
            return False
        return from_text(i)
    if t[0] in ('call', 'mcall', 'phi', 'p'):
        return t[1:2] not in (('range',), ('len',), ('zip',),
                              ('enumerate',))
    return any(from_text(x) for x in t if isinstance(x, tuple))


def reader(src, module, fn, keep, note):
    """Direct changes of the graph by a reader, and swallowed errors."""
    made = {t.id for n in ast.walk(fn) if isinstance(n, ast.Assign) and
            isinstance(n.value, ast.Call) and
            isinstance(n.value.func, ast.Name) and
            n.value.func.id == 'graph' for t in n.targets
            if isinstance(t, ast.Name)}
    result = {n.value.id for n in gvn.walk_own(fn)
              if isinstance(n, ast.Return) and isinstance(n.value, ast.Name)}
    tables = made | result
    for f in [fn] + inner(fn):
        yield from swallowed(fn, f, keep)
        g = Mirror(src.resolver(module, keep=keep),
                   [x.name for x in inner(fn)])
        try:
            g.run(f)
            if g.opaque:
                raise NotUnderstood('statement')
            note('reader functions examined')
            for name in sorted(tables):
                T = bare(g.root_frame.env.get(name, FALSE)) if f is fn \
                    else ('g', name)
                if T == FALSE or T[0] == 'p':
                    continue
                note('declarations and edges', sum(
                    1 for e in g.log if e.op == 'call' and
                    e.base[0] == 'g' and e.base[1] in keep))
                yield from direct(g, T, f, note)
        except (Unknown, NotUnderstood):
            note('reader functions not understood')


REMOVALS = ('del', 'pop', 'clear', 'popitem')


def direct(g, T, f, note):
    here = set()
    for e in g.log:
        b = bare(e.base)
        if b == T and e.op == 'put':
            if e.val[0] == 'new' and e.val[2] == ('empty',):
                k = bare(e.key)
                if ('not', ('in', k, T)) not in [bare(x) for x in e.guards] \
                        and from_text(k):
                    yield e.node.lineno, 'starts a vertex again that may be '\
                        'there already'
                    return
            elif e.val[0] == 'new':
                yield e.node.lineno, 'adds a vertex with neighbours'
                return
            else:
                raise NotUnderstood('new entry')
            here.add(id(e))
        elif b == T and e.op in REMOVALS or T[0] == 'g' and e.op == 'call' \
                and b in [('g', '%s.%s' % (T[1], x)) for x in REMOVALS]:
            yield e.node.lineno, 'removes a vertex that edges may mention'
            return
    saved, g.log = g.log, [e for e in g.log if id(e) not in here]
    try:
        cs, gone = changes(g, T, False)
    finally:
        g.log = saved
    for c in cs:
        note('direct changes')
        d = mirrored(c, cs, T)
        if d is None:
            yield c.e.node.lineno, '%s one direction of an edge only' % (
                'records' if c.sign == '+' else 'removes')
            return
        if not labels_agree(c, d, T):
            yield c.e.node.lineno, 'labels the directions differently'
            return
        if c.sign == '-':
            continue
        a, b = bare(c.a), bare(c.b)
        if not (from_text(a) or from_text(b)):
            continue
        gs = [bare(x) for x in c.e.guards]
        if not any(x[0] in ('not', 'lt', 'le') and mention(x, a) and
                   mention(x, b) for x in gs):
            yield c.e.node.lineno, 'records an edge that may be a self-loop'
            return
        for x, made in ((a, c.made), (b, d.made)):
            if from_text(x) and not made and not any(
                    y[0] == 'in' and y[1] == x and y[2] == T for y in gs):
                yield c.e.node.lineno, \
                    'records an edge of a vertex that may be undeclared'
                return


CATCH = {FORMAT, 'Exception', 'BaseException'}


def swallowed(fn, f, keep):
    """Handlers that let a rejected line pass."""
    names = set(keep) | {'graphNum'} | {x.name for x in inner(fn)}
    called_back = passed_on([fn] + inner(fn)) & {x.name for x in inner(fn)}
    for t in gvn.walk_own(f):
        if not isinstance(t, ast.Try):
            continue
        used = {n.func.id for s in t.body for n in ast.walk(s)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)}
        # a method of another object may call the functions given to it
        if called_back and any(
                isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                and isinstance(n.func.value, ast.Name)
                for s in t.body for n in ast.walk(s)):
            used.add('action')
        if not used & (names | {'action'}):
            continue
        for h in t.handlers:
            types = [h.type] if not isinstance(h.type, ast.Tuple) else \
                h.type.elts
            caught = {x.id for x in types if isinstance(x, ast.Name)}
            if h.type is not None and not caught & CATCH:
                continue
            if not any(isinstance(n, ast.Raise) for s in h.body
                       for n in ast.walk(s)):
                yield h.lineno, 'lets a rejected line pass'


def parsed_problems(src, module, note):
    for rule, name in ((declaration, 'vertex'), (recording, 'edge')):
        try:
            for line, what in rule(src, module, name, note):
                yield name, line, what
        except (Unknown, NotUnderstood):
            note('functions not understood')
    for name, (kind, home, fn) in sorted(src.defs(module).items()):
        if kind != 'func' or home != module or \
                name in ('vertex', 'edge', 'graph'):
            continue
        for line, what in reader(src, module, fn, ('vertex', 'edge'), note):
            yield name, line, what


def check_c11(tier):
    rep = Report()

    def example(src, module, name):
        return parsed_problems(src, name, lambda *a: None)
    rule_examples(rep, example, '', ['parse_good', 'parse_plain'],
                  ['parse_loop', 'parse_half', 'parse_twice', 'parse_quiet',
                   'parse_direct'])
    src = lang.Source()
    src.need('read_undirected_graph', 'vertex')
    src.need('read_undirected_graph', 'edge')
    for name, line, what in parsed_problems(src, 'read_undirected_graph',
                                            rep.count):
        rep.add('C11', 'read_undirected_graph.' + name, what, what, line)
    rep.need('cases compared', 1)
    rep.need('reader functions examined', 6)
    rep.explanation = (
        'For every outcome of their conditions, the function that declares '
        'a vertex and the one that records an edge must either raise the '
        'format error or make the complete change: a fresh empty entry, or '
        'both directions of the edge with one label.  Every reader, with '
        'its callbacks, is then searched for changes of the graph that '
        'bypass these functions and are not mirrored or not guarded, and '
        'for handlers that let a rejected line pass.')
    return rep


# ------------------------------------------------------------------ C12
TARGETS = [('cardinality_matching', 'matching', 'flat', None),
           ('cardinality_matching', 'greedy_matching', 'flat', None),
           ('biconnectivity', 'BiconnectedComponents._component', 'local',
            None),
           ('lca', 'OfflineLCA.__init__', 'self', None),
           ('lca', 'OfflineLCA.traverse', 'self', None),
           ('partial_cube', 'PartialCubeEdgeLabeling', 'local', None),
           ('halin', 'is_D3_reducible', 'local', 3),
           ('halin', 'hamiltonian_cycle_D3', 'local', 2),
           ('cubic_ham', 'hamiltonian_cycles', 'local', None)]
FORMULAS = [('graph_examples', 'GeneralizedPetersenGraph', None),
            ('graph_examples', 'GeneralizedCoxeterGraph', None),
            ('graph_examples', 'CubeConnectedCycles', None),
            ('halin', 'hamiltonian_cycle_D3', 'initialize')]


def chords(src, module, name, note):
    """LCF notations written out: the chord at the far end leads back."""
    for t in ast.walk(src.tree(module)):
        if not (isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and
                t.func.id == name and len(t.args) == 2):
            continue
        try:
            L, n = [ast.literal_eval(x) for x in t.args]
            n *= len(L)
            note('chords compared', len(L))
            if any((L[i] + L[(i + L[i]) % n % len(L)]) % n
                   for i in range(len(L))):
                yield t.lineno, 'gives a chord that does not lead back'
        except (ValueError, TypeError, ZeroDivisionError):
            continue


def symmetry_example(src, module, name):
    def note(*a):
        pass
    if name.startswith('ring'):
        yield from circular(src, module, name, note)
    else:
        mode = 'flat' if name.startswith('match') else 'local'
        degree = 3 if name.startswith('reduce') else None
        yield from symmetric(src, module, name, mode, note, degree)


def check_c12(tier):
    rep = Report()
    rule_examples(rep, symmetry_example, 'mirrors',
                  ['match', 'match_through', 'links', 'links_both',
                   'reduce_path', 'ring'],
                  ['match_half', 'match_when', 'links_half', 'links_label',
                   'reduce_less', 'ring_shift'])
    src = lang.Source()
    for module, name, mode, degree in TARGETS:
        for f, line, what in symmetric(src, module, name, mode, rep.count,
                                       degree):
            where = module + '.' + name + \
                ('.' + f if f != name.split('.')[-1] else '')
            rep.add('C12', where, what, what, line)
    for line, what in chords(src, 'graph_examples', 'LCFNotation',
                             rep.count):
        rep.add('C12', 'graph_examples', what, what, line)
    for module, name, part in FORMULAS:
        try:
            for node, what in circular(src, module, name, rep.count, part):
                rep.add('C12', module + '.' + name, what, what, node.lineno)
            rep.count('formulas examined')
        except (Unknown, NotUnderstood):
            rep.count('formulas not understood')
    rep.need('changes compared', 20)
    rep.explanation = (
        'Every statement that records or removes an edge in one of the '
        'symmetric tables must have a mirror image that runs in the same '
        'loops under the same conditions and carries the same label; where '
        'names are chosen by conditions the changes are compared for every '
        'outcome.  A helper that handles one direction is judged in its '
        'callers.  A vertex that is removed must be removed from as many '
        'neighbours as the reduction gives it.  Graphs given by formulas '
        'must contain, with every step between classes of vertices, the '
        'opposite step.')
    return rep
