"""C20: involutions.  C21: regular languages as a Boolean algebra."""
import ast
import itertools

import gvn
import lang
from gvn import FALSE, TRUE, Unknown, show
from props_c import SELF, consistent, rule_examples, settle
from report import Report
from scopes import AnalysisError


class NotUnderstood(Exception):
    pass


class Numbering(gvn.GVN):
    """Comparisons of languages are those of a partial order."""

    def e_Compare(self, e):
        n = type(e.ops[0]).__name__
        if len(e.ops) > 1 or n not in ('Lt', 'LtE', 'Gt', 'GtE'):
            return super().e_Compare(e)
        a, b = self.expr(e.left), self.expr(e.comparators[0])
        if n[0] == 'G':
            a, b = b, a
        return self.known(('truth', ('le' if n[2:] else 'less', a, b)))


def number(src, module, name, keep=(), kind=gvn.GVN):
    cls = name.split('.')[0] if '.' in name else None
    fn, c = src.need(module, name)
    g = kind(src.resolver(module, cls, keep=keep))
    g.run(fn, cls=c)
    return fn, g


def names_of(fn, n):
    out = [('p', a.arg) for a in fn.args.args][1:]
    if len(out) < n:
        raise NotUnderstood('parameters')
    return out[:n]


def bare(t):
    """Without the effects that a read comes after."""
    if not isinstance(t, tuple) or t[:1] == ('c',):
        return t
    if t[:1] == ('after',):
        return bare(t[1])
    return tuple(bare(x) for x in t)


def mention(t, x):
    return t == x or isinstance(t, tuple) and any(mention(y, x) for y in t)


def terms(t):
    if isinstance(t, tuple) and t:
        if isinstance(t[0], str):
            yield t
        if t[0] != 'c':
            for x in t:
                yield from terms(x)


def outcomes(g, limit=8):
    """(assignment, returned term, node) for every way the conditions of a
    function without loops can come out."""
    atoms = []
    for guards, loops, v, node, n in g.returns:
        if loops:
            raise NotUnderstood('loop')
        for c in guards:
            gvn.atoms_of(c, atoms)
        gvn.gate_atoms(v, atoms)
        gvn.atoms_of(v, atoms) if gvn.is_bool(v) else None
    for r in g.raises:
        if r[1]:
            raise NotUnderstood('loop')
        for c in r[0]:
            gvn.atoms_of(c, atoms)
    if len(atoms) > limit:
        raise NotUnderstood('conditions')
    for bs in itertools.product((True, False), repeat=len(atoms)):
        asg = dict(zip(atoms, bs))
        if not consistent(asg):
            continue
        if any(all(gvn.value(c, asg) for c in r[0]) for r in g.raises):
            continue
        for guards, loops, v, node, n in g.returns:
            if all(gvn.value(c, asg) for c in guards):
                v = ('c', gvn.value(v, asg)) if gvn.is_bool(v) else \
                    settle(v, asg)
                yield asg, bare(v), node
                break


# ------------------------------------------------------------------- C20
def stored_argument(src, module, cname):
    """The field in which the constructor keeps its argument."""
    fn, g = number(src, module, cname + '.__init__')
    x, = names_of(fn, 1)
    for e in g.log:
        if e.op == 'field' and e.base == SELF and e.val == x:
            return e.key[1]
    raise AnalysisError('%s.%s keeps no argument' % (module, cname))


def negation(src, module, fname, cname, note):
    """Not(x) takes a negation off or puts one on."""
    field = stored_argument(src, module, cname)

    def method(name, x):
        """What a method of the negation returns."""
        d = src.defs(module)[cname]
        m = src.method(d, name)
        if m is None:
            raise NotUnderstood(name)
        f, g = number(src, module, '%s.%s' % (cname, name))
        if len(g.returns) != 1 or g.log:
            raise NotUnderstood(name)
        return gvn.subst(g.returns[0][2], {SELF: x})

    def function():
        fn, g = number(src, module, fname)
        x = ('p', fn.args.args[0].arg)
        isneg = ('isinst', x, ('g', cname))
        for asg, v, node in outcomes(g):
            note('cases compared')
            known = asg.get(isneg)
            for a, t in asg.items():
                if a[0] == 'eq' and ('g', cname) in a[1:] and \
                        ('call', 'type', x) in a[1:]:
                    known = t
            if v[:1] == ('mcall',) and len(v) == 3 and v[2] == x:
                v = method(v[1], x)
            if v == ('fld', x, field):
                if known is not True:
                    yield node.lineno, 'takes a negation off a plain value'
            elif v == ('call', cname, x):
                if known is not False:
                    yield node.lineno, 'negates a negation once more'
            elif v == x:
                yield node.lineno, 'returns its argument'
            else:
                raise NotUnderstood(show(v))

    def equality():
        fn, g = number(src, module, cname + '.__eq__')
        y, = names_of(fn, 1)
        same = ('eq',) + tuple(sorted((('fld', SELF, field),
                                       ('fld', y, field)), key=gvn.key_of))
        isneg = ('isinst', y, ('g', cname))
        for asg, v, node in outcomes(g):
            note('cases compared')
            ident = ('is',) + same[1:]
            if ident in asg and same not in asg:
                asg = dict(asg)
                if asg.pop(ident):
                    asg[same] = True
                elif v == FALSE and asg.get(isneg):
                    yield node.lineno, 'compares identities'
                    continue
            other = [a for a in asg if a not in (same, isneg)]
            if any(a[0] in ('eq', 'is') and a[1][0] == a[2][0] == 'call' and
                   a[1][1] == a[2][1] and a[1][1] in ('repr', 'str', 'id',
                                                      'hash', 'type') and
                   {a[1][2], a[2][2]} in (set(same[1:]), {SELF, y}) and
                   (a[1][1] != 'type' or a[1][2] not in (SELF, y))
                   for a in other) and \
                    same not in asg:
                yield node.lineno, 'compares %s' % show(other[0])
                continue
            if isneg not in asg and not any(
                    mention(a, ('call', 'type', y)) for a in asg):
                raise NotUnderstood('type')
            if v[:1] != ('c',) or other:
                if v == ('g', 'NotImplemented'):
                    if asg.get(isneg) is True:
                        yield node.lineno, 'does not compare two negations'
                    continue
                raise NotUnderstood(show(v))
            if same not in asg:
                if asg.get(isneg) is not True and v == FALSE:
                    continue
                yield node.lineno, 'does not compare what is negated'
                continue
            if (v == TRUE) != (asg[same] and asg[isneg]):
                yield node.lineno, 'disagrees with equality of what is ' \
                    'negated'

    def hashing():
        fn, g = number(src, module, cname + '.__hash__')
        ok = ('fld', SELF, field)
        for guards, loops, v, node, n in g.returns:
            note('cases compared')
            for what in hash_leaves(bare(v), ok):
                yield node.lineno, 'hashes %s' % what

    for f, name in ((function, fname), (equality, cname + '.__eq__'),
                    (hashing, cname + '.__hash__')):
        for p in guarded(f(), note):
            yield (name,) + p


def hash_leaves(t, ok):
    """Parts of a hash that equal values need not share."""
    if t == ok:
        return
    if t[0] == 'c':
        return
    if t[0] == 'call' and t[1] == 'hash' and len(t) == 3:
        yield from hash_leaves(t[2], ok)
    elif t[0] == 'call' and t[1] in ('id', 'repr', 'str', 'type',
                                     'object.__hash__'):
        if mention(t, ok) or mention(t, SELF) and t[1] != 'type':
            yield show(t)
    elif t[0] == 'str':
        if mention(t, ok):
            yield 'the text of the value'
    elif t == SELF:
        yield 'the object'
    elif t[0] == 'fld' and t[1] == SELF:
        if t[2] not in ('__class__', '__dict__'):
            yield 'field %s' % t[2]
    elif t[0] in ('tuple', 'neg', '+', '-', '*', '^', '~', '&', '|', '<<',
                  '>>', '%', '//'):
        for x in t[1:]:
            yield from hash_leaves(x, ok)


def guarded(it, note):
    try:
        yield from it
    except (Unknown, NotUnderstood):
        note('not understood')


def bit_reversal(src, module, cname, note):
    """The token of the same position and the other bit."""
    def problems():
        fn, g = number(src, module, cname + '.reverse')
        t, = names_of(fn, 1)
        for asg, v, node in outcomes(g):
            note('cases compared')
            v = aligned(v, t)
            if v[:1] != ('tuple',) or len(v) != 3:
                raise NotUnderstood(show(v))
            i, b = v[1:]
            if i != ('part', t, 0):
                if i in (('part', t, 1), ('c', 0)) or \
                        mention(i, ('part', t, 0)):
                    yield node.lineno, 'moves to position %s' % show(i)
                    continue
                raise NotUnderstood(show(i))
            old = ('part', t, 1)
            known = {aligned(a, t): x for a, x in asg.items()}.get(
                ('truth', old))
            r = other_bit(b, old, known)
            if r is None:
                raise NotUnderstood(show(b))
            if not r:
                yield node.lineno, 'gives the bit %s' % show(b)
    for p in guarded(problems(), note):
        yield (cname + '.reverse',) + p


def aligned(v, t):
    return gvn.subst(v, {('idx', t, ('c', k)): ('part', t, k)
                         for k in (0, 1)})


def other_bit(b, old, known):
    """Is b the other bit?  None when that is not clear."""
    if b in (('not', ('truth', old)), ('not', old), ('-', ('c', 1), old)):
        return True
    if b[0] == '^' and set(b[1:]) in ({old, ('c', 1)}, {old, TRUE}):
        return True
    if b in (old, ('truth', old)):
        return False
    if b[0] == 'c' and b[1] in (0, 1, True, False):
        return False if known is None else bool(b[1]) != known
    if b[0] in ('~', 'neg') and b[1] == old:
        return False
    return None


def table_reversal(src, module, cname, note):
    """The table gets every pair in both directions."""
    def problems():
        fn, g = number(src, module, cname + '.reverse')
        t, = names_of(fn, 1)
        if len(g.returns) != 1:
            raise NotUnderstood('reverse')
        v = bare(g.returns[0][2])
        if v[:1] != ('idx',) or v[1][:2] != ('fld', SELF) or v[2] != t:
            raise NotUnderstood('reverse')
        field = v[1][2]
        fn, g = number(src, module, cname + '.__init__')
        tables = [e.val for e in g.log if e.op == 'field' and
                  e.base == SELF and e.key == ('f', field)]
        if len(tables) != 1:
            raise NotUnderstood('table')
        for n, k, v in unmirrored(g, tables[0], note):
            yield n.lineno, 'stores a reversal in one direction only' \
                if v is not None else 'can replace an earlier reversal'
    for p in guarded(problems(), note):
        yield (cname + '.__init__',) + p


def unmirrored(g, table, note):
    puts = [e for e in g.log if e.op == 'put' and e.base == table]
    if table[:2] != ('new', 'dict') or table[2] != ('empty',):
        raise NotUnderstood('table')
    if any(e.op not in ('put', 'havoc') and e.base == table for e in g.log):
        raise NotUnderstood('table')
    if not puts:
        raise NotUnderstood('table')
    for e in puts:
        note('cases compared')
        mine = conditions(e, table)
        if not any(bare(f.key) == bare(e.val) and
                   bare(f.val) == bare(e.key) and
                   conditions(f, table) == mine and f.loops == e.loops and
                   not any(('not', c) in told(f) for c in told(e)) and
                   not any(('not', c) in told(e) for c in told(f))
                   for f in puts):
            yield e.node, e.key, e.val
        elif not any(mention(c, bare(table)) and mention(c, bare(e.key))
                     for c in told(e)):
            yield e.node, e.key, None


def told(e):
    return [bare(c) for c in e.guards]


def conditions(e, table):
    return frozenset(c for c in e.guards if not mention(c, table))


class Plain(gvn.GVN):
    """Items of containers named by their keys, whatever was stored."""

    def read(self, b, k, node=None):
        return ('idx', b, k)

    def contains(self, k, c):
        return ('in', k, c)


def implications(src, module, name, note):
    """Every implication is stored with its contrapositive."""
    def problems():
        fn, g = number(src, module, name, keep=('Not',), kind=Plain)
        G = ('p', fn.args.args[0].arg)

        def literal(t, v, w):
            t = bare(t)
            no = 0
            while t[:2] == ('call', 'Not') and len(t) == 3:
                no, t = 1 - no, t[2]
            if t not in (v, w):
                raise NotUnderstood(show(t))
            return 'vw'[t == w], no
        stored, graphs = set(), set()
        for e in g.log:
            if e.op != 'add' or bare(e.base)[:1] != ('idx',):
                continue
            if len(e.loops) != 2:
                raise NotUnderstood('loops')
            v = ('el', 0, e.loops[0][1])
            w = ('el', 1, e.loops[1][1])
            if e.loops[0][1] != ('keys', G) or \
                    e.loops[1][1] != ('keys', ('idx', G, v)):
                raise NotUnderstood('loops')
            b, x = bare(e.base), bare(e.val)
            new = ('not', ('in', x, b))
            loop = ('not', ('eq',) + tuple(sorted((v, w), key=gvn.key_of)))
            hide = [bare(c) for c in e.guards if bare(c) not in (new, loop)]
            pair = literal(b[2], v, w), literal(x, v, w)
            own = {('eq',) + tuple(sorted(q, key=gvn.key_of)) for q in (
                (v, ('call', 'Not', w)), (w, ('call', 'Not', v)))}
            good = IMPLIED
            if own & set(hide):
                # v is the negation of w: one variable
                pair, *good = [tuple(('w', 1 - no) if n == 'v' else (n, no)
                                     for n, no in q)
                               for q in [pair] + IMPLIED]
            if pair not in good:
                yield e.node.lineno, 'stores an implication that does not ' \
                    'follow'
                return
            hide = [c for c in hide if c not in own and
                    (c[0] != 'not' or c[1] not in own)]
            if any(c[0] == 'in' and c[2] == G and c[1] != v
                   for h in hide for c in (h, h[1]) if c[0] == 'in'):
                yield e.node.lineno, 'leaves out implications to some ' \
                    'literals'
                return
            if hide:
                raise NotUnderstood('conditions')
            note('cases compared')
            stored.add(pair)
            graphs.add(bare(b[1]))
        if not stored:
            raise NotUnderstood('graph')
        if IMPLIED[0] not in stored and all(
                bare_graph(h) for h in graphs) and not any(
                e.op not in ('add', 'call', 'havoc') and
                mention(items(bare(e.val)), G) for e in g.log):
            yield fn.lineno, 'loses the given implications'
        if IMPLIED[1] not in stored:
            yield fn.lineno, 'stores no contrapositives'
    for p in guarded(problems(), note):
        yield (name,) + p


def items(t):
    """Elements of containers without the containers."""
    if not isinstance(t, tuple) or t[:1] == ('c',):
        return t
    if t[:1] == ('el',):
        return ('el', t[1])
    return tuple(items(x) for x in t)


def bare_graph(t):
    """A new graph without edges."""
    if t[:2] != ('new', 'dict'):
        return False
    if t[2] == ('empty',):
        return True
    return t[2][:2] == ('comp', 'map') and \
        t[2][2][1][:3] == ('new', 'set', ('empty',))


IMPLIED = [(('v', 0), ('w', 0)), (('w', 1), ('v', 1))]


def example20(src, module, name):
    note = lambda *a: None                                  # noqa: E731
    kind = name.split('_')[0]
    if kind == 'Bits':
        return bit_reversal(src, module, name, note)
    if kind == 'Table':
        return table_reversal(src, module, name, note)
    if kind == 'graph':
        return implications(src, module, name, note)
    return negation(src, module, name.lower(), name, note)


def check_c20(tier):
    rep = Report()
    rule_examples(rep, example20, 'algebra',
                  ['Neg_good', 'Neg_type', 'Bits_good', 'Bits_minus',
                   'Table_good', 'graph_good'],
                  ['Neg_twice', 'Neg_equal', 'Neg_hash', 'Bits_same',
                   'Table_once', 'Table_lost', 'graph_once'])
    src = lang.Source()
    found = list(negation(src, '_not', 'Not', 'SymbolicNegation', rep.count))
    todo = [('_not', found),
            ('medium', list(bit_reversal(src, 'medium', 'BitvectorMedium',
                                         rep.count))),
            ('medium', list(table_reversal(src, 'medium',
                                           'LabeledGraphMedium',
                                           rep.count))),
            ('two_satisfiability', list(implications(
                src, 'two_satisfiability', 'Symmetrize', rep.count)))]
    for module, ps in todo:
        rep.count('operations examined')
        for where, line, what in ps:
            rep.add('C20', '%s.%s' % (module, where), what, what, line)
    rep.need('cases compared', 6)
    rep.explanation = (
        'The negation function, the equality and the hash of negated terms '
        'are compared with their definition for every outcome of their '
        'conditions; token reversals are compared with flipping the bit, or '
        'every pair stored in the reversal table must be stored in both '
        'directions under the same conditions, and every implication with '
        'its contrapositive.')
    return rep


# ------------------------------------------------------------------- C21
ROWS = list(itertools.product((False, True), repeat=2))
SPEC = {'complement': lambda a, b: not a, 'union': lambda a, b: a or b,
        'intersection': lambda a, b: a and b,
        'symmetricDifference': lambda a, b: a != b}
OPERATORS = {'__invert__': 'complement', '__or__': 'union',
             '__and__': 'intersection', '__xor__': 'symmetricDifference'}
SAME = {'minimize', 'asDFA', 'asNFA', 'renumber', 'language'}


def table(f):
    return tuple(bool(f(a, b)) for a, b in ROWS)


class Algebra:
    """Which words a language or automaton accepts, as a function of whether
    the two operands accept them."""

    def __init__(self, src, module, note, language='RegularLanguage',
                 automaton='FiniteAutomaton'):
        self.src = src
        self.module = module
        self.note = note
        self.language = language
        self.automaton = automaton
        fn, g = number(src, module, language + '.__contains__')
        word, = names_of(fn, 1)
        v = bare(g.returns[0][2])
        self.contains_line = fn.lineno
        self.field = None
        self.flipped = v[:1] == ('not',)
        for x in terms(v):
            if x[:2] == ('fld', SELF):
                self.field = x[2]
        if self.field is None:
            raise AnalysisError('languages without recognizer')

    def meaning(self, t, operands):
        """Table of membership in t."""
        t = bare(t)
        if t in operands:
            return operands[t]
        k = t[0]
        if k == 'fld' and t[2] == self.field and t[1] in operands:
            return operands[t[1]]
        if k == 'ite':
            raise NotUnderstood('condition')
        if k == 'mcall' and t[1] in SAME or k == 'app' and \
                t[1][:1] == ('fld',) and t[1][2] in SAME:
            return self.meaning(t[2] if k == 'mcall' else t[1][1], operands)
        if k == 'call' and t[1] in ('language', self.language) and \
                len(t) == 3:
            return self.meaning(t[2], operands)
        args = None
        if k == 'mcall' and t[1] in SPEC:
            name, args = t[1], t[2:]
        elif k in ('~', '&', '|', '^'):
            name = {'~': 'complement', '|': 'union', '&': 'intersection',
                    '^': 'symmetricDifference'}[k]
            args = t[1:]
        if args is not None:
            out = self.meaning(args[0], operands)
            for x in args[1:]:
                y = self.meaning(x, operands)
                out = tuple(bool(SPEC[name](a, b))
                            for a, b in zip(out, y))
            if len(args) == 1:
                out = tuple(bool(SPEC[name](a, None)) for a in out)
            return out
        if k == 'call':
            f = self.product(t[1])
            if f is not None:
                return f(t[2:], operands)
        raise NotUnderstood(show(t))

    # ------------------------------------------------ automata on top
    def product(self, cname):
        """The table function of a class of automata built from others."""
        d = self.src.defs(self.module).get(cname)
        if d is None or d[0] != 'class':
            return None
        fields, params = self.fields(cname)
        fn, g = number(self.src, self.module, cname + '.isfinal')
        state, = names_of(fn, 1)
        finals = [(a, self.inner(v, fields), n) for a, v, n in outcomes(g)]
        conds = [({self.inner(c, fields): x for c, x in a.items()}, v)
                 for a, v, n in finals]

        def tables(args, operands):
            bound = dict(zip(params, args))
            out = []
            for i in range(len(ROWS)):
                def accepts(D, s):
                    return self.meaning(bound.get(D, D), operands)[i]
                out.append(self.final(conds, accepts, bound))
            return tuple(out)
        return tables

    def final(self, conds, accepts, bound):
        for asg, v in conds:
            ok = True
            for c, x in asg.items():
                if bool(self.number(c, accepts, bound)) != x:
                    ok = False
                    break
            if ok:
                return bool(self.number(v, accepts, bound))
        raise NotUnderstood('acceptance')

    def number(self, t, accepts, bound):
        """The value of an acceptance expression."""
        k = t[0]
        if k == 'c':
            return t[1]
        if k == 'mcall' and t[1] == 'isfinal' and len(t) == 4:
            return accepts(t[2], t[3])
        if k == 'truth':
            return bool(self.number(t[1], accepts, bound))
        if k == 'not':
            return not self.number(t[1], accepts, bound)
        if k in ('and', 'or'):
            vs = [self.number(x, accepts, bound) for x in t[1:]]
            return all(vs) if k == 'and' else any(vs)
        if k in ('eq', 'is', 'lt', '|', '&', '^', '+', '-', '*'):
            vs = [self.number(x, accepts, bound) for x in t[1:]]
            if len(vs) != 2:
                raise NotUnderstood(show(t))
            a, b = vs
            return {'eq': lambda: a == b, 'is': lambda: a == b,
                    'lt': lambda: a < b, '|': lambda: a | b,
                    '&': lambda: a & b, '^': lambda: a ^ b,
                    '+': lambda: a + b, '-': lambda: a - b,
                    '*': lambda: a * b}[k]()
        if k == 'call' and t[1] in ('bool', 'int') and len(t) == 3:
            return int(self.number(t[2], accepts, bound))
        if k == 'call' and t[1] in ('min', 'max'):
            return (min if t[1] == 'min' else max)(
                self.number(x, accepts, bound) for x in t[2:])
        if k == 'ite':
            return self.number(t[2] if self.number(t[1], accepts, bound)
                               else t[3], accepts, bound)
        if k == 'app':
            op = bound.get(t[1], t[1])
            vs = [self.number(x, accepts, bound) for x in t[2:]]
            if op[:1] == ('lambda',) and op[1] == len(vs):
                return self.number(gvn.subst(op[2], {
                    ('arg', i): ('c', v) for i, v in enumerate(vs)}),
                    accepts, bound)
            name = op[2] if op[0] == 'fld' and op[1] == ('g', 'operator') \
                else op[1].split('.')[-1] if op[0] == 'g' and \
                type(op[1]) is str else None
            f = {'or_': lambda a, b: a | b, 'and_': lambda a, b: a & b,
                 'xor': lambda a, b: a ^ b, 'ne': lambda a, b: a != b,
                 'eq': lambda a, b: a == b, 'add': lambda a, b: a + b,
                 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b,
                 'lt': lambda a, b: a < b, 'gt': lambda a, b: a > b,
                 'le': lambda a, b: a <= b, 'ge': lambda a, b: a >= b,
                 'max': lambda a, b: max(a, b),
                 'min': lambda a, b: min(a, b),
                 'is_not': lambda a, b: a != b}.get(name)
            if f is not None and len(vs) == 2:
                return f(*vs)
        raise NotUnderstood(show(t))

    def fields(self, cname):
        """Field -> what the constructor stores there."""
        fn, g = number(self.src, self.module, cname + '.__init__')
        out = {}
        for e in g.log:
            if e.op == 'field' and e.base == SELF:
                if e.loops or e.key[1] in out:
                    raise NotUnderstood('constructor')
                out[e.key[1]] = bare(e.val)
        return out, [('p', a.arg) for a in fn.args.args][1:]

    def inner(self, t, fields):
        """A term of a method, fields replaced by constructor arguments."""
        return gvn.subst(bare(t), {('fld', SELF, f): v
                                   for f, v in fields.items()})

    def simulation(self, cname):
        """Automata built from others run them side by side."""
        fields, params = self.fields(cname)
        if 'initial' not in fields:
            raise NotUnderstood('initial state')
        fn, g = number(self.src, self.module, cname + '.transition')
        state, symbol = names_of(fn, 2)
        steps = [self.inner(v, fields) for a, v, n in outcomes(g)]
        fn2, g2 = number(self.src, self.module, cname + '.isfinal')
        state2, = names_of(fn2, 1)
        parts = {}
        finals = []
        for a, v, n in outcomes(g2):
            for c in list(a) + [v]:
                for x in terms(self.inner(c, fields)):
                    if x[:2] == ('mcall', 'isfinal') and len(x) == 4:
                        finals.append(x)
                        parts.setdefault(x[2], set()).add(x[3])
        if not finals:
            raise NotUnderstood('acceptance')
        start = fields['initial']
        for D, views in parts.items():
            if D not in params or len(views) != 1:
                if D in params:
                    yield fn2.lineno, 'asks one automaton about two states'
                    continue
                raise NotUnderstood('component')
            self.note('cases compared')
            view, = views
            if view == state2:
                project = lambda t: t                       # noqa: E731
            elif view[0] in ('part', 'idx') and view[1] == state2:
                k = view[2] if view[0] == 'part' else view[2][1]

                def project(t, k=k):
                    if t == state:
                        return ('part', state, k)
                    if t[0] != 'tuple' or len(t) <= k + 1:
                        raise NotUnderstood(show(t))
                    return t[k + 1]
            else:
                raise NotUnderstood(show(view))
            first = project(start)
            if first != ('fld', D, 'initial'):
                if first[:1] == ('fld',) or first[0] == 'c':
                    yield fn.lineno, 'starts with %s' % show(first)
                    continue
                raise NotUnderstood(show(first))
            for step in steps:
                s = aligned(project(step), state)
                want = ('mcall', 'transition', D,
                        aligned(project(state), state), symbol)
                if s != want:
                    if s[:2] == ('mcall', 'transition') or s in (
                            state, project(state)):
                        yield fn.lineno, 'moves with %s' % show(s)
                    else:
                        raise NotUnderstood(show(s))

    # --------------------------------------------------------- comparisons
    def holds(self, t, occurs, ops):
        """A condition on languages whose words show the given patterns."""
        k = t[0]
        if t in (TRUE, FALSE):
            return t[1]
        if k == 'not':
            return not self.holds(t[1], occurs, ops)
        if k in ('and', 'or'):
            vs = [self.holds(x, occurs, ops) for x in t[1:]]
            return all(vs) if k == 'and' else any(vs)
        if k == 'isinst':
            return True
        if k in ('eq', 'is') and k == 'eq':
            a, b = (self.meaning(x, ops) for x in t[1:])
            return all(a[i] == b[i] for i in occurs)
        if k == 'truth' and t[1][0] in ('le', 'less'):
            a, b = (self.meaning(x, ops) for x in t[1][1:])
            le = all(b[i] or not a[i] for i in occurs)
            if t[1][0] == 'le':
                return le
            return le and any(b[i] and not a[i] for i in occurs)
        if k == 'truth':
            a = self.meaning(t[1], ops)
            return any(a[i] for i in occurs)
        raise NotUnderstood(show(t))


ORDER = {'__le__': lambda le, ge: le, '__ge__': lambda le, ge: ge,
         '__lt__': lambda le, ge: le and not ge,
         '__gt__': lambda le, ge: ge and not le,
         '__eq__': lambda le, ge: le and ge,
         '__ne__': lambda le, ge: not (le and ge)}
FIRST = table(lambda a, b: a)
SECOND = table(lambda a, b: b)


def exists(g, pred):
    """Whether a function says that pred holds for some element: 'some', or
    a description of what it says instead."""
    rets = [(tuple(bare(c) for c in r[0]), r[1], bare(r[2]), r[3])
            for r in g.returns]
    if len(rets) == 1:
        v = rets[0][2]
        flip = v[:1] == ('not',)
        v = v[1] if flip else v
        if v[:1] == ('truth',):
            v = v[1]
        if v[:1] in (('any',), ('all',)):
            v = ('call', v[0]) + v[1:]
        if v[:2] in (('call', 'any'), ('call', 'all')) and len(v) == 3 and \
                v[2][:2] == ('comp', 'seq') and len(v[2][3]) == 1:
            x, cond = v[2][2][0], v[2][3][0][1]
            x = gvn.truth(x)
            neg = x[:1] == ('not',)
            x = x[1] if neg else x
            if x[:1] == ('truth',):
                x = x[1]
            if not pred(x) or cond != TRUE:
                raise NotUnderstood(show(v))
            kind = v[1] == 'any', neg, flip
            if kind in ((True, False, False), (False, True, True)):
                return 'some'
            return 'something other than whether some element qualifies'
        raise NotUnderstood(show(v))
    if len(rets) == 2 and len(rets[0][1]) == 1 and not rets[1][1] and \
            len(rets[0][0]) == 1 and not rets[1][0]:
        c, v, w = rets[0][0][0], rets[0][2], rets[1][2]
        neg = c[:1] == ('not',)
        c = c[1] if neg else c
        if c[:1] == ('truth',):
            c = c[1]
        if pred(c) and v[0] == 'c' and w[0] == 'c':
            if not neg and bool(v[1]) and not bool(w[1]):
                return 'some'
            return 'something other than whether some element qualifies'
    if len(rets) == 2 and len(rets[0][1]) == 1 and not rets[0][0] and \
            pred(rets[0][2][1] if rets[0][2][:1] == ('truth',)
                 else rets[0][2]):
        return 'whether the first element qualifies'
    if len(rets) == 2 and len(rets[0][1]) == 1 and rets[0][2] == TRUE and \
            rets[1][2] == FALSE:
        cs = [y for c in rets[0][0]
              for y in (c[1:] if c[0] == 'and' else (c,))]
        el = ('el', 0, rets[0][1][0][1])
        if any(c[:1] == ('truth',) and pred(c[1]) for c in cs) and any(
                c[0] == 'eq' and el in c[1:] or
                c[0] == 'not' and c[1][0] == 'eq' and el in c[1][1:]
                for c in cs):
            return 'whether one of some elements qualifies'
    raise NotUnderstood('search')


def algebra(src, module, note):
    A = Algebra(src, module, note)
    L, F = A.language, A.automaton
    if A.flipped:
        yield L + '.__contains__', A.contains_line, 'answers the opposite'

    def operation(cname, name, spec, operands):
        fn, g = number(src, module, '%s.%s' % (cname, name))
        ps = [SELF] + [('p', a.arg) for a in fn.args.args][1:]
        ops = dict(zip(ps, (FIRST, SECOND)))
        for asg, v, node in outcomes(g):
            rows = set(range(4))
            for a, x in asg.items():
                if a[0] == 'isinst':
                    if not x:
                        rows = set()
                elif a[0] in ('eq', 'is') and set(a[1:]) == set(ps[:2]):
                    if x:
                        rows &= {0, 3}
                else:
                    raise NotUnderstood(show(a))
            if not rows:
                continue
            note('cases compared')
            if any(e.op == 'reverse' for e in g.log):
                yield node.lineno, 'uses the words read backwards'
                continue
            raw = [x for x in terms(bare(v)) if x[0] == 'call' and
                   deterministic(x[1]) and
                   any(y in ps or y[:1] == ('fld',) and y[1] in ps and
                       y[2] == A.field for y in x[2:])]
            if raw:
                yield node.lineno, 'hands an automaton that need not be ' \
                    'deterministic to %s' % raw[0][1]
                continue
            got = A.meaning(v, ops)
            bad = [i for i in sorted(rows)
                   if got[i] != bool(spec(*ROWS[i]))]
            if bad:
                yield node.lineno, 'is wrong about words %s' % ', '.join(
                    ['of neither', 'of the second only',
                     'of the first only', 'of both'][i] for i in bad)

    def deterministic(cname):
        """A class of automata that runs deterministic ones."""
        d = src.defs(module).get(cname)
        return d is not None and d[0] == 'class' and 'DFA' in [
            b.id for b in d[2].bases if isinstance(b, ast.Name)] and \
            cname not in ('_DFAfromNFA', 'RegExp') and \
            built_on_automata(src, module, cname) and \
            any(isinstance(x, ast.FunctionDef) and x.name == 'isfinal'
                for x in d[2].body) and \
            src.find(module, 'NFA.asDFA') is not None

    def small(t):
        """A language or a minimal automaton."""
        if t[:1] == ('fld',) and t[2] == A.field:
            return False
        return not (t[:1] == ('mcall',) and t[1] in ('asDFA', 'asNFA') and
                    not small(t[2]))

    def comparison(name):
        fn, g = number(src, module, '%s.%s' % (L, name), kind=Numbering)
        other = ('p', fn.args.args[1].arg)
        ops = {SELF: FIRST, other: SECOND}
        rets = []
        for guards, loops, v, node, n in g.returns:
            if loops:
                raise NotUnderstood('loop')
            if ('not', ('isinst', other, ('g', L))) in guards:
                continue
            rets.append(([bare(c) for c in guards], bare(v), node))
        for guards, v, node in rets:
            for c in terms(tuple(guards) + (v,)):
                if c[0] == 'eq' and len(c) == 3 and \
                        not (small(c[1]) and small(c[2])):
                    yield node.lineno, 'compares automata that are not ' \
                        'minimal'
                    return
        for k in range(1, 5):
            for occurs in itertools.combinations(range(4), k):
                note('cases compared')
                le = 2 not in occurs
                ge = 1 not in occurs
                want = bool(ORDER[name](le, ge))
                for guards, v, node in rets:
                    if all(A.holds(c, occurs, ops) for c in guards):
                        got = A.holds(gvn.truth(v), occurs, ops)
                        if got != want:
                            yield node.lineno, 'disagrees with the sets of ' \
                                'words'
                            return
                        break

    def nonempty():
        fn, g = number(src, module, L + '.__bool__')
        r = exists(g, lambda t: t[:2] == ('mcall', 'isfinal') and
                   t[2] == ('fld', SELF, A.field))
        note('cases compared')
        if r != 'some':
            yield fn.lineno, 'says ' + r

    def subset_final(cname):
        fields, params = A.fields(cname)
        fn, g = number(src, module, cname + '.isfinal')
        r = exists(g, lambda t: t[:2] == ('mcall', 'isfinal'))
        note('cases compared')
        if r != 'some':
            yield fn.lineno, 'says ' + r

    def subset_step(cname):
        fields, params = A.fields(cname)
        fn, g = number(src, module, cname + '.transition')
        state, symbol = names_of(fn, 2)
        if len(g.returns) != 1:
            raise NotUnderstood('transition')
        v = A.inner(g.returns[0][2], fields)
        while v[:2] == ('call', 'frozenset') and len(v) == 3:
            v = v[2]
        if v[:1] != ('exit',):
            raise NotUnderstood('transition')
        body = v[-1]
        accs = [x for x in terms(body) if x[0] == 'phi' and x[2] == v[1]]
        note('cases compared')
        if not accs:
            yield fn.lineno, 'keeps only the last set'
            return
        if body[0] == 'ite' and set(body[2:]) & set(accs) and \
                body[1] in [('truth', x) for x in accs] + [
                    ('not', ('truth', x)) for x in accs] and \
                not all(mention(x, accs[0]) for x in body[2:]):
            yield fn.lineno, 'keeps one of the sets'
            return
        if body[0] not in ('|', '&', '^', '-') or len(body) != 3 or \
                not set(accs) & set(body[1:]):
            raise NotUnderstood('transition')
        if body[0] != '|':
            yield fn.lineno, 'combines sets with %s' % body[0]
            return
        other, = [x for x in body[1:] if x not in accs]
        if other[:2] == ('mcall', 'transition') and len(other) == 5:
            if other[4] != symbol or other[3][:1] != ('el',):
                yield fn.lineno, 'moves with %s' % show(other)

    def single(cname):
        """A deterministic automaton seen as a nondeterministic one."""
        fields, params = A.fields(cname)
        fn, g = number(src, module, cname + '.isfinal')
        state, = names_of(fn, 1)
        for asg, v, node in outcomes(g):
            v = A.inner(v, fields)
            note('cases compared')
            if v[:1] == ('c',) and len(asg) == 1:
                a, x = list(asg.items())[0]
                a = A.inner(a, fields)
                if a[:1] != ('truth',) or a[1][:2] != ('mcall', 'isfinal'):
                    raise NotUnderstood(show(a))
                if x != bool(v[1]):
                    yield node.lineno, 'accepts the opposite'
            elif v[:2] != ('mcall', 'isfinal') or v[3] != state:
                raise NotUnderstood(show(v))
        fn, g = number(src, module, cname + '.transition')
        state, symbol = names_of(fn, 2)
        for asg, v, node in outcomes(g):
            v = gvn.strip(A.inner(v, fields))
            note('cases compared')
            inside = [x for x in terms(v)
                      if x[:2] == ('mcall', 'transition')]
            if len(inside) != 1:
                raise NotUnderstood(show(v))
            others = [x for x in elements(v) if x not in inside]
            if state in others:
                yield node.lineno, 'stays where it is as well'
            if inside[0][3:] != (state, symbol):
                yield node.lineno, 'moves with %s' % show(inside[0])

    def beginning(cname):
        """The converted automaton starts where the given one does."""
        fields, params = A.fields(cname)
        first = [('fld', p, 'initial') for p in params]
        if 'initial' not in fields:
            raise NotUnderstood('initial state')
        v = fields['initial']
        note('cases compared')
        fn, c = src.need(module, cname + '.__init__')
        whole = v
        while whole[:2] == ('call', 'frozenset') and len(whole) == 3 or \
                whole[:1] == ('new',) and whole[2][:1] == ('from',):
            whole = whole[2][1] if whole[0] == 'new' else whole[2]
        if whole[:1] in (('slice',), ('idx',)) and any(
                mention(whole, f) for f in first):
            yield fn.lineno, 'starts with some of the initial states'
        elif cname == '_NFAfromDFA':
            if len(elements(v)) > 1 and set(elements(v)) & set(first):
                yield fn.lineno, 'starts with more than the initial state'
        elif whole[:1] == ('c',) or whole[:1] == ('new',) and \
                whole[2] == ('empty',):
            yield fn.lineno, 'starts with %s' % show(whole)

    def reading(cname):
        fn, g = number(src, module, cname + '.__call__')
        word, = names_of(fn, 1)
        if len(g.returns) != 1:
            raise NotUnderstood('reading')
        v = bare(g.returns[0][2])
        note('cases compared')
        flip = v[:1] == ('not',)
        v = v[1] if flip else v
        v = v[1] if v[:1] == ('truth',) else v
        if v[:2] != ('app', ('fld', SELF, 'isfinal')) or len(v) != 3 or \
                v[2][:1] != ('exit',):
            raise NotUnderstood('reading')
        first, body = v[2][1], v[2][-1]
        if flip:
            yield fn.lineno, 'answers the opposite'
        if first != ('fld', SELF, 'initial'):
            yield fn.lineno, 'starts in %s' % show(first)
        if body[:2] != ('app', ('fld', SELF, 'transition')) or \
                len(body) != 4:
            raise NotUnderstood('reading')
        if body[2][:1] != ('phi',) or body[3][:1] != ('el',):
            yield fn.lineno, 'moves with %s' % show(body)

    todo = [('%s.%s' % (F, n), operation(F, n, SPEC[n], 2)) for n in SPEC]
    todo += [('%s.%s' % (L, m), operation(L, m, SPEC[n], 2))
             for m, n in OPERATORS.items()]
    todo += [('%s.%s' % (L, m), comparison(m)) for m in ORDER]
    todo.append((L + '.__bool__', nonempty()))
    for c in sorted(src.defs(module)):
        d = src.defs(module)[c]
        if d[0] == 'class' and d[1] == module:
            own = [x.name for x in d[2].body
                   if isinstance(x, ast.FunctionDef)]
            if 'isfinal' not in own or 'transition' not in own:
                continue
            bases = [b.id for b in d[2].bases if isinstance(b, ast.Name)]
            if c == '_DFAfromNFA':
                todo.append((c + '.__init__', beginning(c)))
                todo.append((c + '.isfinal', subset_final(c)))
                todo.append((c + '.transition', subset_step(c)))
            elif c == '_NFAfromDFA':
                todo.append((c + '.__init__', beginning(c)))
                todo.append((c, single(c)))
            elif 'DFA' in bases and built_on_automata(src, module, c):
                todo.append((c, A.simulation(c)))
    todo.append(('DFA.__call__', reading('DFA')))
    for where, it in todo:
        note('operations examined')
        for p in guarded(it, note):
            yield (where,) + p


def elements(t):
    """The elements of a collection written out."""
    while t[:2] in (('call', 'frozenset'), ('call', 'set')) and \
            len(t) == 3 or t[:1] == ('new',) and t[2][:1] == ('from',):
        t = t[2][1] if t[0] == 'new' else t[2]
    if t[:1] == ('new',) and t[2][:1] == ('seq',):
        return t[2][1:]
    if t[:1] == ('tuple',):
        return t[1:]
    return ()


def built_on_automata(src, module, cname):
    """Does the constructor only keep automata and copy their parts?"""
    fn, c = src.need(module, cname + '.__init__')
    return not any(isinstance(x, (ast.For, ast.While)) for x in ast.walk(fn))


def example21(src, module, name):
    return algebra(src, name, lambda *a: None)


def check_c21(tier):
    rep = Report()
    rule_examples(rep, example21, 'languages', ['languages'],
                  ['languages_or', 'languages_le', 'languages_step'])
    src = lang.Source()
    src.need('automata', 'RegularLanguage.__contains__')
    for where, line, what in algebra(src, 'automata', rep.count):
        rep.add('C21', 'automata.%s' % where, what, what, line)
    rep.need('cases compared', 40)
    rep.explanation = (
        'Every operator of languages and automata is reduced to a truth '
        'table over whether the operands accept a word, obtained from the '
        'acceptance conditions in the source, and compared with the set '
        'operation; every comparison is evaluated for all 15 sets of '
        'patterns that words can show; product automata must run their '
        'operands side by side.')
    return rep
