"""Properties decided on gated value numbers."""
import ast
import itertools
import os

import gvn
import lang
from gvn import (TRUE, FALSE, NONE, neg, conj, disj, gate, show, strip,
                 Unknown, atoms_of, gate_atoms, value)
from report import Report
from scopes import AnalysisError

SELF = ('p', 'self')
EXAMPLES = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                        'examples')


def rule_examples(rep, problems, module, good, bad):
    """The rules must be silent on the good examples and flag the bad ones."""
    src = lang.Source(EXAMPLES)
    for names, want in ((good, False), (bad, True)):
        for name in names:
            if bool(list(problems(src, module, name))) != want:
                raise AnalysisError('the rules no longer decide the example '
                                    '%s.%s' % (module, name))
            rep.count('examples decided')


# ------------------------------------------------------------ case analysis
def settle(t, asg):
    """The term with its gates decided."""
    if not isinstance(t, tuple) or t[:1] == ('c',):
        return t
    if t[:1] == ('ite',):
        try:
            return settle(t[2] if value(t[1], asg) else t[3], asg)
        except KeyError:
            pass
    return rebuild(tuple(settle(x, asg) if isinstance(x, tuple) else x
                         for x in t))


def rebuild(t):
    if t[:1] in (('eq',), ('is',)):
        if t[1] == t[2]:
            return TRUE
        if t[0] == 'is' and t[1] == NONE and t[2][:1] in (('new',), ('c',)) \
                or t[0] == 'is' and t[2] == NONE and \
                t[1][:1] in (('new',), ('c',)):
            return FALSE
        return (t[0],) + tuple(sorted(t[1:], key=gvn.key_of))
    return t


class Case:
    def __init__(self, asg, entries):
        self.asg = asg
        self.entries = entries

    def holds(self, t):
        """Is the (settled) condition an assumption of this case?"""
        for a, v in self.asg.items():
            if settle(a, self.asg) == t:
                return v
        return None


def cases(g, limit=10, entries=None):
    """The ways the conditions can come out, and the effects in each."""
    out = []
    log = [e for e in (g.log if entries is None else entries)
           if e.op != 'havoc']
    atoms = []
    for e in log:
        for c in e.guards:
            atoms_of(c, atoms)
        for t in (e.base, e.key, e.val):
            gate_atoms(t, atoms)
    for r in g.raises:
        for c in r[0]:
            atoms_of(c, atoms)
    if len(atoms) > limit:
        return None
    for bits in itertools.product((True, False), repeat=len(atoms)):
        asg = dict(zip(atoms, bits))
        if any(all(value(c, asg) for c in r[0]) and r[1] == ()
               for r in g.raises):
            continue
        if not consistent(asg):
            continue
        es = []
        for e in log:
            if all(value(c, asg) for c in e.guards):
                es.append(gvn.Entry(e.n, e.op, settle(e.base, asg),
                                    settle(e.key, asg), settle(e.val, asg),
                                    (), e.loops, e.node, e.fn))
        out.append(Case(asg, es))
    return out


def consistent(asg):
    """No atom is both assumed and denied after the gates are decided."""
    seen = {}
    for a, v in asg.items():
        t = settle(a, asg)
        if seen.setdefault(t, v) != v or t in (TRUE, FALSE) and \
                v != t[1]:
            return False
    # something is in an empty container
    for t, v in seen.items():
        if v and t[0] == 'in' and seen.get(('truth', t[2])) is False:
            return False
    return True


# --------------------------------------------------------------------- C13

SEQUENCES = [('sequence', 'Sequence'),
             ('ordered_sequence', 'SimpleOrderedSequence'),
             ('ordered_sequence', 'LogarithmicOrderedSequence')]


def run_method(src, module, cls, name, keep=(), **kw):
    fn, c = src.need(module, '%s.%s' % (cls, name))
    g = gvn.GVN(src.resolver(module, cls, keep=keep, **kw))
    return g.run(fn, cls=c)


def result_fields(src, module, cls, name):
    """Fields of self indexed in the value a method returns."""
    try:
        g = run_method(src, module, cls, name)
    except Unknown:
        return []
    out = []

    def walk(t):
        if isinstance(t, tuple):
            if t[:1] == ('idx',) and t[1][:2] == ('fld', SELF):
                if t[1][2] not in out:
                    out.append(t[1][2])
            for x in t:
                walk(x)
    for r in g.returns:
        walk(r[2])
    return out


def link_fields(src, module, cls):
    """(successor table, predecessor table, first item)"""
    s = [f for f in result_fields(src, module, cls, 'successor')]
    p = [f for f in result_fields(src, module, cls, 'predecessor')]
    n = [f for f in s if f not in p]
    q = [f for f in p if f not in s]
    if len(n) != 1 or len(q) != 1:
        n, q = ['_next'], ['_prev']
    return n[0], q[0]


class Links:
    """Checks one case of one method of a doubly linked circular list."""

    def __init__(self, case, N, P):
        self.case = case
        self.N, self.P = ('fld', SELF, N), ('fld', SELF, P)
        self.nf, self.pf = ('f', N), ('f', P)
        self.problems = []
        self.eqs = {}
        for a in [a for a, v in case.asg.items() if v] * 3:
            if a[:1] == ('eq',):
                a = settle(a, case.asg)
                if a[:1] == ('eq',):
                    x, y = sorted((self.norm(z) for z in a[1:]),
                                  key=lambda z: (len(repr(z)), repr(z)))
                    if x != y:
                        self.eqs[y] = x
                        if y[:2] == ('idx', self.N):
                            self.eqs['idx', self.P, x] = y[2]
                        elif y[:2] == ('idx', self.P):
                            self.eqs['idx', self.N, x] = y[2]

    def only(self, k):
        """k is the only item in this case."""
        return self.norm(('idx', self.N, k)) == k

    def norm(self, t):
        """prev[next[z]] = z and next[prev[z]] = z held before."""
        if not isinstance(t, tuple) or t[:1] == ('c',):
            return t
        t = tuple(self.norm(x) if isinstance(x, tuple) else x for x in t)
        if t[:1] == ('idx',) and isinstance(t[2], tuple) and \
                t[2][:1] == ('idx',):
            if t[1] == self.P and t[2][1] == self.N or \
                    t[1] == self.N and t[2][1] == self.P:
                return t[2][2]
        return self.eqs.get(t, t)

    def collect(self):
        """Final contents of the two tables; None when not understood."""
        self.new = {}
        tabs = {self.N: {}, self.P: {}}
        gone = {self.N: [], self.P: []}
        names = {self.N: self.N, self.P: self.P}
        for e in self.case.entries:
            base = self.norm(e.base) if e.base else e.base
            if e.op == 'field' and base == SELF and e.key in (self.nf,
                                                              self.pf):
                which = self.N if e.key == self.nf else self.P
                v = e.val
                if e.loops:
                    return None
                if v[:1] != ('new',) or v[1] != 'dict' or \
                        v[2][0] not in ('empty', 'items'):
                    return None
                names[which] = v
                tabs[which] = {}
                gone[which] = []
                self.new[which] = True
                if v[2][0] == 'items':
                    for k, x in zip(v[2][1::2], v[2][2::2]):
                        tabs[which][self.norm(k)] = self.norm(x)
                continue
            for which in (self.N, self.P):
                if names[which] != base:
                    continue
                if e.loops:
                    return None
                k = self.norm(e.key) if e.key else e.key
                if e.op == 'put':
                    tabs[which][k] = self.norm(e.val)
                    if k in gone[which]:
                        gone[which].remove(k)
                elif e.op == 'del':
                    tabs[which].pop(k, None)
                    gone[which].append(k)
                elif e.op in ('call', 'yield'):
                    continue
                else:
                    return None
        self.tabs, self.gone = tabs, gone
        return True

    def fresh(self, k):
        """k was not in the sequence before."""
        for t in (self.N, self.P):
            if self.case.holds(('in', k, t)) is False:
                return True
        return False

    def check(self):
        N, P = self.N, self.P
        tn, tp = self.tabs[N], self.tabs[P]
        gn, gp = self.gone[N], self.gone[P]
        out = self.problems
        if bool(self.new.get(N)) != bool(self.new.get(P)):
            out.append('only one of the two tables is replaced')
            return out
        isnew = self.new.get(N)
        for a, b in tn.items():
            if tp.get(b) != a and not (not isnew and b not in tp and
                                       b not in gp and
                                       self.norm(('idx', P, b)) == a):
                out.append('the successor of %s becomes %s, but the '
                           'predecessor of %s does not become %s'
                           % (show(a), show(b), show(b), show(a)))
        for b, a in tp.items():
            if tn.get(a) != b and not (not isnew and a not in tn and
                                       a not in gn and
                                       self.norm(('idx', N, a)) == b):
                out.append('the predecessor of %s becomes %s, but the '
                           'successor of %s does not become %s'
                           % (show(b), show(a), show(a), show(b)))
        for k in gn:
            if k not in gp:
                out.append('%s is removed from the successors only'
                           % show(k))
        for k in gp:
            if k not in gn:
                out.append('%s is removed from the predecessors only'
                           % show(k))
        if isnew:
            return out
        for tab, gone, other, ogone, T, word in (
                (tn, gn, tp, gp, N, 'successor'),
                (tp, gp, tn, gn, P, 'predecessor')):
            for k in list(tab) + list(gone):
                if self.fresh(k):
                    continue
                o = self.norm(('idx', T, k))
                if o not in other and o not in ogone:
                    out.append('the former %s of %s still points back to it'
                               % (word, show(k)))
        return out


def check_first(case, links, F):
    """The designated first item stays an item."""
    first = ('fld', SELF, F)
    cur = first
    for e in case.entries:
        if e.op == 'field' and e.base == SELF and e.key == ('f', F):
            if e.loops:
                return
            cur = links.norm(e.val)
    gone = links.gone[links.N]
    if any(links.only(k) for k in gone):
        return
    if cur == first:
        if links.new.get(links.N) and links.tabs[links.N]:
            yield 'the first item is not set for the new contents'
        for k in gone:
            a, b = sorted((first, k), key=gvn.key_of)
            if case.holds(('eq', a, b)) is not False and k != first or \
                    k == first:
                yield ('%s can be the first item and is removed, but the '
                       'first item is not moved' % show(k))
    elif cur in gone:
        yield 'the first item becomes %s, which is removed' % show(cur)
    elif cur == NONE:
        if not (links.new.get(links.N) and not links.tabs[links.N]):
            only = any(v and a[0] == 'eq' and links.norm(
                ('idx', links.N, gone[0] if gone else NONE)) in a[1:]
                for a, v in case.asg.items()) if gone else False
            if not only:
                yield 'the first item is forgotten'
    elif not (cur in links.tabs[links.N] or cur[:1] == ('idx',) and
              cur[1] in (links.N, links.P)):
        yield 'the first item becomes %s, which is not an item' % show(cur)


def first_field(src, module, cls, N, P):
    """The field the iteration starts from."""
    fn, c = src.need(module, cls + '.__iter__')
    g = gvn.GVN(src.resolver(module, cls))
    try:
        g.run(fn, cls=c)
    except Unknown:
        return '_first'
    found = []

    def walk(t):
        if isinstance(t, tuple):
            if t[:2] == ('fld', SELF) and t[2] not in (N, P, '_items',
                                                       '_key'):
                if t[2] not in found:
                    found.append(t[2])
            for x in t:
                walk(x)
    for y in g.yields:
        walk(y[2])
    for e in g.log:
        walk(e.loops)
        walk(e.guards)
    return found[0] if len(found) == 1 else '_first'


def sequence_problems(src, module, cls, rep=None):
    N, P = link_fields(src, module, cls)
    F = first_field(src, module, cls, N, P)
    methods = src.methods(module, cls)
    seen = False
    for m in methods:
        if m.startswith('_') and not m.endswith('__'):
            continue                # seen where it is called
        fn, c = src.need(module, '%s.%s' % (cls, m))
        public = [x for x in methods if not x.startswith('_') and x != 'key']
        in_loop = calls_in_loops(fn)
        keep = public if m == '__init__' else [x for x in public
                                               if x in in_loop]
        try:
            g = run_method(src, module, cls, m, keep=keep)
        except Unknown:
            if rep:
                rep.count('methods not understood')
            continue
        touched = [e for e in g.log if touches(e, (N, P, F))]
        if not touched:
            continue
        if g.opaque:
            if rep:
                rep.count('methods not understood')
            continue
        cs = cases(g, entries=touched)
        if cs is None:
            if rep:
                rep.count('methods not understood')
            continue
        done = 0
        for case in cs:
            links = Links(case, N, P)
            if links.collect() is None:
                if rep:
                    rep.count('cases not understood')
                continue
            done += 1
            for p in links.check():
                yield m, p
            if m == 'remove' and links.tabs[links.N] and not (
                    links.gone[links.N] or links.new.get(links.N)):
                yield m, 'the item to be removed can stay'
            for p in check_first(case, links, F):
                yield m, p
        if rep and done:
            rep.count('updating methods analysed')
            rep.count('cases analysed', done)
            seen = True


def calls_in_loops(fn):
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.For, ast.While)):
            for x in ast.walk(n):
                if isinstance(x, ast.Call) and \
                        isinstance(x.func, ast.Attribute):
                    out.add(x.func.attr)
    return out


def touches(e, fields):
    if e.op in ('call', 'yield', 'havoc'):
        return False
    if e.base == SELF and e.key and e.key[0] == 'f' and e.key[1] in fields:
        return True
    return any(f in repr(e.base) for f in fields if e.base is not None) and \
        e.op in ('put', 'del', 'clear', 'update', 'pop', 'popitem')


def check_c13(tier):
    rep = Report()
    src = lang.Source()
    for module, cls in SEQUENCES:
        rep.count('classes analysed')
        seen = set()
        for m, p in sequence_problems(src, module, cls, rep):
            if (m, p) in seen:
                continue
            seen.add((m, p))
            rep.add('links', '%s.%s.%s' % (module, cls, m), p[:60], p,
                    line=src.need(module, cls + '.' + m)[0].lineno)
    rep.need('classes analysed', 3)
    rep.need('updating methods analysed', 6)
    rule_examples(rep, sequence_problems, 'structs', ['GoodLinked'],
                  ['BadLinked', 'BadFirst'])
    rep.explanation = (
        'Every public method of the linked sequences is value numbered; its '
        'effects on the successor and predecessor tables are compared in '
        'each combination of its conditions: each new link needs its mirror '
        'image, each displaced item a new mirror image, and the first item '
        'stays an item.')
    rep.assumptions.append('the tables mirror each other before each call')
    return rep


# --------------------------------------------------------------------- C22

UPDATED = [('bucketqueue', 'BucketQueue'), ('sequence', 'Sequence'),
           ('ordered_sequence', 'SimpleOrderedSequence'),
           ('ordered_sequence', 'LogarithmicOrderedSequence'),
           ('partition_refinement', 'PartitionRefinement'),
           ('integer_heap', 'BitVectorHeap'), ('integer_heap', 'FlatHeap'),
           ('integer_heap', 'LinearHeap'), ('sorted_set', 'SortedSet'),
           ('union_find', 'UnionFind'), ('sudoku', 'Sudoku')]
UPDATED_FUNCTIONS = [('read_undirected_graph', 'vertex'),
                     ('read_undirected_graph', 'edge')]


def from_argument(t, params):
    """The key is an argument, or the caller's key function of one."""
    if t in params:
        return True
    if t[:1] == ('app',):
        return all(from_argument(x, params) for x in t[2:])
    if t[:1] == ('ite',):
        return from_argument(t[2], params) and from_argument(t[3], params)
    return False


def owned(t, params):
    """A container that belongs to the structure: a field of self, a
    parameter, or something stored in one."""
    while isinstance(t, tuple):
        if t[:1] == ('fld',):
            if t[1] == SELF:
                return True
            t = t[1]
        elif t[:1] in (('idx',), ('upd',)):
            t = t[1]
        elif t[:1] == ('phi',):
            t = t[2]
        elif t[:1] == ('el',):
            t = t[2][1]
        elif t[:1] == ('ite',):
            return owned(t[2], params) or owned(t[3], params)
        else:
            break
    return t in params


MUTATING = ('put', 'del', 'append', 'add', 'remove', 'discard', 'pop',
            'clear', 'update', 'extend', 'insert', 'popitem', 'sort',
            'reverse', 'difference_update', 'intersection_update',
            'symmetric_difference_update')


def changes(e, params):
    if e.op in ('field', 'delattr'):
        return e.base == SELF or owned(e.base, params)
    return e.op in MUTATING and e.base is not None and \
        owned(e.base, params)


def together(a, b):
    """Can both sets of conditions hold?"""
    facts = set(a) | set(b)
    for f in facts:
        if neg(f) in facts:
            return False
        if f[0] == 'or' and all(neg(x) in facts for x in f[1:]):
            return False
    return True


def depends(t, params):
    """The condition is about the arguments or the structure."""
    if not isinstance(t, tuple) or t[:1] == ('c',):
        return False
    return t in params or t[:2] == ('fld', SELF) or \
        any(depends(x, params) for x in t)


def unchanged_problems(g, params):
    """Places where an error can follow a change."""
    writes = [e for e in g.log if changes(e, params)]
    for guards, loops, v, node, n in g.raises:
        for e in writes:
            if e.n < n and together(e.guards, guards) and \
                    all(depends(x, params) for x in guards[-1:]):
                yield ('raise', node, e, 'raises %s' % show(v)[:60])
                break
    # lookups that fail when the argument is not there
    known = []
    points = [(n, b, k, gu, node) for n, b, k, gu, lp, node, there in g.reads
              if node is not None and not there]
    points += [(e.n, e.base, e.key if e.op == 'del' else e.val, e.guards,
                e.node) for e in g.log if e.op in ('del', 'remove')]
    points.sort(key=lambda p: p[0])
    for n, b, k, gu, node in points:
        if b[:1] != ('fld',) and b not in params or \
                not from_argument(k, params):
            continue
        if known_member(k, b, gu, known):
            continue
        known.append((k, gu, n))
        for e in writes:
            if e.n < n and together(e.guards, gu):
                yield ('lookup', node, e, 'fails when %s is not in %s'
                       % (show(k), show(b)))
                break


def known_member(k, b, gu, known):
    for x in gu:
        if x[:2] == ('in', k):
            return True
    for kk, gg, n in known:
        if kk == k and set(gg) <= set(gu):
            return True
    return False


def update_problems(src, module, cls, rep=None):
    methods = src.methods(module, cls) if cls else [None]
    for m in methods:
        if m is not None and m.startswith('_') and not m.endswith('__') or \
                m == '__init__':
            continue
        yield from function_problems(src, module, cls, m, rep)


def function_problems(src, module, cls, m, rep):
    name = '%s.%s' % (cls, m) if cls else m
    fn, c = src.need(module, name)
    if any(isinstance(x, (ast.Yield, ast.YieldFrom))
           for x in gvn.walk_own(fn)):
        return
    params = {('p', a.arg) for a in fn.args.args}
    if cls:
        params.discard(('p', fn.args.args[0].arg))
    g = gvn.GVN(src.resolver(module, cls))
    try:
        g.run(fn, cls=c)
    except Unknown:
        if rep:
            rep.count('operations not understood')
        return
    if not any(changes(e, params) for e in g.log):
        return
    if rep:
        rep.count('updating operations analysed')
        rep.count('changes', len([e for e in g.log if changes(e, params)]))
        rep.count('error exits', len(g.raises))
    for kind, node, e, why in unchanged_problems(g, params):
        yield name, kind, node, e, why


def check_c22(tier):
    rep = Report()
    src = lang.Source()
    todo = [update_problems(src, m, c, rep) for m, c in UPDATED]
    todo += [function_problems(src, m, None, f, rep)
             for m, f in UPDATED_FUNCTIONS]
    mods = [m for m, c in UPDATED + UPDATED_FUNCTIONS]
    for module, it in zip(mods, todo):
        for name, kind, node, e, why in it:
            rep.add(kind + ' after change', '%s.%s' % (module, name),
                    '%s %s then %s' % (e.op, show(e.base)[:40], kind),
                    'changes %s before it %s' % (show(e.base)[:60], why),
                    line=getattr(node, 'lineno', 0))
    rep.need('updating operations analysed', 12)
    rule_examples(rep, update_problems, 'structs', ['GoodUpdate'],
                  ['BadUpdate', 'BadLookup'])
    rep.explanation = (
        'Every update of the mutable structures is value numbered; no raise '
        'that depends on its arguments, and no lookup that fails for an '
        'absent argument, may follow a change of the structure under '
        'conditions that can hold together.')
    rep.assumptions.append('keys are hashable and callbacks of the caller '
                           'do not fail')
    return rep
