"""C30: length, iteration, membership, lookup and truth describe one and the
same collection.

The protocol methods are value numbered; the value they return is traced back
to the table it comes from, through copies, views and counting loops."""
import gvn
import lang
import props_c
import props_d
from gvn import NONE, show, Unknown
from props_c import SELF, rule_examples
from report import Report
from scopes import AnalysisError

TRUE = ('c', True)

# class, its tables, and for each protocol method the question it answers
# and the tables that answer it
CONTAINERS = [
    ('bucketqueue', 'BucketQueue', ['_D', '_Q', '_N'], [
        ('__len__', 'size', ['_D']), ('__contains__', 'member', ['_D']),
        ('__getitem__', 'lookup', ['_D']), ('__iter__', 'drain',
                                            ['_Q', '_D'])]),
    ('partition_refinement', 'PartitionRefinement', ['_sets', '_partition'], [
        ('__len__', 'size', ['_sets']), ('__iter__', 'values', ['_sets']),
        ('__getitem__', 'lookup', ['_partition'])]),
    ('sequence', 'Sequence', ['_next', '_prev', '_items', '_first', '_key'], [
        ('__len__', 'size', ['_next', '_prev']),
        ('__iter__', 'walk', ['_next', '_prev'])]),
    ('sorted_set', 'SortedSet', ['_set', '_previous', '_additions',
                                 '_removals'], [
        ('__len__', 'size', ['_set']), ('_set', 'holds', ['iterable'])]),
    ('union_find', 'UnionFind', ['parents', 'weights'], [
        ('__iter__', 'keys', ['parents', 'weights'])]),
    ('medium', 'Medium', ['states', 'tokens'], [
        ('__len__', 'size', ['states']), ('__iter__', 'keys', ['states'])]),
    ('medium', 'ExplicitMedium', ['_action', '_reverse', 'states', 'tokens'], [
        ('__len__', 'size', ['_action', 'states']),
        ('states', 'keys', ['_action']), ('tokens', 'either', ['_reverse']),
        ('__getitem__', 'lookup', ['_action']),
        ('reverse', 'lookup', ['_reverse'])]),
    ('medium', 'LabeledGraphMedium', ['_action', '_reverse', 'states',
                                      'tokens'], [
        ('__len__', 'size', ['_action', 'states']),
        ('states', 'keys', ['_action']), ('tokens', 'either', ['_reverse']),
        ('reverse', 'lookup', ['_reverse'])]),
    ('medium', 'BitvectorMedium', ['_states', '_veclen'], [
        ('states', 'keys', ['_states']), ('_states', 'holds', ['states'])]),
    ('strong_connectivity', 'StronglyConnectedComponents',
     ['_components', '_graph'], [
         ('__len__', 'size', ['_components']),
         ('__iter__', 'keys', ['_components'])]),
    ('biconnectivity', 'BiconnectedComponents', ['_components'], [
        ('__iter__', 'keys', ['_components'])]),
    ('frequencyestimator', 'FrequencyEstimator', ['_counts', '_howmany',
                                                  '_total'], [
        ('__iter__', 'keys', ['_counts'])]),
    ('repetitivity', 'NonrepetitiveGraph', ['labels', 'nrg', 'forward'], [
        ('__iter__', 'keys', ['labels']),
        ('__contains__', 'member', ['labels']),
        ('__getitem__', 'lookup', ['labels'])]),
    ('lca', 'RangeMin', ['_data', '_lca', '_rrm'], [
        ('__len__', 'size', ['_data']), ('_data', 'holds', ['X'])]),
    ('lca', 'RestrictedRangeMin', ['_data', '_blocks', '_prefix', '_suffix',
                                   '_blockrange'], [
        ('__len__', 'size', ['_data']), ('_data', 'holds', ['X'])]),
    ('lca', 'PrecomputedRangeMin', ['_minima'], [
        ('__len__', 'size', ['_minima'])]),
    ('lca', 'LogarithmicRangeMin', ['_minima'], [
        ('__len__', 'size', ['_minima[0]'])]),
    ('automata', 'FiniteAutomaton', ['states'], [
        ('__len__', 'size', ['states'])]),
    ('integer_heap', 'BitVectorHeap', ['_S'], [
        ('__bool__', 'number', ['_S']), ('__nonzero__', 'number', ['_S'])]),
    ('integer_heap', 'FlatHeap', ['_min'], [
        ('__bool__', 'present', ['_min']),
        ('__nonzero__', 'present', ['_min'])]),
    ('integer_heap', 'LinearHeap', ['_S'], [
        ('__bool__', 'truth', ['_S']), ('__nonzero__', 'truth', ['_S'])]),
]

COPY = ('list', 'tuple', 'sorted', 'iter', 'set', 'frozenset', 'reversed',
        'deque')
PARTS = ('islice', 'filter', 'takewhile', 'dropwhile', 'compress',
         'filterfalse')


class Bad(Exception):
    pass


def mentions(t, kinds):
    return isinstance(t, tuple) and (
        t[:1] and t[0] in kinds or any(mentions(x, kinds) for x in t))


class Contents:
    def __init__(self, src, module, cls, fields, rep=None):
        self.src, self.module, self.cls = src, module, cls
        self.fields, self.rep = fields, rep

    def note(self, what):
        if self.rep:
            self.rep.count(what)

    def run(self, m):
        fn, c = self.src.need(self.module, '%s.%s' % (self.cls, m))
        g = gvn.GVN(self.src.resolver(self.module, self.cls))
        g.run(fn, cls=c)
        self.ps = [('p', a.arg) for a in fn.args.args[1:]]
        return g

    # ----------------------------------------------------------- sources
    def source(self, t, view='keys'):
        """(table, view) that a collection comes from."""
        k = t[0] if isinstance(t, tuple) and t else None
        if k in ('phi',):
            return self.source(t[2], view)
        if k == 'after' and all(x[:1] == ('havoc',) for x in t[2:]):
            return self.source(t[1], view)
        if t == SELF:
            return 'self', view
        if k == 'p':
            return t[1], view
        if k == 'fld' and t[1] == SELF:
            return t[2], view
        if k == 'app' and len(t) == 2 and t[1][:2] == ('fld', SELF):
            return t[1][2], view
        if k == 'idx' and t[1][:2] == ('fld', SELF) and t[2][:1] == ('c',):
            return '%s[%s]' % (t[1][2], t[2][1]), view
        if k == 'keys':
            return self.source(t[1], view)
        if k in ('values', 'items'):
            return self.source(t[1], k)
        if k == 'mcall' and len(t) == 3:
            if t[1] in ('keys', '__iter__', 'copy', 'iterkeys'):
                return self.source(t[2], view)
            if t[1] in ('values', 'itervalues'):
                return self.source(t[2], 'values')
            if t[1] in ('items', 'iteritems'):
                return self.source(t[2], 'items')
            if t[1] == 'states':
                if t[2] == ('app', ('fld', SELF, 'asDFA')):
                    raise Bad('looks at a converted automaton')
                return 'states', view
        if k == 'call' and t[1] in COPY and len(t) == 3:
            got = self.source(t[2], view)
            if t[1] in ('set', 'frozenset') and got[1] == 'values':
                raise Bad('takes equal values for one')
            return got
        if k == 'call' and t[1] in PARTS:
            for x in t[2:]:
                if self.safe(x):
                    raise Bad('leaves some of %s out' % self.safe(x))
        if k == 'new' and t[2][:1] == ('from',):
            got = self.source(t[2][1], view)
            if t[1] in ('set', 'frozenset') and got[1] == 'values':
                raise Bad('takes equal values for one')
            return got
        if k == 'new' and t[2][:1] == ('comp',):
            return self.source(t[2], view)
        if k == 'comp' and len(t[2]) == 1 and len(t[3]) == 1:
            gen, cond = t[3][0]
            got = self.source(gen, view)
            if cond != TRUE:
                if mentions(cond, ('el',)):
                    raise Bad('leaves some of %s out' % got[0])
                raise Unknown('condition')
            if t[2][0][:1] != ('el',) or t[2][0][2] != gen:
                raise Unknown('element')
            return got
        if k == 'slice':
            got = self.source(t[1], view)
            if any(x != NONE for x in t[2:4]) or t[4] not in (
                    NONE, ('c', 1), ('c', -1)):
                raise Bad('leaves some of %s out' % got[0])
            return got
        if k == 'ite' and t[2] in t[1] and t[1][0] == 'truth':
            # one table, or another when it is empty
            a, b = self.source(t[2], view), self.source(t[3], view)
            if a != b and a[0] in self.fields and b[0] in self.fields:
                raise Bad('looks at %s when it is not empty and at %s '
                          'otherwise' % (a[0], b[0]))
        raise Unknown(show(t))

    def safe(self, t):
        try:
            return self.source(t)[0]
        except (Unknown, Bad):
            return None

    def judge(self, got, allowed):
        if got in allowed or got == 'self':
            return
        if got.split('[')[0] in self.fields:
            raise Bad('looks at %s instead of %s' % (got, ' or '.join(allowed)))
        raise Unknown(got)

    # --------------------------------------------------------- questions
    def size(self, t, allowed):
        k = t[0] if t else None
        if k == 'len' or t[:2] == ('mcall', '__len__') and len(t) == 3:
            return self.judge(self.source(t[-1])[0], allowed)
        if k == 'c':
            raise Bad('is the constant %s' % show(t))
        if t[:2] == ('call', 'sum') and t[2][:1] == ('comp',) and \
                len(t[2][3]) == 1:
            gen, cond = t[2][3][0]
            got = self.source(gen)[0]
            if cond != TRUE and mentions(cond, ('el',)):
                raise Bad('counts only some of %s' % got)
            if t[2][2] == (('c', 1),) and cond == TRUE:
                return self.judge(got, allowed)
            raise Unknown(show(t))
        if k == 'exit' and len(t) == 4 and len(t[2]) == 1 and \
                t[2][0][0] == 'for':
            got = self.source(t[2][0][1])[0]
            if t[1][:1] == ('c',) and t[3][:1] == ('ite',) and \
                    mentions(t[3][1], ('el',)):
                raise Bad('counts only some of %s' % got)
            if t[1][:1] == ('c',) and t[3][:1] == ('+',) and \
                    len(t[3]) == 3 and t[3][1][:1] == ('c',) and \
                    t[3][2][:1] == ('phi',) and t[3][2][2] == t[1]:
                if t[1][1] != 0 or t[3][1][1] != 1:
                    raise Bad('counts %s wrongly' % got)
                return self.judge(got, allowed)
            raise Unknown(show(t))
        if k in ('+', '*', '-', '//', '>>', '<<') and any(
                x[:1] == ('c',) for x in t[1:]) and len(t) == 3:
            rest = [x for x in t[1:] if x[:1] != ('c',)]
            if len(rest) == 1:
                try:
                    self.size(rest[0], allowed)
                except Bad:
                    raise Unknown(show(t))
                raise Bad('differs from the number kept')
        if k == 'call' and t[1] in ('max', 'min') and any(
                x[:1] == ('c',) and x[1] for x in t[2:]):
            raise Bad('differs from the number kept')
        raise Unknown(show(t))

    def member(self, t, allowed):
        if t[:1] == ('in',) and t[1] in self.ps:
            return self.judge(self.source(t[2])[0], allowed)
        if t[:1] == ('not',) and t[1][:1] == ('in',) and t[1][1] in self.ps:
            raise Bad('is negated')
        if t[:1] == ('c',):
            raise Bad('is the constant %s' % show(t))
        if t[:1] == ('and',) and any(x[:1] == ('in',) for x in t[1:]) and \
                any(x[:1] == ('truth',) and x[1][:1] == ('idx',)
                    and x[1][2] in self.ps for x in t[1:]):
            raise Bad('denies items whose entry is false')
        if t[:1] == ('ite',) and t[1][:1] == ('in',) and \
                t[2][:1] == ('idx',) and t[2][2] in self.ps and \
                t[3][:1] == ('c',) and not t[3][1]:
            raise Bad('denies items whose entry is false')
        if t[:2] == ('call', 'any') and t[2][:1] == ('comp',) and \
                len(t[2][3]) == 1 and t[2][2][0][:1] == ('in',) and \
                t[2][2][0][1] in self.ps and \
                t[2][2][0][2][:1] == ('el',) and \
                t[2][2][0][2][2][:1] == ('keys',):
            raise Bad('looks inside the keys of a table')
        if t[:1] == ('truth',) and t[1][:1] == ('idx',):
            raise Bad('fails or denies items whose entry is false')
        raise Unknown(show(t))

    def lookup(self, t, allowed):
        if t[:1] == ('idx',) and t[2] in self.ps:
            return self.judge(self.source(t[1])[0], allowed)
        if t[:1] == ('ite',) and t[1][:1] == ('in',) and t[1][1] in self.ps \
                and t[2][:1] == ('idx',) and t[2][2] == t[1][1] and \
                self.safe(t[2][1]) in allowed and \
                t[3][:1] in (('c',), ('p',), ('new',), ('tuple',)):
            raise Bad('makes up %s for what is missing' % show(t[3]))
        if t[:1] in (('c',), ('p',)):
            raise Bad('is always %s' % show(t))
        raise Unknown(show(t))

    def truth(self, t, allowed):
        if t[:1] == ('truth',):
            return self.judge(self.source(t[1])[0], allowed)
        self.untrue(t)
        if t[:1] == ('not',) and t[1][:2] == ('is', NONE) and \
                self.safe(t[1][2]) in allowed:
            raise Bad('is true of an empty collection')
        if self.several(t) in allowed:
            raise Bad('is false of a collection that is not empty')
        raise Unknown(show(t))

    def number(self, t, allowed):
        if t[:1] == ('truth',):
            return self.judge(self.source(t[1])[0], allowed)
        if t[:1] == ('not',) and t[1][:2] == ('eq', ('c', 0)):
            return self.judge(self.source(t[1][2])[0], allowed)
        if t[:1] == ('lt',) and t[1][:1] == ('c',) and \
                self.safe(t[2]) in allowed:
            if t[1][1] > 0:
                raise Bad('is false of a collection that is not empty')
            if t[1][1] < 0:
                raise Bad('is true of an empty collection')
            return None
        if t[:1] == ('not',) and t[1][:1] == ('lt',) and \
                t[1][2][:1] == ('c',) and self.safe(t[1][1]) in allowed:
            if t[1][2][1] > 1:
                raise Bad('is false of a collection that is not empty')
            if t[1][2][1] < 1:
                raise Bad('is true of an empty collection')
            return None
        self.untrue(t)
        if t[:1] == ('not',) and t[1][:2] == ('is', NONE) and \
                self.safe(t[1][2]) in allowed:
            raise Bad('is true of an empty collection')
        raise Unknown(show(t))

    def present(self, t, allowed):
        if t[:1] == ('not',) and t[1][:2] == ('is', NONE):
            return self.judge(self.source(t[1][2])[0], allowed)
        if t[:1] == ('not',) and t[1][:1] == ('eq',) and NONE in t[1][1:]:
            return None
        if t[:1] in (('truth',), ('lt',)) and self.safe(t[-1]) in allowed or \
                t[:1] == ('not',) and t[1][:2] == ('eq', ('c', 0)) and \
                self.safe(t[1][2]) in allowed:
            raise Bad('takes the item 0 for an empty collection')
        self.untrue(t)
        raise Unknown(show(t))

    def untrue(self, t):
        if t[:1] == ('c',):
            raise Bad('is the constant %s' % show(t))
        if t[:1] == ('not',) and t[1][:1] == ('truth',) or \
                t[:2] in (('is', NONE), ('eq', ('c', 0))):
            raise Bad('is negated')

    def iterated(self, g, view, allowed):
        out = [e for e in g.log if e.op in ('yield', 'yieldall')]
        if not out:
            for r in g.returns:
                got, v = self.source(r[2])
                self.judge(got, allowed)
                if v != view and (view != 'either' or v == 'items'):
                    raise Bad('goes through the %s of %s' % (v, got))
            return
        for e in out:
            if e.op == 'yieldall':
                if e.loops:
                    raise Unknown('loop')
                t = e.val
            else:
                if len(e.loops) != 1 or e.loops[0][0] != 'for':
                    raise Unknown('loop')
                t = e.loops[0][1]
                if t[:1] == ('pos',):
                    t = ('keys', t[1])
                if e.val[:1] != ('el',) or e.val[2] != t:
                    raise Unknown('element')
            got, v = self.source(t)
            self.judge(got, allowed)
            if v != view and (view != 'either' or v == 'items'):
                raise Bad('goes through the %s of %s' % (v, got))
            if e.guards and len(out) == 1:
                if any(mentions(x, ('el', 'phi')) for x in e.guards):
                    raise Bad('leaves some of %s out' % got)
                raise Unknown('guard')

    def walk(self, g, allowed):
        """A walk around the circle from the first item."""
        out = [e for e in g.log if e.op == 'yield']
        if len(out) != 1 or len(out[0].loops) != 1:
            raise Unknown('walk')
        e = out[0]
        at = [t for t in phis(e.val)]
        if len(at) != 1:
            raise Unknown('walk')
        x = at[0]
        if self.safe(x[2]) != '_first':
            if e.val in (x, self.item(x)) and x[2][:1] == ('idx',) and \
                    self.safe(x[2][1]) in allowed and \
                    self.safe(x[2][2]) == '_first':
                raise Bad('does not start with the first item')
            raise Unknown('walk')
        core = e.val
        if core[:1] == ('ite',) and core[1][:1] == ('in',):
            core = core[1][1]
        if core[:1] == ('idx',) and self.safe(core[1]) == '_items':
            core = core[2]
        if core[:1] == ('idx',) and self.safe(core[1]) in allowed and \
                core[2] == x:
            raise Bad('does not start with the first item')
        if core != x:
            raise Unknown('walk')
        for c in e.guards:
            if c == ('truth', ('fld', SELF, '_next')) or c == (
                    'truth', ('fld', SELF, '_prev')) or c == TRUE:
                continue
            if self.several(c):
                raise Bad('leaves out a single item')
            if c[:2] == ('not', ('eq', x, ('fld', SELF, '_first'))) or \
                    c[:1] == ('not',) and c[1][:1] == ('eq',) and \
                    x in c[1][1:] and any(self.safe(y) == '_first'
                                          and y != x for y in c[1][1:]):
                raise Bad('ends before the first item')
            raise Unknown('walk')
        for phi, values in g.steps:
            if phi == x and any(self.strides(v, x, allowed) > 1
                                for v in values):
                raise Bad('passes over items')
        for r in g.returns:
            if len(r[1]) == 1:
                for c in r[0]:
                    if c[:1] == ('eq',) and any(
                            self.safe(y) == '_first' and y != x
                            for y in c[1:]) and any(
                                self.strides(y, x, allowed) > 1
                                for y in c[1:]):
                        raise Bad('ends before the last item')

    def item(self, x):
        i = ('fld', SELF, '_items')
        return ('ite', ('in', x, i), ('idx', i, x), x)

    def strides(self, t, x, allowed):
        n = 0
        while t[:1] == ('idx',) and self.safe(t[1]) in allowed:
            t, n = t[2], n + 1
        return n if t == x else 0

    def several(self, c):
        """Is there more than one?"""
        if c[:1] == ('lt',) and c[1][:1] == ('c',) and c[1][1] >= 1 and \
                c[2][:1] == ('len',):
            return self.safe(c[2][1])
        if c[:2] == ('not', c[1]) and c[1][:1] == ('lt',) and \
                c[1][2][:1] == ('c',) and c[1][2][1] >= 2 and \
                c[1][1][:1] == ('len',):
            return self.safe(c[1][1][1])
        return None

    def drain(self, g, allowed):
        """Takes the items out one by one until there are none."""
        out = [e for e in g.log if e.op == 'yield']
        if len(out) != 1 or not out[0].loops or out[0].loops[0][0] != 'while':
            raise Unknown('loop')
        c = out[0].loops[0][1]
        if c[:1] == ('truth',):
            return self.judge(self.source(c[1])[0], allowed)
        if self.several(c) in allowed:
            raise Bad('leaves some items behind')
        raise Unknown('loop')

    def holds(self, field, allowed):
        """The table is filled with all that was given."""
        g = self.run('__init__')
        got = [e for e in g.log if e.op == 'field' and e.base == SELF
               and e.key == ('f', field)]
        if len(got) != 1 or got[0].guards:
            raise Unknown('several')
        if self.source(got[0].val)[0] not in allowed:
            raise Unknown('source')

    def ask(self, m, question, allowed):
        if question == 'holds':
            return self.holds(m, allowed)
        if m not in self.src.methods(self.module, self.cls):
            raise Unknown('inherited')
        g = self.run(m)
        if g.opaque:
            raise Unknown('opaque')
        if question in ('keys', 'values', 'either'):
            return self.iterated(g, question, allowed)
        if question in ('walk', 'drain'):
            return getattr(self, question)(g, allowed)
        for guards, loops, t, node, n in g.returns:
            if t == ('c', 0) and question == 'size' and guards and \
                    guards[-1][:2] == ('not', guards[-1][1]) and \
                    guards[-1][1][:1] == ('truth',) and \
                    self.safe(guards[-1][1][1]) in allowed:
                continue
            if loops or guards and t[:1] == ('c',) and question != 'size':
                raise Unknown('several')
            getattr(self, question)(t, allowed)
        return None

    def problems(self, questions):
        for m, question, allowed in questions:
            self.note('questions asked')
            try:
                self.ask(m, question, allowed)
            except Bad as e:
                self.note('questions answered')
                yield m, '%s of %s %s' % (m, self.cls, e)
            except Unknown:
                self.note('questions not understood')
            else:
                self.note('questions answered')


def phis(t):
    found = []

    def go(t):
        if isinstance(t, tuple):
            if t[:1] == ('phi',):
                if t not in found:
                    found.append(t)
                return
            for x in t:
                go(x)
    go(t)
    return found


def example_problems(src, module, cls):
    return Contents(src, module, cls, ['_D', '_Q', '_L']).problems([
        ('__len__', 'size', ['_D']), ('__contains__', 'member', ['_D']),
        ('__getitem__', 'lookup', ['_D']), ('__iter__', 'keys', ['_D']),
        ('__bool__', 'truth', ['_D']), ('_D', 'holds', ['items'])])


def check_c30(tier):
    rep = Report()
    src = lang.Source()
    for module, cls, fields, questions in CONTAINERS:
        rep.count('classes analysed')
        for m, p in Contents(src, module, cls, fields, rep).problems(
                questions):
            at = m if m in src.methods(module, cls) else '__init__'
            rep.add('contents', '%s.%s.%s' % (module, cls, m), p[:60], p,
                    line=src.need(module, cls + '.' + at)[0].lineno)
    # the tables that answer the questions are themselves kept in agreement
    mine = {(m, c) for m, c, f, q in CONTAINERS}
    for module, cls, rule in props_d.STRUCTURES:
        if (module, cls) in mine and module in (
                'bucketqueue', 'partition_refinement', 'sorted_set',
                'union_find'):
            for m, p in rule(src, module, cls, rep).problems():
                rep.add('contents', '%s.%s.%s' % (module, cls, m), p[:60], p,
                        line=src.need(module, cls + '.' + m)[0].lineno)
    for m, p in sorted(set(props_c.sequence_problems(
            src, 'sequence', 'Sequence', rep))):
        rep.add('contents', 'sequence.Sequence.%s' % m, p[:60], p,
                line=src.need('sequence', 'Sequence.' + m)[0].lineno)
    rep.need('classes analysed', len(CONTAINERS))
    rep.need('questions asked', 40)
    rep.need('questions answered', 15)
    rule_examples(rep, example_problems, 'contents',
                  ['Good', 'GoodLoops', 'GoodViews'],
                  ['BadSize', 'BadCount', 'BadMember', 'BadLookup', 'BadSlice',
                   'BadFilter', 'BadTruth', 'BadView', 'BadCopy', 'BadTable'])
    rep.explanation = (
        'Every protocol method of the containers is value numbered and its '
        'value traced back to the table it comes from; a length, iteration, '
        'membership test, lookup or truth value that comes from another '
        'table, or from a part of the table, is reported, and so are updates '
        'after which the tables disagree.')
    rep.assumptions.append('methods that could not be traced to a table are '
                           'counted and not judged')
    return rep
