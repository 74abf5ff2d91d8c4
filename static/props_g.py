"""C15: operations on bit vectors as functions of one bit position."""
import itertools

import bits
import gvn
import lang
from gvn import Unknown, show
from props_c import SELF, cases, consistent, rule_examples, settle
from report import Report
from scopes import AnalysisError

ONE = ('c', 1)


def power(t):
    """x when t is the mask of element x."""
    if t[0] == '<<' and t[1] == ONE:
        return t[2]
    if t[0] == '**' and t[1] == ('c', 2):
        return t[2]
    if t[0] == 'call' and t[1] == 'pow' and len(t) == 4 and \
            t[2] == ('c', 2):
        return t[3]
    return None


def offset(e, x):
    """c when e is x + c."""
    if e == x:
        return 0
    if e[0] == '+' and len(e) == 3 and e[1][0] == 'c' and e[2] == x:
        return e[1][1]
    if e[0] == '+' and len(e) == 3 and e[2][0] == 'c' and e[1] == x:
        return e[2][1]
    return None


def exponent(t):
    """e when t is 1 << e, also written 2 << x."""
    x = power(t)
    if x is None and t[0] == '<<' and t[1][0] == 'c' and \
            t[1][1] in (2, 4, 8):
        return gvn.binary('+', t[2], ('c', t[1][1].bit_length() - 1))
    return x


class NotUnderstood(Exception):
    pass


class Bit:
    """Compares a term with what should become of each bit of S.

    At one position a term is a function of the bits of the named terms, of
    the place of the position with respect to the addressed element (below,
    at, just above, further above), and of bits that nothing is known of."""

    def __init__(self, S, named, x=None, asg=()):
        self.S = S
        self.named = named
        self.x = x
        self.zero = False
        self.has = None
        self.within = set()
        asg = dict(asg)
        for a, v in asg.items():
            a = settle(a, asg)
            if a == ('truth', S) and not v or v and a[0] == 'eq' and \
                    S in a[1:] and ('c', 0) in a[1:]:
                self.zero = True
            elif x is not None:
                try:
                    r = self.test(a)
                except NotUnderstood:
                    r = None
                if r is not None:
                    self.has = v == r
            if v and a[0] == 'eq':
                for m in a[1:]:
                    for t in a[1:]:
                        if t[:1] == ('&',) and set(t[1:]) == {S, m}:
                            self.within.add(m)

    def leaf(self, t):
        if t in self.named:
            return self.named[t]
        x = self.x
        if x is not None:
            e = exponent(t)
            if e is not None:
                c = offset(e, x)
                return ('at', c) if c is not None else ('free', t)
            if t[0] == '+' and len(t) == 3 and ('c', -1) in t[1:]:
                o = t[1] if t[2] == ('c', -1) else t[2]
                e = exponent(o)
                c = None if e is None else offset(e, x)
                if c is not None:
                    return ('below', c)
                if o == self.S:
                    return ('free', t)
            if t[0] == '<<' and t[1][0] == '>>' and t[1][2] == t[2]:
                c = offset(t[2], x)
                if c is not None and t[1][1] == self.S:
                    return ('from', c)
            if t == x:
                return ('free', t)
        if t[0] == 'phi':
            return self.leaf(t[2])
        if t[0] == 'p' or t[0] == 'c' and type(t[1]) is int and \
                t[1] not in (0, -1):
            return ('free', t)
        return None

    def plain(self, t):
        """Additions and subtractions of single bits as bit operations."""
        m = None
        if t[0] == '+' and len(t) == 3 and self.S in t[1:]:
            m = t[1] if t[2] == self.S else t[2]
        elif t[0] == '-' and len(t) == 3 and t[1] == self.S:
            m = ('neg', t[2])
        if m is None or m == ('c', -1):
            return t
        down = m[0] == 'neg'
        m = m[1] if down else m
        if down and m[:1] == ('&',) and self.S in m[1:]:
            return t
        if self.x is not None and power(m) == self.x:
            if not down and (self.has is False or self.zero):
                return ('|', self.S, m)
            if down and self.has:
                return ('&', self.S, ('~', m))
            return None
        if m in self.named:
            if down and m in self.within:
                return ('&', self.S, ('~', m))
            return None
        return t

    def rows(self, *ts):
        names = list(dict.fromkeys(self.named.values()))
        found = []
        for t in ts:
            bits.leaves(t, found, self.leaf)
        free = []
        for n in found:
            if n in names or n[0] in ('at', 'below', 'from'):
                continue
            if n[0] != 'free':
                raise NotUnderstood(show(ts[0]))
            free.append(n)
        if len(free) > 4:
            raise NotUnderstood(show(ts[0]))
        places = [-2, -1, 0, 1, 2] if self.x is not None else [None]
        places += sorted({n[1] for n in found if n[0] in
                          ('at', 'below', 'from')} - set(places))
        for v in itertools.product((False, True),
                                   repeat=len(names) + len(free)):
            for j in places:
                row = dict(zip(names + free, v))
                row['x'] = j == 0
                old = row.get(self.named.get(self.S))
                if self.zero and old or j == 0 and self.has is not None \
                        and old != self.has:
                    continue
                for n in found:
                    if n[0] == 'at':
                        row[n] = j == n[1]
                    elif n[0] == 'below':
                        row[n] = j < n[1]
                    elif n[0] == 'from':
                        row[n] = j >= n[1] and old
                yield row

    def same(self, t, spec):
        """Is the bit of t always spec(row)?"""
        t = self.plain(t)
        if t is None:
            return False
        return all(bool(bits.bit(t, row, self.leaf)) == bool(spec(row))
                   for row in self.rows(t))

    def test(self, a):
        """True when the condition says that the addressed bit of S is set,
        False when it says that it is not, None when it says something
        else."""
        if a[0] == 'not':
            r = self.test(a[1])
            return None if r is None else not r
        if a[0] in ('eq', 'truth', 'lt'):
            one = [t for t in a[1:] if t != ONE and t != ('c', 0)]
            if len(one) == 1 and one[0][:1] == ('&',) and \
                    set(one[0][1:]) == {('>>', self.S, self.x), ONE}:
                if a[0] == 'eq':
                    return ONE in a[1:]
                if a[0] == 'truth' or a[1] == ('c', 0):
                    return True
        if a[0] == 'truth' or a[0] == 'lt' and a[1] == ('c', 0):
            t = a[-1]
            rows = [(r, bool(bits.bit(t, r, self.leaf)))
                    for r in self.rows(t)]
            if any(v for r, v in rows if not r['x']):
                return None
            rows = [(r, v) for r, v in rows if r['x']]
        elif a[0] == 'eq':
            rows = [(r, bool(bits.bit(a[1], r, self.leaf)) ==
                     bool(bits.bit(a[2], r, self.leaf)))
                    for r in self.rows(a[1], a[2])]
            if any(not v for r, v in rows if not r['x']):
                return None
            rows = [(r, v) for r, v in rows if r['x']]
        elif a[0] == 'lt':
            list(self.rows(a[1], a[2]))
            return None
        else:
            raise NotUnderstood(show(a))
        old = self.named[self.S]
        if all(v == r[old] for r, v in rows):
            return True
        if all(v != r[old] for r, v in rows):
            return False
        return None


def run(src, module, name, keep=()):
    cls = name.split('.')[0] if '.' in name else None
    fn, c = src.need(module, name)
    g = gvn.GVN(src.resolver(module, cls, keep=keep))
    g.pure_names = tuple(keep)
    return fn, g.run(fn, cls=c)


def params(fn, n):
    """The terms of the parameters after self."""
    names = [a.arg for a in fn.args.args][1:]
    if len(names) < n:
        raise NotUnderstood('parameters')
    return [('p', x) for x in names[:n]]


def set_bit(row):
    return row['old'] or row['x']


def clear_bit(row):
    return row['old'] and not row['x']


def field_update(src, module, name, field, spec, note):
    """The method gives one field the bits that spec says."""
    fn, g = run(src, module, name)
    x, = params(fn, 1)
    S = ('fld', SELF, field)
    cs = cases(g)
    if cs is None:
        raise NotUnderstood('conditions')
    for c in cs:
        new = S
        for e in c.entries:
            if e.op == 'field' and e.base == SELF and e.key == ('f', field):
                if e.loops:
                    raise NotUnderstood('loop')
                new = e.val
            elif e.op == 'field' and e.base == SELF and note and \
                    e.key == ('f', '__dict__'):
                raise NotUnderstood('dict')
        note('cases compared')
        b = Bit(S, {S: 'old'}, x, c.asg)
        if not b.same(new, spec):
            yield fn.lineno, 'stores %s' % show(new)


def vector_fields(src, module, cname):
    """The integer fields a constructor starts at zero."""
    fn, g = run(src, module, cname + '.__init__')
    out = [e.key[1] for e in g.log if e.op == 'field' and e.base == SELF and
           e.val == ('c', 0)]
    if not out:
        raise AnalysisError('%s.%s has no bit vector' % (module, cname))
    return out[0]


def heap(src, module, cname, note):
    f = vector_fields(src, module, cname)
    for name, spec in (('add', set_bit), ('remove', clear_bit)):
        for p in guarded(field_update(src, module, '%s.%s' % (cname, name),
                                      f, spec, note), note):
            yield ('%s.%s' % (cname, name),) + p


def guarded(it, note):
    try:
        for p in it:
            yield p
    except (Unknown, NotUnderstood):
        note('operations not understood')


def medium(src, module, cname, note):
    """Setting bit i to b, when that gives one of the states."""
    def problems():
        fn, g = run(src, module, cname + '.action')
        S, t = params(fn, 2)
        i, b = ('part', t, 0), ('part', t, 1)
        if any(mention(r[2], ('idx', t, ('c', 0))) for r in g.returns):
            i, b = ('idx', t, ('c', 0)), ('idx', t, ('c', 1))
        for guards, loops, v, node, n in g.returns:
            if loops:
                raise NotUnderstood('loop')
            atoms = []
            for c in guards:
                gvn.atoms_of(c, atoms)
            gvn.gate_atoms(v, atoms)
            if len(atoms) > 8:
                raise NotUnderstood('conditions')
            for asg in assignments(atoms, guards):
                note('cases compared')
                r = settle(v, asg)
                on = value_of(asg, b)
                bit = Bit(S, {S: 'old'}, i, asg)
                states = [settle(a, asg) for a, x in asg.items()
                          if a[0] == 'in' and x]
                barred = [settle(a, asg) for a, x in asg.items()
                          if a[0] == 'in' and not x]
                if r == S:
                    if barred or on is not None and \
                            bit.has is on:
                        continue
                    if states and on is not None and all(
                            bit.same(a[1], spec_for(on)) for a in states):
                        yield (node.lineno, 'leaves the vector unchanged '
                               'although the changed one is a state')
                        continue
                    raise NotUnderstood('result')
                if on is None:
                    if mention(r, b):
                        raise NotUnderstood('token')
                    yield (node.lineno,
                           'does not depend on the bit of the token')
                    continue
                if not bit.same(r, spec_for(on)):
                    yield node.lineno, 'returns %s' % show(r)
                elif not any(a[1] == r for a in states):
                    yield (node.lineno, 'returns a vector that need not be '
                           'a state')
    for p in guarded(problems(), note):
        yield (cname + '.action',) + p


def spec_for(on):
    return set_bit if on else clear_bit


def mention(t, x):
    return t == x or isinstance(t, tuple) and any(mention(y, x) for y in t)


def value_of(asg, b):
    for a, v in asg.items():
        if a == ('truth', b) or a == b:
            return v
        if a[0] in ('eq', 'is') and b in a[1:]:
            o = a[1] if a[2] == b else a[2]
            if o[0] == 'c' and o[1] in (0, 1, True, False):
                return v == bool(o[1])
    return None


def assignments(atoms, guards):
    for bs in itertools.product((True, False), repeat=len(atoms)):
        asg = dict(zip(atoms, bs))
        if all(gvn.value(c, asg) for c in guards) and consistent(asg):
            yield asg


def reachability(src, module, cname, note):
    """One bit per vertex; a vertex has its own bit and those of its
    successors."""
    def query():
        fn, g = run(src, module, cname + '.reachable')
        s, d = params(fn, 2)
        for guards, loops, v, node, n in g.returns:
            if guards or loops:
                raise NotUnderstood('query')
            note('cases compared')
            v = gvn.truth(v)
            found = None
            for R in fields(v):
                for K in fields(v):
                    for p, q in ((s, d), (d, s)):
                        S = ('idx', ('fld', SELF, R),
                             ('idx', ('fld', SELF, K), p))
                        x = ('idx', ('fld', SELF, K), q)
                        if v[0] == 'eq' and ('>>', S, x) in v[1:]:
                            yield node.lineno, 'compares more than the ' \
                                'bit of the destination'
                            return
                        if K != R and mention(v, S) and mention(v, x):
                            found = p == s, Bit(S, {S: 'old'}, x).test(v)
            if found is None:
                raise NotUnderstood('query')
            if not found[0]:
                yield node.lineno, 'tests the source in the other set'
            elif not found[1]:
                yield node.lineno, 'answers with %s' % show(v)

    def build():
        fn, g = run(src, module, cname + '.__init__')
        lists = {}
        for e in g.log:
            if e.op == 'append' and e.base[:2] == ('new', 'list'):
                lists.setdefault(e.base, []).append(e)
        keys = [e for e in g.log if e.op == 'put' and
                e.base[:2] == ('new', 'dict') and e.val[:1] == ('len',)]
        hit = False
        for R, es in lists.items():
            for e in es:
                parts = e.val[1:] if e.val[0] == '|' else (e.val,)
                sums = [x for x in parts if x[0] == 'exit']
                if len(sums) != 1:
                    continue
                first, body = sums[0][1], sums[0][-1]
                hit = True
                note('cases compared')
                single = [x for x in parts if x not in sums] + [first]
                if not keys:
                    raise NotUnderstood('numbering')
                own = [x for x in single for k in keys
                       if power(x) == k.val and stripped(k.val[1]) == R]
                rest = [x for x in single if x not in own and
                        x != ('c', 0)]
                if any(power(x) is None and x not in [k.val for k in keys]
                       for x in rest):
                    raise NotUnderstood('first bit')
                if rest or not own:
                    yield (e.node.lineno, 'starts with %s' %
                           ', '.join(map(show, single)))
                    continue
                accs = [x for x in terms(body) if x[0] == 'phi' and
                        x[2] == first]
                if not accs:
                    yield e.node.lineno, 'keeps only the last set'
                    continue
                if body[0] not in ('|', '^', '&', '+') or \
                        not set(accs) & set(body[1:]):
                    raise NotUnderstood('accumulation')
                if any(power(x) is not None for x in body[1:]
                       if x not in accs):
                    yield (e.node.lineno, 'adds the bit of a successor '
                           'and not its set')
                elif body[0] != '|':
                    yield e.node.lineno, 'combines sets with %s' % body[0]
        if not hit:
            raise NotUnderstood('construction')
    for p in guarded(query(), note):
        yield (cname + '.reachable',) + p
    for p in guarded(build(), note):
        yield (cname + '.__init__',) + p


def stripped(t):
    while t[:1] in (('after',), ('phi',)):
        t = t[1] if t[0] == 'after' else t[2]
    return t


def fields(t):
    out = []

    def walk(x):
        if isinstance(x, tuple):
            if x[:2] == ('fld', SELF) and x[2] not in out:
                out.append(x[2])
            for y in x:
                walk(y)
    walk(t)
    return out


def candidates(src, module, cname, note):
    """Masks of cells, one per digit."""
    sets = ('fld', SELF, 'locations')

    def unplace():
        fn, g = run(src, module, cname + '.unplace', ('log',))
        d, m = params(fn, 2)
        S = ('idx', sets, d)
        es = [e for e in g.log if e.op == 'put' and e.base == sets]
        if not es:
            yield fn.lineno, 'excludes nothing'
        for e in es:
            note('cases compared')
            if e.loops:
                raise NotUnderstood('loop')
            if e.key != d:
                yield (e.node.lineno,
                       'changes the candidates of %s' % show(e.key))
                continue
            b = Bit(S, {S: 'old', m: 'm'}, None,
                    {c: True for c in e.guards})
            if not b.same(e.val, lambda r: r['old'] and not r['m']):
                yield e.node.lineno, 'stores %s' % show(e.val)

    def place():
        fn, g = run(src, module, cname + '.place', ('log',))
        d, cell = params(fn, 2)
        es = [e for e in g.log if e.op == 'put' and e.base == sets]
        others = own = False
        for e in es:
            note('cases compared')
            S = ('idx', sets, e.key)
            a, z = sorted((e.key, d), key=gvn.key_of)
            same = True if e.key == d or ('eq', a, z) in e.guards else \
                False if ('not', ('eq', a, z)) in e.guards else None
            near = [x for x in terms(e.val) if x[0] == 'idx' and
                    x[1][0] == 'g']
            named = {S: 'old'}
            for x in near:
                if x[2] == cell:
                    named[x] = 'near'
                elif x[2] in (d, e.key):
                    named[x] = 'far'
                else:
                    raise NotUnderstood('mask')
            for asg in assignments(gates(e.val), ()):
                v = settle(e.val, asg)
                s = same
                for c, t in asg.items():
                    if c == ('eq', a, z):
                        s = t
                b = Bit(S, named, cell)
                if b.same(v, clear_bit):
                    if s is not False:
                        yield (e.node.lineno, 'excludes the digit from its '
                               'own cell')
                    others = True
                elif 'near' in named.values() and b.same(
                        v, lambda r: r['old'] and not r['near']):
                    if s is not True:
                        yield (e.node.lineno, 'excludes other digits from '
                               'the neighbours of the cell')
                    own = True
                else:
                    yield e.node.lineno, 'stores %s' % show(v)
        if not es:
            raise NotUnderstood('placement')
        if not others:
            yield fn.lineno, 'leaves the other digits in the cell'
        if not own:
            yield fn.lineno, 'leaves the digit in the neighbours'

    def choices():
        fn, g = run(src, module, cname + '.choices')
        cell, = params(fn, 1)
        for guards, loops, v, node, n in g.returns:
            if v[:1] != ('new',) or v[2][:2] != ('comp', 'seq') or \
                    len(v[2][3]) != 1:
                raise NotUnderstood('choices')
            note('cases compared')
            el, (it, cond) = v[2][2], v[2][3][0]
            if el[:1] and isinstance(el[0], tuple):
                el = el[0]
            S = ('idx', sets, el)
            if not Bit(S, {S: 'old'}, cell).test(cond):
                yield node.lineno, 'lists the digits with %s' % show(cond)
    for f in (unplace, place, choices):
        for p in guarded(f(), note):
            yield ('%s.%s' % (cname, f.__name__),) + p


def gates(t):
    out = []
    gvn.gate_atoms(t, out)
    return out


def terms(t):
    if isinstance(t, tuple) and t:
        if isinstance(t[0], str):
            yield t
        for x in t:
            for y in terms(x):
                yield y


VECTORS = [('integer_heap', 'BitVectorHeap', heap),
           ('medium', 'BitvectorMedium', medium),
           ('acyclic_reachability', 'Reachability', reachability),
           ('sudoku', 'Sudoku', candidates)]


def example(src, module, name):
    kind = {'Heap': heap, 'Medium': medium, 'Reach': reachability,
            'Cells': candidates}[name.split('_')[0]]
    return kind(src, module, name, lambda *a: None)


def check_c15(tier):
    rep = Report()
    rule_examples(rep, example, 'vectors',
                  ['Heap_good', 'Heap_test', 'Medium_good', 'Reach_good',
                   'Cells_good'],
                  ['Heap_xor', 'Heap_plus', 'Heap_index', 'Medium_xor',
                   'Reach_xor', 'Reach_swap', 'Cells_all'])
    src = lang.Source()
    for module, cname, kind in VECTORS:
        if cname not in src.defs(module):
            raise AnalysisError('%s.%s has vanished' % (module, cname))
        rep.count('structures examined')
        for where, line, what in kind(src, module, cname, rep.count):
            rep.add('C15', '%s.%s' % (module, where), what, what, line)
    rep.need('cases compared', 6)
    rep.explanation = (
        'Every operation on a bit vector is turned into a Boolean function '
        'of one bit position (the old bit, whether the position is the '
        'addressed one, the bits of the mask) for every combination of its '
        'conditions, and compared row by row with setting, clearing or '
        'testing the addressed bit.')
    return rep
