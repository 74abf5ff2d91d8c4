"""C14: copies of the same fact are changed together."""
import ast

import gvn
import lang
from gvn import NONE, show, Unknown
from props_c import SELF, cases, settle, rule_examples, Links
from report import Report
from scopes import AnalysisError


def fld(name):
    return ('fld', SELF, name)


def plain(t):
    """Contents at the start of an iteration stand for the contents."""
    while isinstance(t, tuple) and t[:1] == ('phi',):
        t = t[2]
    if not isinstance(t, tuple) or t[:1] == ('c',):
        return t
    if t[:1] == ('after',) and all(x[:1] == ('havoc',) for x in t[2:]):
        return plain(t[1])
    return tuple(plain(x) if isinstance(x, tuple) else x for x in t)


class Struct:
    """One class: its methods' effects, case by case."""

    def __init__(self, src, module, cls, rep=None):
        self.src, self.module, self.cls, self.rep = src, module, cls, rep
        self.fields()

    def note(self, what, n=1):
        if self.rep:
            self.rep.count(what, n)

    def run(self, m, keep=()):
        fn, c = self.src.need(self.module, '%s.%s' % (self.cls, m))
        g = gvn.GVN(self.src.resolver(self.module, self.cls, keep=keep))
        g.set_like = self.set_like
        return g.run(fn, cls=c)

    def set_like(self, t):
        return False

    def initial(self):
        """Fields and what the constructor puts there."""
        out = {}
        for e in self.run('__init__').log:
            if e.op == 'field' and e.base == SELF and not e.guards:
                out.setdefault(e.key[1], e.val)
        return out

    def returned(self, m):
        """Fields a method's results mention, the results' own base first."""
        out = []

        def walk(t):
            if isinstance(t, tuple):
                if t[:2] == ('fld', SELF) and t[2] not in out:
                    out.append(t[2])
                for x in t:
                    walk(x)
        try:
            g = self.run(m)
        except Unknown:
            return out
        for r in g.returns:
            walk(r[2])
        return out

    def pick(self, found, default):
        """A field found from its use, or the one of that name."""
        if len(found) == 1:
            return found[0]
        if default in found:
            return default
        known = self.initial()
        if default in known:
            return default
        raise AnalysisError('%s.%s has no field %s' % (self.module, self.cls,
                                                       default))

    def public(self):
        for m in self.src.methods(self.module, self.cls):
            if m.startswith('_') and not m.endswith('__'):
                continue
            yield m

    def kept(self, m):
        return ()

    def problems(self):
        shared = {}
        for k, v in self.initial().items():
            if v[:1] == ('new',):
                shared.setdefault(v, []).append(k)
        for v, ks in shared.items():
            if len(ks) > 1:
                yield '__init__', '%s are one and the same object' % (
                    ' and '.join(sorted(ks)))
        for m in self.public():
            if m in self.skip:
                continue
            try:
                g = self.run(m, self.kept(m))
            except Unknown:
                self.note('methods not understood')
                continue
            mine = [e for e in g.log if e.op not in ('call', 'yield', 'havoc')
                    and self.concerns(e)]
            if not mine:
                continue
            cs = None if g.opaque else cases(g, 12, mine)
            if cs is None:
                self.note('methods not understood')
                continue
            self.note('updating methods analysed')
            self.g, self.m = g, m
            for case in cs:
                self.learn(case)
                if any(v and a[:2] == ('is', NONE) and a[2][:1] == ('idx',)
                       and a[2][1][:2] == ('fld', SELF)
                       for a, v in self.facts(case)):
                    continue            # the tables do not hold None
                for e in case.entries:
                    e.base, e.key, e.val = [
                        x if x is None else self.same(plain(x))
                        for x in (e.base, e.key, e.val)]
                try:
                    found = list(self.case(case))
                except Unknown:
                    self.note('cases not understood')
                    continue
                self.note('cases analysed')
                for p in found:
                    yield m, p
            for p in self.method(g):
                yield m, p

    skip = ()

    def method(self, g):
        return ()

    def concerns(self, e):
        return any(n in repr((e.base, e.key)) for n in self.names)

    def learn(self, case):
        """Equations assumed in this case."""
        self.eqs = {}
        for a, v in case.asg.items():
            a = plain(settle(a, case.asg))
            if v and a[:1] == ('eq',):
                x, y = sorted(a[1:], key=lambda t: (len(repr(t)), repr(t)))
                if y[:1] != ('c',):
                    self.eqs[y] = x

    def same(self, t):
        if not isinstance(t, tuple) or t[:1] == ('c',):
            return t
        if t in self.eqs:
            return self.eqs[t]
        t = tuple(self.same(x) if isinstance(x, tuple) else x for x in t)
        return self.eqs.get(t, t)

    def facts(self, case):
        out = []
        for a, v in case.asg.items():
            a = plain(settle(a, case.asg))
            out.append((a, v))
            if a[:1] != ('eq',):
                b = self.same(a)
                if b != a:
                    out.append((b, v))
        return out

    def holds(self, case, t):
        for a, v in self.facts(case):
            if a == t:
                return v
        return None

    def emptied(self, case, base):
        """Was the container looked at after its last removal; is it
        empty?"""
        for a, v in self.facts(case):
            if a[:1] == ('truth',) and (
                    a[1] == base or a[1][:1] == ('after',) and
                    a[1][1] == base):
                return not v
        return None


# ------------------------------------------------------------ bucket queue
class Buckets(Struct):
    """item -> priority and priority -> bucket of items."""
    skip = ('__init__',)

    def fields(self):
        init = self.initial()
        dicts = [k for k, v in init.items() if v[:2] == ('new', 'dict')]
        self.D = self.pick([k for k in self.returned('__getitem__')
                            if k in dicts], '_D')
        self.Q = self.pick([k for k in dicts if k != self.D], '_Q')
        self.N = self.pick([k for k in init if k not in dicts], '_N')
        self.names = (self.D, self.Q, self.N)
        self.d, self.q, self.n = fld(self.D), fld(self.Q), fld(self.N)

    def home(self, t):
        """The bucket an item taken from a bucket has come from."""
        if t[:2] == ('idx', self.d):
            k = t[2]
            if k[:2] == ('call', 'next') and k[2][:2] == ('call', 'iter') \
                    and k[2][2][:2] == ('idx', self.q):
                return k[2][2][2]
            if k[:1] == ('popped',):
                b = k[1][1] if k[1][:1] == ('after',) else k[1]
                if b[:2] == ('idx', self.q):
                    return b[2]
        return self.same(t)

    def case(self, case):
        d, q = self.d, self.q
        final, start, inb = {}, {}, {}
        made = {}

        def begin(k):
            if k not in start:
                there = self.holds(case, ('in', k, d))
                start[k] = None if there is False else \
                    self.home(('idx', d, k))
                final[k] = start[k]
                inb[k] = [] if start[k] is None else [start[k]]

        def bucket(b):
            if b[:2] == ('idx', q):
                return self.home(b[2])
            if b in made:
                return self.home(made[b])
            raise Unknown('bucket')
        added = []
        emptied = []
        N = None
        for e in case.entries:
            if e.op == 'field':
                if e.key == ('f', self.N):
                    N = e.val
                else:
                    raise Unknown('table replaced')
            elif e.base == d:
                if e.op not in ('put', 'del', 'pop'):
                    raise Unknown(e.op)
                k = e.key or e.val
                begin(k)
                final[k] = e.val if e.op == 'put' else None
            elif e.base == q:
                if e.op == 'put':
                    made[e.val] = e.key
                    k = self.home(e.key)
                    if self.holds(case, ('in', e.key, q)) is not False and \
                            k not in emptied:
                        yield ('the bucket of %s is replaced though it may '
                               'have items' % show(e.key))
                    if e.val[:2] != ('new', 'set') or len(e.val[2]) > 1:
                        raise Unknown('bucket')
                elif e.op in ('del', 'pop'):
                    k = self.home(e.key if e.op == 'del' else
                                  e.val or e.key)
                    if self.emptied(case, ('idx', q, e.key)) is not True \
                            and self.emptied(case, ('idx', q, k)) is not True:
                        yield ('the bucket of %s is deleted though it may '
                               'have items' % show(e.key))
                    emptied.append(k)
                else:
                    raise Unknown(e.op)
            elif e.op in ('add', 'remove', 'discard', 'pop'):
                p = bucket(e.base)
                k = e.val
                begin(k)
                if e.op == 'add':
                    inb[k].append(p)
                    added.append((k, p))
                else:
                    if p not in inb[k]:
                        yield ('%s is removed from the bucket of %s, which '
                               'is not its own' % (show(k), show(p)))
                    else:
                        inb[k].remove(p)
                    if self.emptied(case, e.base) is None:
                        yield ('an empty bucket of %s can stay' % show(p))
            else:
                raise Unknown(e.op)
        for k in final:
            want = [] if final[k] is None else [final[k]]
            if sorted(set(inb[k]), key=repr) != want:
                yield ('%s is recorded with priority %s but kept in the '
                       'bucket of %s' % (
                           show(k), show(want[0]) if want else 'none',
                           ', '.join(show(x) for x in inb[k]) or 'none'))
        for k, p in added:
            if self.holds(case, ('in', p, q)) is True and N is None:
                continue                # bounded already
            if N is not None:
                if N != p and not (N[0] == 'call' and N[1] == 'min' and
                                   p in N[2:]):
                    yield 'the lower bound becomes %s' % show(N)
                continue
            low = self.holds(case, ('lt', p, self.n))
            le = self.holds(case, ('lt', self.n, p))
            full = [v for a, v in self.facts(case)
                    if a[:1] == ('truth',) and
                    (a[1] == q or a[1][:2] == ('after', q))]
            none = self.holds(case, ('is', NONE, self.n))
            if low is not False and le is not True:
                yield ('the lower bound is not compared with the new '
                       'priority %s' % show(p))
            elif True not in full and none is not False:
                yield ('the lower bound of an empty queue stays at its old '
                       'value')


# -------------------------------------------------------------- partition
class Partition(Struct):
    """element -> block and table of blocks."""

    def fields(self):
        init = self.initial()
        dicts = [k for k, v in init.items() if v[:2] == ('new', 'dict')]
        self.P = self.pick([k for k in self.returned('__getitem__')
                            if k in dicts], '_partition')
        self.S = self.pick([k for k in dicts if k != self.P], '_sets')
        self.names = (self.P, self.S, 'theset')
        self.p, self.s = fld(self.P), fld(self.S)

    def set_like(self, t):
        t = plain(t)
        return t[:1] == ('idx',) and t[1] in (fld('_partition'),
                                              fld('_sets')) or \
            t[:1] == ('el',) and isinstance(t[2], tuple) and \
            t[2][0] == 'values'

    def concerns(self, e):
        return Struct.concerns(self, e) or e.op in (
            'add', 'remove', 'discard', 'difference_update',
            'intersection_update')

    def case(self, case):
        if self.m == '__init__':
            yield from self.start(case)
            return
        p, s = self.p, self.s
        puts, blocks, gone, dels, members = [], [], [], [], []
        for e in case.entries:
            if e.op == 'field':
                raise Unknown('table replaced')
            if e.base == p:
                if e.op == 'put':
                    puts.append(e)
                elif e.op in ('del', 'pop'):
                    dels.append(e)
                else:
                    raise Unknown(e.op)
            elif e.base == s:
                if e.op == 'put':
                    blocks.append(e)
                elif e.op in ('del', 'pop'):
                    gone.append(e)
                else:
                    raise Unknown(e.op)
            else:
                members.append(e)
        whole = [e for e in puts if self.each(e.key) == e.val]
        single = [e for e in puts if e not in whole]
        for b in blocks:
            if b.key != ('call', 'id', b.val):
                yield 'a block is recorded under a key that is not its own'
            if not any(w.val == b.val for w in whole):
                yield ('a new block is recorded, but its elements are not '
                       'mapped to it')
            elif not self.leaves(b, members, gone):
                yield ('the elements of a new block stay in their old '
                       'block')
        for w in whole:
            if not any(b.val == w.val for b in blocks):
                yield ('elements are mapped to a block that is not '
                       'recorded')
        for g in gone:
            k = g.key if g.op == 'del' else g.val
            if not any(w.val[:2] == ('call', 'frozenset') and
                       ('call', 'id', w.val[2]) == k for w in blocks + whole):
                if not any(self.emptied(case, x) for x in
                           [k[2]] if k[:2] == ('call', 'id')):
                    raise Unknown('block removed')
        for x in single:
            if not any(m.op == 'add' and m.base == x.val and m.val == x.key
                       for m in members):
                yield ('%s is mapped to a block it is not put into'
                       % show(x.key))
        for x in dels:
            k = x.key if x.op == 'del' else x.val or x.key
            if not any(m.op in ('remove', 'discard') and
                       m.base == ('idx', p, k) and m.val == k
                       for m in members):
                yield ('%s is forgotten but stays in its block' % show(k))
        for m in members:
            if m.base[:1] == ('new',) or m.loops and \
                    m.base[:1] != ('idx',) and m.op == 'add':
                continue
            if m.op == 'add' and (m.base[:1] == ('p',) or
                                  m.base[:2] == ('idx', p)):
                if not any(x.key == m.val and x.val == m.base
                           for x in single):
                    yield ('%s is put into a block but not mapped to it'
                           % show(m.val))
                if m.base[:1] == ('p',) and self.holds(
                        case, ('in', ('call', 'id', m.base), s)) is not True:
                    yield ('%s is put into a set that may not be a block'
                           % show(m.val))
            elif m.op in ('remove', 'discard') and m.base[:2] == ('idx', p):
                k = m.val
                if not any((x.key if x.op == 'del' else x.val or x.key) == k
                           for x in dels) and not any(
                               x.key == k for x in puts) and not whole:
                    yield ('%s leaves its block but stays mapped to it'
                           % show(k))
            elif m.op == 'difference_update' and not any(
                    w.val == m.val for w in whole) and \
                    m.base[:1] == ('idx',):
                yield 'elements leave their block but stay mapped to it'

    def each(self, t):
        """the generic element of a collection -> the collection"""
        if t[:1] == ('el',) and t[2][:1] == ('keys',):
            return t[2][1]
        return None

    def leaves(self, b, members, gone):
        for m in members:
            if m.op == 'difference_update' and m.val == b.val:
                return True
            if m.op in ('remove', 'discard') and \
                    self.each(m.val) == b.val:
                return True
        if b.val[:2] == ('call', 'frozenset'):
            return any(('call', 'id', b.val[2]) == (
                g.key if g.op == 'del' else g.val) for g in gone)
        return False

    def start(self, case):
        vals = {e.key[1]: e.val for e in case.entries if e.op == 'field'}
        P, S = vals.get(self.P), vals.get(self.S)
        if P is None or S is None:
            yield 'a table is not set up'
            return
        if S[2][:1] != ('items',) or P[2][:2] != ('comp', 'map'):
            raise Unknown('start')
        if P[2][2][1] not in S[2][2::2]:
            yield ('elements are mapped to a block that is not recorded')
        for k, v in zip(S[2][1::2], S[2][2::2]):
            if k != ('call', 'id', v):
                yield 'a block is recorded under a key that is not its own'


# -------------------------------------------------------------- sorted set
class Pending(Struct):
    """membership, last listing, and the changes since then."""
    skip = ('__init__',)

    def fields(self):
        init = self.initial()
        sets = [k for k, v in init.items() if v[:2] == ('new', 'set')]
        self.M = self.pick([k for k in self.returned('__len__')
                            if k in sets], '_set')
        nones = [k for k, v in init.items() if v == NONE]
        self.V = self.pick(nones, '_previous')
        self.A, self.R = self.pending()
        self.names = (self.M, self.V, self.A, self.R)
        self.back, self.loose = [], []

    def problems(self):
        yield from Struct.problems(self)
        for m, x in self.back:
            for n in self.loose:
                yield m, ('the noted removal of %s is taken back though %s '
                          'may have noted it for an item that was not listed'
                          % (show(x), n))
                return

    def pending(self):
        """The two sets reset by the listing: the one it leaves out is
        that of the removals."""
        g = self.run('__iter__')
        reset = []
        text = ''
        for e in g.log:
            if e.op == 'field' and e.val[:2] == ('new', 'set') and \
                    e.key[1] not in reset:
                reset.append(e.key[1])
            if e.op == 'field' and e.key[1] == self.V:
                text = e.val
        out = set()

        def walk(t, inside):
            if isinstance(t, tuple):
                if t[:2] == ('fld', SELF) and inside:
                    out.add(t[2])
                for x in t:
                    walk(x, inside or t[:1] == ('not',))
        walk(text, False)
        R = [k for k in reset if k in out]
        A = [k for k in reset if k not in out]
        if len(R) == 1 and len(A) == 1:
            return A[0], R[0]
        return '_additions', '_removals'

    def case(self, case):
        M, V, A, R = [fld(x) for x in self.names]
        had = self.holds(case, ('truth', V))
        if had is None and self.holds(case, ('is', NONE, V)) is not None:
            had = not self.holds(case, ('is', NONE, V))
        did = {}
        fields = {}
        for e in case.entries:
            if e.op == 'field':
                fields[e.key[1]] = e.val
            elif e.base in (M, A, R):
                if e.op in ('clear',):
                    fields[e.base[2]] = ('new', 'set', ('empty',))
                    continue
                if e.op not in ('add', 'remove', 'discard'):
                    raise Unknown(e.op)
                op = 'add' if e.op == 'add' else 'remove'
                did.setdefault(e.val, []).append((e.base, op))
        for x, ops in did.items():
            put = (M, 'add') in ops
            out = (M, 'remove') in ops
            a, r = (A, 'add') in ops, (R, 'add') in ops
            da, dr = (A, 'remove') in ops, (R, 'remove') in ops
            if had is False:
                continue
            listed = self.holds(case, ('in', x, V))
            if r and self.holds(case, ('in', x, A)) is not False and \
                    listed is not True:
                self.loose.append(self.m)
            if dr and put and not a and self.holds(case, ('in', x, R)) and \
                    listed is not True:
                self.back.append((self.m, x))
            if dr and (not put or self.holds(case, ('in', x, R))):
                raise Unknown('removal taken back')
            if self.holds(case, ('in', x, A)) is False:
                da = True
            if put and not a:
                yield '%s is added but not noted for the listing' % show(x)
            elif put and not r and self.holds(case,
                                              ('in', x, M)) is not False:
                yield ('%s is noted as added though it may be listed '
                       'already' % show(x))
            if out and not r and self.holds(case, ('in', x, A)) is not True:
                yield '%s is removed but not noted for the listing' % show(x)
            if out and not da:
                yield ('%s is removed but a noted addition of it stays'
                       % show(x))
            if not put and not out:
                if a and not r:
                    yield ('%s is noted as added though it may be listed '
                           'already' % show(x))
                elif r and not a:
                    yield ('%s is noted as removed but stays a member'
                           % show(x))
                elif a and self.holds(case, ('in', x, M)) is not True:
                    yield ('%s is noted as added though it may not be a '
                           'member' % show(x))
                elif (A, 'remove') in ops and not a:
                    yield ('a noted addition of %s is dropped' % show(x))
        if self.V in fields:
            v = fields[self.V]
            seen = repr(v)
            for k, word in ((self.A, 'additions'), (self.R, 'removals')):
                n = fields.get(k)
                if n is None or n[:2] != ('new', 'set') or \
                        n[2][:1] != ('empty',):
                    yield 'the noted %s outlive the listing' % word
            if len(fields.get(self.A, ())) > 3 and \
                    fields[self.A] == fields.get(self.R):
                yield 'additions and removals are noted in one set'
            if v == NONE or v[:2] == ('new', 'list'):
                return
            whole = repr(M) in seen
            if had is not True and not whole:
                yield 'a first listing does not list the members'
            elif not whole and repr(A) not in seen:
                yield 'the listing leaves out the additions'
            elif not whole and repr(R) not in seen:
                yield 'the listing keeps the removed items'
            elif not whole and repr(V) not in seen:
                yield 'the listing forgets the earlier items'
        elif self.A in fields or self.R in fields:
            yield 'noted changes are dropped without a new listing'


# -------------------------------------------------------------- union-find
class Weights(Struct):
    """parents and weights."""
    skip = ('__init__',)

    def fields(self):
        init = self.initial()
        dicts = [k for k, v in init.items() if v[:2] == ('new', 'dict')]
        self.P = 'parents' if 'parents' in dicts else self.pick(
            [k for k in self.returned('__iter__') if k in dicts], 'parents')
        self.W = self.pick([k for k in dicts if k != self.P], 'weights')
        self.names = (self.P, self.W)

    def kept(self, m):
        return ('__getitem__',) if m != '__getitem__' else ()

    def base(self, t):
        """Lookups in the tables, whatever was changed before."""
        while t[:1] in (('upd',), ('phi',), ('exit',)):
            t = t[2] if t[0] == 'phi' else t[1]
        return t

    def case(self, case):
        P, W = fld(self.P), fld(self.W)
        ps = [e for e in case.entries if e.base == P]
        ws = [e for e in case.entries if e.base == W]
        for e in ps + ws:
            if e.op != 'put':
                raise Unknown(e.op)
        roots = [e for e in ps if e.key == e.val]
        joins = [e for e in ps if e.key != e.val and self.m != '__getitem__']
        for e in roots:
            if not any(w.key == e.key and w.val == ('c', 1) and
                       w.loops == e.loops for w in ws):
                yield '%s becomes a set of its own without weight 1' % show(
                    e.key)
        sums = []
        for w in ws:
            if w.val[:1] == ('c',):
                if not any(e.key == w.key for e in roots):
                    yield ('the weight of %s is set without making it a set '
                           'of its own' % show(w.key))
                continue
            sums.append(w)
        for e in joins:
            if not any(w.key == e.val and w.loops == e.loops and
                       self.sum_of(w.val, e.val, e.key, W) for w in sums):
                yield ('%s joins %s but its weight is not added there'
                       % (show(e.key)[:40], show(e.val)[:40]))
        for e in joins:
            for t, at in ((e.key, e.key),
                          (e.val, e.val[2] if e.val[:2] == ('call', 'max')
                           else None)):
                if t is e.key:
                    at = self.each(t)
                if at is not None and at[:1] == ('p',) and \
                        self.holds(case, ('eq',) + tuple(sorted(
                            (t, ('idx', P, t)), key=gvn.key_of))) is not True:
                    yield ('%s is joined though it need not be the name of '
                           'its set' % show(t)[:40])
            if self.each(e.key) is not None and repeats(e) and not any(
                    'idx' in (a[1][:1] + a[2][:1]) and
                    e.key in (a[1][2:] + a[2][2:])
                    for a, v in self.facts(case) if a[:1] == ('eq',)):
                yield ('the weight of %s is added once for every item of its '
                       'set that was given' % show(e.key)[:40])
        for e in ps:
            if self.m == '__getitem__' and e.key != e.val and \
                    e.val[:1] == ('p',):
                yield ('%s is made a child of %s, which need not be the name '
                       'of the set' % (show(e.key)[:40], show(e.val)))
        for w in sums:
            if not any(w.key == e.val and w.loops == e.loops for e in joins):
                yield ('the weight of %s grows though nothing joins it'
                       % show(w.key)[:40])

    def each(self, t):
        if t[:1] == ('el',) and t[2][:1] == ('keys',):
            return t[2][1]
        return None

    def sum_of(self, t, a, b, W):
        if t[:1] != ('+',):
            return False
        got = {repr(self.base(x)) for x in t[1:]}
        return got == {repr(('idx', W, a)), repr(('idx', W, b))}


def repeats(e):
    """Does the loop around a change run through a list in which items can
    come twice?"""
    loops = [n for n in ast.walk(e.fn) if isinstance(n, ast.For) and
             any(x is e.node for x in ast.walk(n))]
    if len(loops) != 1:
        return False

    def twice(x, depth=0):
        if isinstance(x, ast.Name) and depth < 4:
            made = [n.value for n in ast.walk(e.fn)
                    if isinstance(n, ast.Assign) and
                    any(isinstance(t, ast.Name) and t.id == x.id
                        for t in n.targets)]
            others = [n for n in ast.walk(e.fn) if isinstance(n, ast.Name)
                      and n.id == x.id and isinstance(n.ctx, ast.Store)]
            return len(made) == len(others) == 1 and \
                twice(made[0], depth + 1)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                x.func.id in ('list', 'tuple', 'iter', 'sorted', 'reversed') \
                and x.args:
            return twice(x.args[0], depth)
        if isinstance(x, (ast.ListComp, ast.GeneratorExp)):
            if len(x.generators) == 1 and \
                    ast.dump(x.generators[0].target).replace(
                        'Store', 'Load') == ast.dump(x.elt):
                return twice(x.generators[0].iter, depth)
            return True
        return False
    return twice(loops[0].iter)


# ------------------------------------------------------------ integer heap
class Clusters(Struct):
    """summary of the high halves and clusters of the low ones."""
    skip = ('__init__',)

    def fields(self):
        init = self.initial()
        dicts = [k for k, v in init.items() if v[:2] == ('new', 'dict')]
        self.L = self.pick(dicts, '_LQ')
        self.H = self.pick([k for k, v in init.items()
                            if 'IntegerHeap' in repr(v)], '_HQ')
        self.M = self.pick([k for k in self.returned('min')], '_min')
        self.names = (self.L, self.H, self.M)

    def concerns(self, e):
        return Struct.concerns(self, e) or e.op in ('add', 'remove',
                                                    'discard')

    def case(self, case):
        L, H, M = [fld(x) for x in self.names]
        made, dropped, plus, minus = [], [], [], []
        new = {}
        adds, rems = [], []
        low = M
        for e in case.entries:
            if e.op == 'put' and e.base == L:
                new[e.val] = e.key
        for e in case.entries:
            if e.loops:
                raise Unknown('loop')
            if e.op == 'field':
                if e.key != ('f', self.M):
                    raise Unknown('table replaced')
                low = e.val
            elif e.base == L:
                if e.op == 'put':
                    made.append(e.key)
                    if self.holds(case, ('in', e.key, L)) is not False:
                        yield ('the cluster of %s is replaced though it may '
                               'have values' % show(e.key))
                elif e.op in ('del', 'pop'):
                    k = e.key if e.op == 'del' else e.val or e.key
                    dropped.append(k)
                    if self.emptied(case, ('idx', L, k)) is not True:
                        yield ('the cluster of %s is deleted though it may '
                               'have values' % show(k))
                else:
                    raise Unknown(e.op)
            elif e.base == H:
                if e.op == 'add':
                    plus.append(e.val)
                elif e.op in ('remove', 'discard'):
                    minus.append(e.val)
                else:
                    raise Unknown(e.op)
            elif e.base[:2] == ('idx', L) or e.base in new:
                k = new[e.base] if e.base in new else e.base[2]
                if e.op == 'add':
                    adds.append((k, e.val))
                elif e.op in ('remove', 'discard'):
                    rems.append((k, e.val))
                    if self.emptied(case, e.base) is None:
                        yield 'an empty cluster of %s can stay' % show(k)
                else:
                    raise Unknown(e.op)
            else:
                raise Unknown(e.op)
        for a, b, w in ((made, plus, 'gets'), (plus, made, 'gets'),
                        (dropped, minus, 'loses'), (minus, dropped,
                                                    'loses')):
            for k in a:
                if k not in b:
                    yield ('%s %s its %s but not its %s' % (
                        show(k), w, *(('cluster', 'place in the summary')
                                      if a is made or a is dropped else
                                      ('place in the summary', 'cluster'))))
        for k in made:
            if not any(x[0] == k for x in adds):
                yield 'the new cluster of %s stays empty' % show(k)
        if self.m == 'add':
            yield from self.added(case, M, low, adds)
        if self.m == 'remove':
            yield from self.removed(case, L, H, M, low, rems)

    def split(self, H, L):
        """The value whose halves are stored."""
        if H[:1] == ('>>',):
            v = H[1]
            if L[:1] == ('-',) and L[1] == v or L[:1] == ('&',) and v in L \
                    or L[:1] == ('%',) and L[1] == v:
                return v
        raise Unknown('halves')

    def added(self, case, M, low, adds):
        x = ('p', self.param)
        none = self.holds(case, ('is', NONE, M))
        if none:
            if low != x:
                yield 'the first value does not become the minimum'
            if adds:
                yield 'the first value is stored twice'
            return
        a, b = sorted((M, x), key=gvn.key_of)
        if self.holds(case, ('eq', a, b)):
            if adds:
                yield 'the minimum is stored a second time'
            return
        if not adds:
            yield 'a value is not stored in any cluster'
            return
        less = self.holds(case, ('lt', x, M))
        if less is None:
            less = self.holds(case, ('lt', M, x))
            less = None if less is None else not less
        v = self.split(*adds[0])
        if less is None:
            if (v, low) not in ((('call', 'max', x, M), ('call', 'min', x, M)),
                                (('call', 'max', M, x), ('call', 'min', M,
                                                         x))):
                yield 'the new value is not compared with the minimum'
        elif less and (low, v) != (x, M) or not less and (low, v) != (M, x):
            yield ('%s is stored in a cluster and %s is the minimum when '
                   '%s %s the old minimum' % (
                       show(v), show(low), show(x),
                       'is below' if less else 'is not below'))

    def removed(self, case, L, H, M, low, rems):
        x = ('p', self.param)
        if low == M:
            a, b = sorted((M, x), key=gvn.key_of)
            if self.holds(case, ('eq', a, b)):
                yield 'the removed minimum stays the minimum'
            for k, v in rems:
                if self.split(k, v) != x:
                    yield 'another value than %s leaves its cluster' % show(x)
            return
        if low == NONE:
            full = self.holds(case, ('truth', H))
            if full is None:
                full = self.holds(case, ('truth', L))
            if full is not False:
                yield 'the minimum is forgotten though values are left'
            return
        for k, v in rems:
            if low[:1] != ('+',) and low[:1] != ('|',):
                raise Unknown('minimum')
            if not (any(t[:2] == ('<<', k) for t in low[1:]) and
                    v in low[1:]):
                yield 'the new minimum is not the value taken from a cluster'
        if not rems:
            out = self.holds(case, ('in', ('mcall', 'min', H), L))
            if out is not False:
                yield 'the new minimum stays in its cluster'

    @property
    def param(self):
        fn, c = self.src.need(self.module, '%s.%s' % (self.cls, self.m))
        return fn.args.args[1].arg


# -------------------------------------------------------- ordered sequence
class Tags(Struct):
    """links and position tags."""
    skip = ('__init__', 'remove', 'rebalance', 'key')

    def fields(self):
        self.N, self.P, self.T = '_next', '_prev', '_tag'
        init = self.initial()
        for k in (self.N, self.P, self.T):
            if k not in init:
                raise AnalysisError('%s.%s has no field %s' % (
                    self.module, self.cls, k))
        self.names = (self.N, self.P, self.T, '_first')

    def run(self, m, keep=()):
        return Struct.run(self, m, ('rebalance',) + tuple(keep))

    def initial(self):
        fn, c = self.src.need(self.module, self.cls + '.__init__')
        g = gvn.GVN(self.src.resolver(
            self.module, self.cls, keep=('append',)))
        return {e.key[1]: e.val for e in g.run(fn, cls=c).log
                if e.op == 'field' and e.base == SELF}

    def case(self, case):
        links = Links(case, self.N, self.P)
        if links.collect() is None:
            raise Unknown('links')
        tags = [links.norm(e.key) for e in case.entries
                if e.base == fld(self.T) and e.op == 'put']
        for k in links.tabs[links.N]:
            if (links.new.get(links.N) or links.fresh(k)) and k not in tags:
                yield '%s is inserted without a position tag' % show(k)

    def method(self, g):
        """A tag that collides with a neighbour's leads to renumbering."""
        puts = [e for e in g.log if e.op == 'put' and e.base == fld(self.T)
                and not e.loops and e.val[0] != '//'
                or e.op == 'put' and e.base == fld(self.T)
                and 'maxsize' not in repr(e.val)]
        if not puts:
            return
        calls = [e for e in g.log if e.op == 'call' and 'rebalance' in
                 repr((e.base, e.key, e.val))]
        if not calls:
            yield 'items whose tags collide are not renumbered'
            return
        for e in puts:
            for v in branches(e.val):
                yield from self.collision(e, v, calls)

    def collision(self, e, v, calls):
        """Rounding up, the tag can be the upper one; rounding down, the
        lower one: that is the one it must be compared with."""
        ends = middle(v)
        fn, c = self.src.need(self.module, '%s.%s' % (self.cls, self.m))
        if ends is None or self.m not in ('insertAfter', 'insertBefore'):
            return
        x = fn.args.args[1].arg
        near = [t for t in ends[:2] if ('p', x) in set(leaves(t)) and
                t[:2] == ('idx', fld(self.T)) and not any(
                    n in repr(t) for n in (self.N, self.P))]
        if len(near) != 1:
            return
        far = [t for t in ends[:2] if t is not near[0]][0]
        low, high = (near[0], far) if self.m == 'insertAfter' else \
            (far, near[0])
        want, other = (high, low) if ends[2] else (low, high)
        tested = [t for c in calls for g in c.guards
                  if g[:1] == ('eq',) for a, b in (g[1:], g[:0:-1])
                  if v in branches(a) for t in [b] + branches(b)]
        if tested and want not in tested and other in tested:
            yield ('a tag that was rounded %s is compared with the tag on '
                   'the other side' % ('up' if ends[2] else 'down'))

    def problems(self):
        yield from Struct.problems(self)
        fn, c = self.src.need(self.module, self.cls + '.rebalance')
        try:
            g = gvn.GVN(self.src.resolver(self.module, self.cls)).run(
                fn, cls=c)
        except Unknown:
            self.note('methods not understood')
            return
        for e in g.log:
            if e.op == 'put' and e.base == fld(self.T) and e.loops:
                if e.key[:1] == ('el',) and e.key[2] == ('keys', SELF):
                    yield 'rebalance', ('a tag is kept under an item and not '
                                        'under its key')
                if e.val[:1] == ('c',):
                    yield 'rebalance', 'all items get the same tag'


def branches(t):
    if t[:1] == ('ite',):
        return branches(t[2]) + branches(t[3])
    return [t]


def leaves(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from leaves(x)


def middle(t):
    """(a, b, c) when t is the floor of half of a + b + c."""
    def add(x, n, out):
        if x[0] == '+':
            for y in x[1:]:
                add(y, n, out)
        elif x[0] == '-' and len(x) == 3:
            add(x[1], n, out)
            add(x[2], -n, out)
        elif x[0] == 'neg':
            add(x[1], -n, out)
        else:
            out[x] = out.get(x, 0) + n
    out = {}
    add(t, 2, out)
    halves = [x for x in out if x[0] == '//' and x[2] == ('c', 2) and
              out[x] == 2]
    if len(halves) != 1:
        return None
    del out[halves[0]]
    add(halves[0][1], 1, out)
    c = 0
    for x in list(out):
        if x[0] == 'c':
            if type(x[1]) is not int:
                return None
            c += x[1] * out.pop(x)
    out = {x: n for x, n in out.items() if n}
    if len(out) == 2 and set(out.values()) == {1} and c in (0, 1):
        return tuple(out) + (c,)
    return None


STRUCTURES = [('bucketqueue', 'BucketQueue', Buckets),
              ('partition_refinement', 'PartitionRefinement', Partition),
              ('sorted_set', 'SortedSet', Pending),
              ('union_find', 'UnionFind', Weights),
              ('integer_heap', 'FlatHeap', Clusters),
              ('ordered_sequence', 'SimpleOrderedSequence', Tags),
              ('ordered_sequence', 'LogarithmicOrderedSequence', Tags)]


def check_c14(tier):
    rep = Report()
    src = lang.Source()
    for module, cls, rule in STRUCTURES:
        rep.count('classes analysed')
        for m, p in rule(src, module, cls, rep).problems():
            rep.add('agreement', '%s.%s.%s' % (module, cls, m), p[:60], p,
                    line=src.need(module, cls + '.' + m)[0].lineno)
    rep.need('classes analysed', len(STRUCTURES))
    rep.need('updating methods analysed', 8)
    for rule, good, bad in ((Buckets, ['GoodQueue'], ['BadQueue',
                                                      'EmptyBucket']),
                            (Weights, ['GoodUnion'], ['BadUnion'])):
        rule_examples(rep, lambda s, m, c, rule=rule:
                      rule(s, m, c).problems(), 'structs', good, bad)
    rep.explanation = (
        'Every public method of the structures is value numbered; in each '
        'combination of its conditions the changes to one copy of a fact '
        'are matched with the changes to the other copy.')
    rep.assumptions.append('the copies agree before each call and tables '
                           'hold no None')
    return rep
