"""Abstract values, objects and states.

An abstract value is a frozenset of atoms.  Atoms are

  ('c', typename, value)   a literal constant
  ('p', kind)              an unknown int / float / str / bool / any primitive
  ('u',)                   "no value yet" (unassigned local)
  ('bm', func, selfatom)   a bound method of the analysed package
  ('bbm', name, recvatom)  a bound method of a builtin container or value
  Obj                      an abstract object

Objects are named by allocation site and calling context, split by recency:
age 0 is the object most recently allocated there, age 1 stands for all the
earlier ones.  Obj of kind 'arg' stands for something the caller owns, named
by the parameter it came in through and an access path.
"""

PATH_CAP = 4


class Obj(object):
    __slots__ = ('kind', 'site', 'ctx', 'age', 'twin', 'info', 'n')
    table = {}
    count = 0

    def __repr__(self):
        return '<%s%s %s>' % (self.kind, "'" if self.age else '',
                              self.label())

    def label(self):
        if self.kind == 'arg':
            return '.'.join((self.site,) + self.info)
        if self.kind in ('func', 'class'):
            return getattr(self.info, 'qual', str(self.info))
        if self.kind == 'ext':
            return self.site
        if isinstance(self.site, tuple):
            return ':'.join(str(x) for x in self.site)
        return str(self.site)


def make(kind, site, ctx, info=None):
    """Intern the recent object of an allocation site (and its old twin)."""
    key = (kind, site, ctx)
    o = Obj.table.get(key)
    if o is None:
        pair = []
        for age in (0, 1):
            o = Obj()
            o.kind, o.site, o.ctx, o.age, o.info = kind, site, ctx, age, info
            o.n = Obj.count
            Obj.count += 1
            pair.append(o)
        pair[0].twin = pair[1]
        pair[1].twin = pair[1]
        o = Obj.table[key] = pair[0]
    return o


def given_of(o):
    """The identity an object takes on once a stream has handed it out."""
    if is_given(o):
        return o
    return make(o.kind, ('given', o.site), o.ctx, o.info).twin


def is_given(o):
    return type(o.site) is tuple and o.site and o.site[0] == 'given'


def arg(root, path=()):
    key = ('arg', root, path)
    o = Obj.table.get(key)
    if o is None:
        o = Obj()
        o.kind, o.site, o.ctx, o.age, o.info = 'arg', root, None, 1, path
        o.twin = o
        o.n = Obj.count
        Obj.count += 1
        Obj.table[key] = o
    return o


def arg_child(a, sel):
    path = a.info
    if len(path) >= PATH_CAP:
        return arg(a.site, path[:-1] + ('r',)) if path[-1] != 'r' else a
    if path and path[-1] == 'r':
        # anything computed by caller supplied code stays "some result"
        return a
    return arg(a.site, path + (sel,))


def ext(name):
    key = ('ext', name)
    o = Obj.table.get(key)
    if o is None:
        o = Obj()
        o.kind, o.site, o.ctx, o.age, o.info = 'ext', name, None, 1, None
        o.twin = o
        o.n = Obj.count
        Obj.count += 1
        Obj.table[key] = o
    return o


def implicit(name):
    """A builtin exception raised by an operation, not by `raise`."""
    key = ('implicit', name)
    o = Obj.table.get(key)
    if o is None:
        o = Obj()
        o.kind, o.site, o.ctx, o.age, o.info = 'ext', name, None, 1, 'implicit'
        o.twin = o
        o.n = Obj.count
        Obj.count += 1
        Obj.table[key] = o
    return o


class Ctx(object):
    """A call string (interned)."""
    __slots__ = ('parent', 'call', 'func', 'depth', 'n')
    table = {}

    def __repr__(self):
        return '<ctx %s>' % (self.func,)


def ctx(parent, call, func):
    key = (parent, call, func)
    c = Ctx.table.get(key)
    if c is None:
        c = Ctx()
        c.parent, c.call, c.func = parent, call, func
        c.depth = parent.depth + 1 if parent is not None else 0
        c.n = len(Ctx.table)
        Ctx.table[key] = c
    return c


def under(c, top):
    while c is not None and c.depth >= top.depth:
        if c is top:
            return True
        c = c.parent
    return False


# ---------------------------------------------------------------- values

EMPTY = frozenset()
UNBOUND_ATOM = ('u',)
UNBOUND = frozenset([UNBOUND_ATOM])


def const(v):
    return frozenset([('c', type(v).__name__, v)])


def prim(t):
    return frozenset([('p', t)])


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
INT = prim('int')
FLOAT = prim('float')
STR = prim('str')
BOOL = prim('bool')
ANY = prim('any')
MAXCONST = 12


def V(*atoms):
    return frozenset(atoms)


def vjoin(a, b):
    if a is b or not b:
        return a
    if not a:
        return b
    if a >= b:
        return a
    if b >= a:
        return b
    return vlimit(a | b)


def vlimit(v):
    """Constants are subsumed by the unknown primitive of their type."""
    ps = None
    n = 0
    for x in v:
        if type(x) is tuple:
            if x[0] == 'p':
                ps = ps or set()
                ps.add(x[1])
            elif x[0] == 'c':
                n += 1
    if not n:
        return v
    if ps:
        drop = [x for x in v if type(x) is tuple and x[0] == 'c'
                and x[1] in ps]
        if drop:
            v = v - frozenset(drop)
            n -= len(drop)
    if n > MAXCONST:
        by = {}
        for x in v:
            if type(x) is tuple and x[0] == 'c' and x[1] in (
                    'int', 'str', 'float', 'bytes', 'complex'):
                by.setdefault(x[1], []).append(x)
        for t, xs in by.items():
            if len(xs) > MAXCONST // 2:
                v = (v - frozenset(xs)) | frozenset([('p', t)])
    return v


def objs(v):
    return [x for x in v if type(x) is Obj]


def rename_atom(x, old, new):
    if x is old:
        return new
    if type(x) is tuple and x[0] in ('bm', 'bbm'):
        r = rename_atom(x[2], old, new)
        f = rename_atom(x[1], old, new) if x[0] == 'bm' else x[1]
        if r is not x[2] or f is not x[1]:
            return (x[0], f, r)
    return x


def mentions(v, o):
    for x in v:
        if x is o:
            return True
        if type(x) is tuple and x[0] in ('bm', 'bbm'):
            if x[2] is o or x[1] is o:
                return True
            if type(x[2]) is tuple and mentions((x[2],), o):
                return True
    return False


def vrename(v, old, new):
    if not mentions(v, old):
        return v
    return frozenset(rename_atom(x, old, new) for x in v)


ITEMS = '#items'


def cell_rename(c, old, new):
    changed = None
    for f, v in c.items():
        if f == ITEMS:
            nv = tuple(vrename(x, old, new) for x in v)
            same = all(a is b for a, b in zip(nv, v))
        else:
            nv = vrename(v, old, new)
            same = nv is v
        if not same:
            if changed is None:
                changed = dict(c)
            changed[f] = nv
    return c if changed is None else changed


def fold_items(c):
    """Replace exact items by the element summary '*'."""
    if ITEMS not in c:
        return c
    c = dict(c)
    e = c.get('*', EMPTY)
    for x in c.pop(ITEMS):
        e = vjoin(e, x)
    c['*'] = e
    return c


def cell_join(a, b):
    if a is b:
        return a
    if (ITEMS in a or ITEMS in b):
        ia, ib = a.get(ITEMS), b.get(ITEMS)
        if ia is None or ib is None or len(ia) != len(ib):
            a, b = fold_items(a), fold_items(b)
    out = None
    for f, v in b.items():
        w = a.get(f)
        if w is v:
            continue
        if w is None:
            nv = v
        elif f == ITEMS:
            nv = tuple(vjoin(x, y) for x, y in zip(w, v))
            if nv == w:
                continue
        else:
            nv = vjoin(w, v)
            if nv is w or nv == w:
                continue
        if out is None:
            out = dict(a)
        out[f] = nv
    return a if out is None else out


class State(object):
    """heap: Obj -> cell (immutable dict by convention)
    envs: Ctx -> env (immutable dict by convention)
    The pseudo context '#' holds analysis facts as variables."""
    __slots__ = ('heap', 'envs')

    def __init__(self, heap=None, envs=None):
        self.heap = heap if heap is not None else {}
        self.envs = envs if envs is not None else {}

    def copy(self):
        return State(dict(self.heap), dict(self.envs))

    def rename(self, old, new):
        h = self.heap
        for o in list(h):
            c = h[o]
            n = cell_rename(c, old, new)
            if n is not c:
                h[o] = n
        for k in list(self.envs):
            e = self.envs[k]
            n = cell_rename(e, old, new)
            if n is not e:
                self.envs[k] = n

    def age(self, o):
        """The object o stops being the most recent one of its site."""
        t = o.twin
        if t is o or o not in self.heap:
            return
        c = self.heap.pop(o)
        if t in self.heap:
            self.heap[t] = cell_join(self.heap[t], fold_shape(c))
        else:
            self.heap[t] = fold_shape(c)
        self.rename(o, t)

    def become(self, o, t):
        """All references to o now are references to the summary t."""
        if o not in self.heap:
            return
        c = self.heap.pop(o)
        if t in self.heap:
            self.heap[t] = cell_join(self.heap[t], c)
        else:
            self.heap[t] = c
        self.rename(o, t)

    def key(self):
        return (self.heap, self.envs)


def fold_shape(c):
    return c


def env_join(a, b, facts=False):
    if a is b:
        return a
    out = None
    for f, v in b.items():
        w = a.get(f)
        if w is v:
            continue
        if w is None:
            nv = v if (facts or f[0] == '#') else vjoin(v, UNBOUND)
        else:
            nv = vjoin(w, v)
            if nv is w or nv == w:
                continue
        if out is None:
            out = dict(a)
        out[f] = nv
    if not facts:
        for f, w in a.items():
            if f not in b and f[0] != '#' and UNBOUND_ATOM not in w:
                if out is None:
                    out = dict(a)
                out[f] = vjoin(w, UNBOUND)
    return a if out is None else out


def sjoin(a, b):
    """Join two states (either may be None).  Returns a itself when nothing
    new is contributed by b."""
    if a is None:
        return b
    if b is None or a is b:
        return a
    heap = None
    for o, c in b.heap.items():
        d = a.heap.get(o)
        if d is c:
            continue
        if d is None:
            n = c
        else:
            n = cell_join(d, c)
            if n is d:
                continue
        if heap is None:
            heap = dict(a.heap)
        heap[o] = n
    envs = None
    for k, e in b.envs.items():
        d = a.envs.get(k)
        if d is e:
            continue
        if d is None:
            n = e
        else:
            n = env_join(d, e, k == '#')
            if n is d:
                continue
        if envs is None:
            envs = dict(a.envs)
        envs[k] = n
    if heap is None and envs is None:
        return a
    return State(heap if heap is not None else dict(a.heap),
                 envs if envs is not None else dict(a.envs))
