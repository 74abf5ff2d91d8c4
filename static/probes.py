"""What the analyser watches while it runs: storage shared with results (C02),
items handed out by streams (C03), containers being iterated (C06)."""
import ast
import copy

import entries
from domain import *            # noqa
from domain import ITEMS

# mutations that change the set of keys / the length
GROW = {'dict': {'setitem', 'setdefault', 'pop', 'popitem', 'clear', 'update',
                 'delitem', 'defaultitem', '__delitem__', '__setitem__'},
        'set': {'add', 'remove', 'discard', 'pop', 'clear', 'update',
                'difference_update', 'intersection_update',
                'symmetric_difference_update', 'aug'},
        'list': {'remove', 'pop', 'delitem', 'clear', 'insert'},
        'deque': {'append', 'appendleft', 'pop', 'popleft', 'remove',
                  'clear', 'extend', 'extendleft', 'insert', 'rotate'}}
ARG_GROW = {'setdefault', 'pop', 'popitem', 'clear', 'update', 'delitem',
            'add', 'remove', 'discard', 'difference_update',
            'intersection_update', 'symmetric_difference_update'}
VIEWS = ('keys', 'values', 'items')
STORAGE = ('list', 'set', 'dict', 'deque', 'bytearray')


def reach(A, v, limit=4000):
    """Objects reachable from a value -> {obj: trace}"""
    seen = {}
    todo = []

    def add(val, trace):
        for x in val:
            while type(x) is tuple and x[0] in ('bm', 'bbm'):
                x = x[2]
            if type(x) is Obj and x not in seen and len(seen) < limit:
                seen[x] = trace
                todo.append(x)
    add(v, ())
    while todo:
        o = todo.pop(0)
        t = seen[o]
        if o.kind in ('arg', 'module', 'class', 'ext'):
            continue
        for f, val in A.cell(o).items():
            if f == ITEMS:
                for i, w in enumerate(val):
                    add(w, t + (str(i),))
            elif f == '#func':
                continue
            else:
                add(val, t + (f,))
    return seen


class Probes(object):
    def __init__(self, A, entry):
        self.A = A
        self.results = []           # (operation, [(label, path, trace)])
        self.mutations = set()
        self.loops = set()
        self.yields = set()
        self.method = None
        self.owned = {}             # what belongs to self when it is called
        self.methods = set()
        self.changes = set()        # (method, field path, where, construct)
        A.on_mutate = self.on_mutate
        A.begin_method = self.begin_method
        A.external_yield = self.external_yield
        A.lock = self.lock
        A.forget_given = self.forget_given
        # The yield of CubicMatchPartitions (in whichever function its loop
        # stands) is reached in the last round only: the sole vertex with
        # three earlier neighbours is the last of an st-order.
        m = A.modules.get('xyz_graph')
        others = {e[1] for e in entries.ENTRIES
                  if e[0] == 'xyz_graph'} - {'CubicMatchPartitions'}
        A.last_yield = {'pads/xyz_graph.py:' + n.name for n in
                        (m.tree.body if m else ())
                        if isinstance(n, ast.FunctionDef)
                        and n.name not in others}
        A.back_edge = self.back_edge

    # ------------------------------------------------------------- methods

    def begin_method(self, selfv, meth):
        self.method = meth
        self.methods |= {meth} - {None}
        self.owned = reach(self.A, selfv) if meth else {}

    # ------------------------------------------------------------- results

    def after(self, A, c, r, name):
        if not A.final and c.kind == 'func':
            return
        got = []
        r = frozenset(x for x in r if not (
            type(x) is Obj and (x.kind == 'gen' or x.kind == 'iter'
                                and x.info not in VIEWS)))
        for o, trace in reach(A, r).items():
            if o.kind == 'arg' and 'r' not in o.info:
                got.append((o.label(), o.site, list(o.info), list(trace)))
        self.results.append((name, got))

    # ------------------------------------------------------------- streams

    def external_yield(self, val, node):
        A = self.A
        act = A.act
        pin = A.push(val)
        for o, trace in reach(A, val).items():
            if o.kind in STORAGE and o not in A.base and not is_given(o):
                A.st.become(o, given_of(o))
        val = A.pop(pin)
        self.yields.add(act.scope.where)
        got = []
        for o, trace in reach(A, val).items():
            if o.kind == 'arg' and 'r' not in o.info:
                got.append((o.label(), o.site, list(o.info),
                            ['(item)'] + list(trace)))
        if got:
            self.results.append((act.scope.where, got))

    def forget_given(self):
        """The stream has ended; what it handed out is ordinary again."""
        st = self.A.st
        for o in [o for o in st.heap if is_given(o)]:
            st.become(o, make(o.kind, o.site[1], o.ctx, o.info).twin)

    # --------------------------------------------------------------- loops

    def on_mutate(self, x, base, how, node):
        A = self.A
        self.mutations.add((A.act.scope.where, A.construct(node), how))
        if x in self.owned:
            self.changes.add((self.method, '.'.join(self.owned[x]), how,
                              A.act.scope.where, A.construct(node),
                              node.lineno))
        kind = x.kind
        if kind == 'inst':
            kind = A.container_base(x)
            if kind is None:
                return
        if kind == 'arg':
            if how not in ARG_GROW:
                return
        elif kind not in GROW or how not in GROW[kind]:
            return
        for cx, env in list(A.st.envs.items()):
            if not isinstance(cx, Ctx):
                continue
            for name, val in env.items():
                if name.startswith('#i') and self.iterated(val, x):
                    if how in ('setitem', 'defaultitem', 'setdefault') \
                            and self.same_key(cx, name, node):
                        continue
                    if self.distinct(cx, name, node):
                        continue
                    key = 'd%s@%d' % (name[2:], cx.n)
                    A.setfact(key, A.fact(key) | frozenset([x]))
                    self.last = getattr(self, 'last', {})
                    self.last[key, x] = (A.act.scope.where,
                                         A.construct(node), how)

    def iterated(self, val, x):
        A = self.A
        for y in val:
            if y is x:
                return True
            if type(y) is Obj and y.kind == 'iter' and y.info in (
                    'iter', 'view', 'enumerate', 'items', 'keys', 'values',
                    'zip', 'map', 'map1', 'filter'):
                for f, w in A.cell(y).items():
                    if f == ITEMS:
                        if any(x in q for q in w):
                            return True
                    elif x in w:
                        return True
        return False

    def same_key(self, cx, name, node):
        """d[k] = ... inside `for k in d`, k being the loop's own target."""
        loop = self.nodes.get(name)
        node = self.seen_from(cx, node)
        if loop is None or node is None:
            return False
        t = loop.target
        targets = {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}
        key = None
        if isinstance(node, ast.Subscript):
            key = node.slice
        elif isinstance(node, ast.Call) and node.args:
            key = node.args[0]
        elif isinstance(node, ast.AugAssign) and isinstance(
                node.target, ast.Subscript):
            key = node.target.slice
        if not (isinstance(key, ast.Name) and key.id in targets):
            return False
        body = getattr(loop, 'body', None)
        if body is None:
            return True
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and n.id == key.id and \
                        isinstance(n.ctx, (ast.Store, ast.Del)):
                    return False
        return True

    def seen_from(self, cx, node):
        """The construct in the names of the activation cx: itself, or, in a
        helper called from there, with the arguments for the parameters."""
        act = self.A.act
        if act.ctx is cx:
            return node
        fn, call = act.scope.node, act.ctx.call
        if act.ctx.parent is not cx or not isinstance(call, ast.Call) or \
                not isinstance(fn, ast.FunctionDef) or call.keywords:
            return None
        names = [a.arg for a in fn.args.args]
        if len(names) != len(call.args) or fn.args.vararg or \
                fn.args.kwarg or not all(isinstance(a, ast.Name)
                                         for a in call.args):
            return None
        to = dict(zip(names, [a.id for a in call.args]))
        if any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)
               for n in ast.walk(fn)):
            return None
        out = copy.deepcopy(node)
        for n in ast.walk(out):
            if isinstance(n, ast.Name):
                n.id = to.get(n.id, n.id)
        return out

    def distinct(self, cx, name, node):
        """Inner containers of one table at provably different keys, or of
        two tables that are different objects."""
        A = self.A
        loop = self.nodes.get(name)
        inside = A.act.ctx is cx
        node = self.seen_from(cx, node)
        if loop is None or node is None:
            return False
        it = loop.iter
        while isinstance(it, ast.Call) and isinstance(
                it.func, ast.Attribute) and it.func.attr in (
                'keys', 'values', 'items'):
            it = it.func.value
        tgt = node
        if isinstance(tgt, ast.Call) and isinstance(tgt.func, ast.Attribute):
            tgt = tgt.func.value
        elif isinstance(tgt, ast.Subscript):
            tgt = tgt.value
        else:
            return False
        if not (isinstance(it, ast.Subscript)
                and isinstance(tgt, ast.Subscript)):
            return False
        p, q = ast.unparse(it.value), ast.unparse(tgt.value)
        if p != q:
            if inside and isinstance(it.value, ast.Name) and isinstance(
                    tgt.value, ast.Name):
                a = A.load_name(p, it.value)
                b = A.load_name(q, tgt.value)
                return not (a & b)
            return False
        i, j = it.slice, tgt.slice
        if not (isinstance(i, ast.Name) and isinstance(j, ast.Name)) \
                or i.id == j.id:
            return False
        # a neighbour in a loop-free table
        if isinstance(loop.target, ast.Name) and loop.target.id == j.id:
            return True
        # two keys unpacked together from one key set
        fn = A.act.scope.node if inside else self.owner.get(name)
        if fn is None:
            return False
        pairs = others = 0
        for n in ast.walk(fn):
            if isinstance(n, (ast.Assign, ast.For)):
                for t in (n.targets if isinstance(n, ast.Assign)
                          else [n.target]):
                    names = {x.id for x in ast.walk(t)
                             if isinstance(x, ast.Name)
                             and isinstance(x.ctx, ast.Store)}
                    if {i.id, j.id} <= names:
                        pairs += 1
                    elif names & {i.id, j.id}:
                        others += 1
        return pairs > 0 and others == 0

    nodes = {}
    owner = {}

    def lock(self, node, pin):
        A = self.A
        if hasattr(node, 'target'):
            self.nodes[pin] = node
            self.owner[pin] = A.act.scope.node
        self.loops.add((A.act.scope.where, A.construct(node)))
        key = 'd%s@%d' % (pin[2:], A.act.ctx.n)
        if A.fact(key):
            A.setfact(key, EMPTY)

    def back_edge(self, node):
        A = self.A
        pin = '#i%d' % id(node)
        key = 'd%d@%d' % (id(node), A.act.ctx.n)
        hit = A.fact(key)
        if hit:
            val = A.env().get(pin, EMPTY)
            for x in hit:
                if self.iterated(val, x):
                    w = self.last.get((key, x), ('?', '?', '?'))
                    A.event('resized', node, '%s in %s' % (w[1], w[0]),
                            obj=x, how=w[2])

    def done(self, A, c):
        ev = {x.label() for x in A.evidence}
        shared = []
        for name, got in self.results:
            for label, site, path, trace in got:
                if label in ev and (not path or path[-1] == 'v'):
                    shared.append((name, label, '.'.join(trace)))
        augs = set()
        for x, rargs, node, act, con in A.augs:
            if x.label() in ev and 'r' not in x.info and \
                    any(y.label() in ev for y in rargs):
                augs.add((act.scope.where, con, x.label(), node.lineno,
                          x.site))
        esc = sorted({describe(x) for x in A.escaped})
        return {'shared': sorted(set(shared)), 'augs': sorted(augs),
                'mutations': sorted(self.mutations),
                'changes': sorted(self.changes),
                'methods': sorted(self.methods),
                'loops': sorted(self.loops), 'yields': sorted(self.yields),
                'nresults': len(self.results), 'escaped': esc}


def describe(x):
    if type(x) is Obj:
        if x.kind == 'inst':
            return getattr(x.info, 'label', lambda: str(x.info))()
        return x.label()
    return str(x)
