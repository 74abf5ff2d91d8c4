"""Flow-sensitive abstract interpreter for the pads package: statements,
control flow, functions and generators.  Expressions are in exprs.py, the
model of builtins and the standard library in builtin_model.py."""
import ast
import builtins
import hashlib

from domain import *            # noqa
from domain import ITEMS, UNBOUND_ATOM
from scopes import AnalysisError

REC_LIMIT = 1
MAX_ITER = 60


# Rules whose events say "this always fails": only meaningful once the
# abstract state is at its fixpoint, so recorded in the last pass only.
DEFINITE = frozenset(['noattr', 'noneattr', 'noneitem', 'nonecall',
                      'noneiter', 'unpack', 'badop', 'badsubscript',
                      'badstore', 'notcallable', 'badraise', 'unbound'])


class Dead(Exception):
    """The current path ends here."""


class Act(object):
    """One activation in the (abstract) call stack."""

    def __init__(self, cx, scope, parent, node):
        self.ctx = cx
        self.scope = scope
        self.parent = parent
        self.node = node            # call site in the parent
        self.tries = []
        self.loops = []
        self.rets = None
        self.uncaught = {}          # exc name -> state
        self.handler = None         # consumer of yields
        self.is_gen = False
        self.rec_used = False
        self.rec_in = None
        self.rec_out = None
        self.rec_exc = {}
        self.rec_changed = False
        self.yvals = None           # state holding '#yv' in '#rec'

    def chain(self):
        out = []
        a = self
        while a is not None:
            out.append(a)
            a = a.parent
        return out[::-1]


class Loop(object):
    def __init__(self):
        self.brk = None
        self.cont = None


class TryFrame(object):
    def __init__(self, handlers, fin):
        self.handlers = handlers    # list of (type value or None, collector)
        self.fin = fin              # True when it must intercept every exit
        self.exits = {}             # kind -> state   (for finally)
        self.caught = [None] * len(handlers)


class ScopeOfModule(object):
    pass


class Interp(object):
    def __init__(self, modules, scopes):
        self.modules = modules
        self.scopes = scopes
        self.base = {}
        self.building = True
        self.st = State()
        self.act = None
        self.events = {}
        self.seeds = {}
        self.module_objs = {}
        self.loading = set()
        self.reached = set()
        self.calls = set()
        self.callstmts = 0
        self.hooks = {}
        self.final = False
        self.recs = {}
        self.last_yield = set()     # generators whose yield ends a loop
        self.compare_hook = None
        self.evidence = set()       # arg objects used as containers
        self.augs = []
        self.watch_locks = False
        self.record_exc = None
        self.on_try = None
        self.hook_hits = set()
        self.steps = 0
        self.nalloc = 0
        self.max_steps = 4000000
        self.folds = {}
        self.notes = {}

    # ------------------------------------------------------------ events

    def construct(self, node):
        try:
            s = ast.unparse(node)
        except Exception:
            s = type(node).__name__
        s = ' '.join(s.split())
        return s if len(s) < 120 else s[:117] + '...'

    def event(self, rule, node, detail='', obj=None, **kw):
        if self.building and rule in ('globalmut',):
            return
        if rule in DEFINITE and not (self.final or self.building):
            return
        act = self.act
        where = act.scope.where if act else '?'
        con = self.construct(node) if node is not None else ''
        key = (rule, where, con, detail)
        if key in self.events:
            return
        chain = []
        for a in (act.chain() if act else []):
            chain.append(a.scope.where)
        rec = dict(rule=rule, where=where, construct=con, detail=detail,
                   line=getattr(node, 'lineno', 0), chain=chain, obj=obj)
        rec.update(kw)
        self.events[key] = rec

    def use(self, x, op, node):
        """The argument x is used through the operation op."""
        self.event('use', node, op, used=frozenset([x]))
        rec = self.events.get(('use', self.act.scope.where,
                               self.construct(node), op))
        if rec is not None:
            rec['used'] = rec['used'] | frozenset([x])

    # ------------------------------------------------------- state access

    def env(self):
        return self.st.envs.get(self.act.ctx, {})

    def setvar(self, name, val):
        cx = self.act.ctx
        e = dict(self.st.envs.get(cx, {}))
        e[name] = val
        self.st.envs[cx] = e

    def delvar(self, name):
        cx = self.act.ctx
        e = self.st.envs.get(cx, {})
        if name in e:
            e = dict(e)
            del e[name]
            self.st.envs[cx] = e

    def fact(self, name):
        return self.st.envs.get('#', {}).get(name, EMPTY)

    def setfact(self, name, val):
        e = dict(self.st.envs.get('#', {}))
        if val:
            e[name] = val
        else:
            e.pop(name, None)
        self.st.envs['#'] = e

    def push(self, val):
        e = self.env()
        i = 0
        while '#t%d' % i in e:
            i += 1
        name = '#t%d' % i
        self.setvar(name, val)
        return name

    def drop_temps(self, entry):
        """Forget the operands of an expression an exception left half
        evaluated."""
        e = self.env()
        old = entry.envs.get(self.act.ctx, {})
        for k in [k for k in e if k.startswith('#t') and k not in old]:
            self.delvar(k)

    def pop(self, name):
        v = self.env().get(name, EMPTY)
        self.delvar(name)
        return v

    def cell(self, o):
        c = self.st.heap.get(o)
        if c is None:
            c = self.base.get(o)
            if c is None:
                c = {}
        return c

    def setcell(self, o, c):
        self.st.heap[o] = c

    def field(self, o, f):
        c = self.cell(o)
        v = c.get(f)
        if f == '*' and ITEMS in c:
            v = v or EMPTY
            for x in c[ITEMS]:
                v = vjoin(v, x)
        return v if v is not None else EMPTY

    def add_field(self, o, f, val):
        """Weak update."""
        c = self.cell(o)
        w = c.get(f, EMPTY)
        n = vjoin(w, val)
        if n is not w and n != w or f not in c:
            c = dict(c)
            c[f] = n
            self.setcell(o, c)

    def set_field(self, o, f, val, strong):
        if strong:
            c = self.cell(o)
            if c.get(f) is not val:
                c = dict(c)
                c[f] = val
                self.setcell(o, c)
        else:
            self.add_field(o, f, val)

    def alloc(self, kind, node, cell=None, info=None, tag=''):
        """A new object at this site; the cell's values must have been
        computed in the current state."""
        site = (self.act.scope.where if self.act else '?',
                getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0),
                tag, id(node))
        o = make(kind, site, self.act.ctx if self.act else None, info)
        c = dict(cell or {})
        self.nalloc += 1
        if o in self.st.heap:
            t = o.twin
            for f in list(c):
                if f == ITEMS:
                    c[f] = tuple(vrename(x, o, t) for x in c[f])
                else:
                    c[f] = vrename(c[f], o, t)
            self.st.age(o)
        self.st.heap[o] = c
        return o

    def is_strong(self, val):
        """A value that is exactly one concrete object."""
        if len(val) != 1:
            return False
        o, = val
        return type(o) is Obj and o.age == 0

    # ------------------------------------------------------------- joins

    def run_branches(self, states_and_thunks):
        out = None
        for st, thunk in states_and_thunks:
            if st is None:
                continue
            self.st = st.copy()
            try:
                thunk()
            except Dead:
                continue
            out = sjoin(out, self.st)
        if out is None:
            raise Dead()
        self.st = out.copy()

    # -------------------------------------------------------- exceptions

    def exc_matches(self, excatom, tval):
        """-> (may, must) does the raised atom match handler type value"""
        if tval is None:
            return True, True
        may = must = False
        types = []
        for t in tval:
            if type(t) is Obj and t.kind == 'tuple':
                types.extend(self.field(t, '*'))
            else:
                types.append(t)
        for t in types:
            a, b = self.is_instance_exc(excatom, t)
            may |= a
            must |= b
        return may, must

    def class_bases(self, c):
        """All classes (package Obj or ext names) above c, inclusive."""
        out = []
        todo = [c]
        while todo:
            x = todo.pop(0)
            if x in out:
                continue
            out.append(x)
            if type(x) is Obj and x.kind == 'class':
                todo.extend(b for v in self.cell(x).get('#bases', ())
                            for b in [v])
        return out

    def is_instance_exc(self, excatom, t):
        if type(excatom) is tuple:
            return True, False
        if excatom.kind == 'inst':
            cls = excatom.info
        elif excatom.kind == 'class':
            cls = excatom
        elif excatom.kind == 'ext':
            cls = excatom
        else:
            return True, False
        if type(t) is not Obj:
            return True, False
        for b in self.class_bases(cls):
            if b is t:
                return True, True
            if b.kind == 'ext' and t.kind == 'ext':
                x = getattr(builtins, b.site, None)
                y = getattr(builtins, t.site, None)
                if isinstance(x, type) and isinstance(y, type):
                    if issubclass(x, y):
                        return True, True
        if t.kind == 'ext' and t.site in ('Exception', 'BaseException'):
            return True, True
        if t.kind not in ('class', 'ext'):
            return True, False
        return False, False

    def do_raise(self, val):
        self.throw(val)
        raise Dead()

    def throw(self, val):
        """Record that val may be raised here, in the current state."""
        act = self.act
        rest = set(val)
        saved = self.st
        for t in reversed(act.tries):
            if not rest:
                return
            if t.handlers:
                for i, (tval, h) in enumerate(t.handlers):
                    hit = set()
                    gone = set()
                    for x in rest:
                        may, must = self.exc_matches(x, tval)
                        if may:
                            hit.add(x)
                        if must:
                            gone.add(x)
                    if hit:
                        self.st = saved.copy()
                        self.setvar('#exc', frozenset(hit))
                        t.caught[i] = sjoin(t.caught[i], self.st)
                        if self.record_exc is not None:
                            self.record_exc(self, h, hit)
                        self.st = saved
                    rest -= gone
            if t.fin and rest:
                self.st = saved.copy()
                self.setvar('#exc', frozenset(rest))
                t.exits['raise'] = sjoin(t.exits.get('raise'), self.st)
                self.st = saved
                rest = set()
        if rest:
            self.st = saved.copy()
            self.setvar('#exc', frozenset(rest))
            act.uncaught['x'] = sjoin(act.uncaught.get('x'), self.st)
            self.st = saved

    def handled_somewhere(self, atom):
        a = self.act
        while a is not None:
            for t in a.tries:
                for tval, h in t.handlers:
                    if self.exc_matches(atom, tval)[0]:
                        return True
            a = a.parent
        return False

    def may_raise(self, *names):
        """An operation that can fail implicitly with a builtin error; only
        followed when some enclosing handler would see it."""
        for n in names:
            atom = implicit(n)
            if self.handled_somewhere(atom):
                self.throw(V(atom))

    # -------------------------------------------------------- statements

    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        self.reached.add(s)
        self.steps += 1
        if self.steps > self.max_steps:
            raise AnalysisError('analysis budget exhausted')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise AnalysisError('unsupported statement %s at %s:%s' % (
                type(s).__name__, self.act.scope.where, s.lineno))
        m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def s_Pass(self, s):
        pass

    def s_Assign(self, s):
        v = self.eval(s.value)
        if len(s.targets) == 1:
            self.assign(s.targets[0], v, s)
        else:
            n = self.push(v)
            for t in s.targets:
                self.assign(t, self.env().get(n, EMPTY), s)
            self.pop(n)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value), s)

    def s_AugAssign(self, s):
        self.aug_assign(s)

    def s_Return(self, s):
        v = self.eval(s.value) if s.value is not None else NONE
        self.do_exit('return', v)

    def do_exit(self, kind, val=None):
        act = self.act
        if kind == 'return':
            self.setvar('#ret', val)
        base = act.loops[-1][1] if kind != 'return' and act.loops else 0
        for t in reversed(act.tries[base:]):
            if t.fin:
                t.exits[kind] = sjoin(t.exits.get(kind), self.st)
                raise Dead()
        if kind == 'return':
            act.rets = sjoin(act.rets, self.st)
        else:
            lp = act.loops[-1][0]
            if kind == 'break':
                lp.brk = sjoin(lp.brk, self.st)
            else:
                lp.cont = sjoin(lp.cont, self.st)
        raise Dead()

    def s_Break(self, s):
        self.do_exit('break')

    def s_Continue(self, s):
        self.do_exit('continue')

    def s_Raise(self, s):
        if s.exc is None:
            v = self.env().get('#cur', EMPTY)
            if not v:
                self.event('badraise', s)
                raise Dead()
            self.do_raise(v)
        v = self.eval(s.exc)
        out = set()
        for x in v:
            if type(x) is Obj and x.kind in ('class', 'ext') \
                    and self.is_exc_class(x):
                if x.kind == 'class':
                    r = self.instantiate(x, [], {}, s.exc)
                    out |= r
                else:
                    out.add(x)
            elif type(x) is Obj and x.kind == 'inst':
                out.add(x)
            elif type(x) is Obj and x.kind == 'arg':
                out.add(x)
            else:
                out.add(ext('TypeError'))
        if s.cause is not None:
            self.eval(s.cause)
        self.do_raise(frozenset(out))

    def s_Assert(self, s):
        t, f = self.branch(s.test)
        if f is not None:
            self.st = f.copy()
            try:
                if s.msg is not None:
                    self.eval(s.msg)
                self.throw(V(ext('AssertionError')))
            except Dead:
                pass
        if t is None:
            raise Dead()
        self.st = t.copy()

    def s_Delete(self, s):
        for t in s.targets:
            self.delete(t)

    def delete(self, t):
        if isinstance(t, ast.Name):
            kind, _ = self.act.scope.resolve(t.id)
            self.store_name(t.id, UNBOUND, t)
        elif isinstance(t, ast.Subscript):
            base = self.eval(t.value)
            n = self.push(base)
            k = self.eval_slice(t.slice)
            base = self.pop(n)
            self.del_item(base, k, t)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value)
            self.mutate(base, 'delattr:' + t.attr, t)
            for o in objs(base):
                if o.kind == 'inst' and len(base) == 1 and o.age == 0:
                    c = dict(self.cell(o))
                    c.pop(t.attr, None)
                    self.setcell(o, c)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.delete(x)

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_If(self, s):
        t, f = self.branch(s.test)
        self.run_branches([(t, lambda: self.block(s.body)),
                           (f, lambda: self.block(s.orelse))])

    def s_While(self, s):
        def head():
            return self.branch(s.test)
        self.loop(s, head, s.body, s.orelse)

    def widen_key(self, node):
        return (self.act.ctx, node)

    def loop(self, node, head, body, orelse):
        """Generic loop: head() -> (state entering the body, state leaving)"""
        act = self.act
        lp = Loop()
        act.loops.append((lp, len(act.tries)))
        key = self.widen_key(node)
        h = sjoin(self.seeds.get(key), self.st)
        n = 0
        while True:
            n += 1
            if n > MAX_ITER:
                raise AnalysisError('no fixpoint at %s:%s' % (
                    act.scope.where, getattr(node, 'lineno', '?')))
            lp.cont = None
            self.st = h.copy()
            try:
                t, f = head()
            except Dead:
                t = f = None
            back = None
            if t is not None:
                self.st = t.copy()
                try:
                    if callable(body):
                        body()
                    else:
                        self.block(body)
                    back = self.st
                except Dead:
                    pass
                back = sjoin(back, lp.cont)
                if back is not None:
                    self.st = back.copy()
                    self.back_edge(node)
                    back = self.st
            nh = sjoin(h, back)
            if nh is h:
                break
            h = nh
        self.seeds[key] = h
        act.loops.pop()
        out = None
        if f is not None:
            self.st = f.copy()
            try:
                self.block(orelse)
                out = self.st
            except Dead:
                pass
        out = sjoin(out, lp.brk)
        if out is None:
            raise Dead()
        self.st = out.copy()

    def back_edge(self, node):
        pass

    def s_For(self, s):
        v = self.eval(s.iter)
        act = self.act

        def body(elem):
            self.assign(s.target, elem, s)
            self.block(s.body)
        self.for_loop(s, v, body, s.orelse)

    def for_loop(self, node, v, body, orelse):
        """Iterate over v running body(elem) for each."""
        plain, gens = self.split_iter(v, node)
        entry = self.st.copy()
        out = None
        act = self.act
        if plain or not gens:
            pin = '#i%d' % id(node)
            self.setvar(pin, plain)
            self.lock(node, pin)

            def head():
                e = self.elem_of(self.env().get(pin, EMPTY), node)
                t = None
                f = self.st.copy()
                if e:
                    t = self.st
                    self.setvar('#e%d' % id(node), e)
                return t, f

            def bd():
                e = self.env()['#e%d' % id(node)]
                self.delvar('#e%d' % id(node))
                body(e)
            try:
                self.loop(node, head, bd, orelse)
                self.unlock(node)
                self.delvar(pin)
                self.delvar('#e%d' % id(node))
                out = sjoin(out, self.st)
            except Dead:
                pass
        for g, trs in gens:
            self.st = entry.copy()
            lp = Loop()

            def handler(val, trs=trs, lp=lp):
                # one item has been produced; act is the consumer's
                val = self.transform(trs, val, node)
                act.loops.append((lp, len(act.tries)))
                lp.cont = None
                try:
                    try:
                        body(val)
                        nxt = self.st
                    except Dead:
                        nxt = None
                    nxt = sjoin(nxt, lp.cont)
                finally:
                    act.loops.pop()
                if nxt is None:
                    raise Dead()
                self.st = nxt.copy()
            try:
                self.run_gen(g, node, handler)
                self.block(orelse)
                out = sjoin(out, self.st)
            except Dead:
                pass
            if lp.brk is not None:
                self.st = lp.brk.copy()
                self.trim(entry.envs)
                out = sjoin(out, self.st)
        if out is None:
            raise Dead()
        self.st = out.copy()

    # locks (C06); overridden when needed
    def lock(self, node, pin):
        pass

    def unlock(self, node):
        pass

    def s_With(self, s):
        sup = None
        for item in s.items:
            v = self.eval(item.context_expr)
            for o in objs(v):
                if o.kind == 'suppress':
                    sup = vjoin(sup or EMPTY, self.field(o, '*'))
            r = EMPTY
            for o in objs(v):
                if o.kind == 'inst':
                    m = self.class_attr(o.info, '__enter__')
                    if m:
                        r = vjoin(r, self.call_value(
                            self.bind(m, o), [], {}, item.context_expr))
                        continue
                r = vjoin(r, V(o))
            if item.optional_vars is not None:
                self.assign(item.optional_vars, r or ANY, s)
        if sup is not None:
            fr = TryFrame([(sup, s)], False)
            if self.on_try is not None:
                self.on_try(s, sup)
            self.act.tries.append(fr)
            out = None
            try:
                try:
                    self.block(s.body)
                    out = self.st
                except Dead:
                    pass
            finally:
                self.act.tries.pop()
            out = sjoin(out, fr.caught[0])
            if out is None:
                raise Dead()
            self.st = out.copy()
        else:
            self.block(s.body)

    def s_Try(self, s):
        act = self.act
        handlers = []
        for h in s.handlers:
            tv = self.eval(h.type) if h.type is not None else None
            handlers.append((tv, h))
            if self.on_try is not None:
                self.on_try(h, tv)
        fin = None
        if s.finalbody:
            fin = TryFrame([], True)
            act.tries.append(fin)
        out = None
        try:
            fr = TryFrame(handlers, False)
            act.tries.append(fr)
            normal = None
            entry = self.st.copy()
            try:
                try:
                    self.block(s.body)
                    normal = self.st
                except Dead:
                    pass
            finally:
                act.tries.pop()
            if normal is not None:
                self.st = normal.copy()
                try:
                    self.block(s.orelse)
                    out = sjoin(out, self.st)
                except Dead:
                    pass
            for i, h in enumerate(s.handlers):
                st = fr.caught[i]
                if st is None:
                    continue
                self.st = st.copy()
                self.trim(entry.envs)
                self.drop_temps(entry)
                exc = self.env().get('#exc', EMPTY)
                self.delvar('#exc')
                oldcur = self.env().get('#cur')
                self.setvar('#cur', exc)
                if h.name:
                    self.store_name(h.name, self.exc_objects(exc, h), h)
                try:
                    self.block(h.body)
                    if h.name:
                        self.store_name(h.name, UNBOUND, h)
                    if oldcur is None:
                        self.delvar('#cur')
                    else:
                        self.setvar('#cur', oldcur)
                    out = sjoin(out, self.st)
                except Dead:
                    pass
        finally:
            if fin is not None:
                act.tries.pop()
        if fin is not None:
            norm = out
            out = None
            if norm is not None:
                self.st = norm.copy()
                try:
                    self.block(s.finalbody)
                    out = self.st
                except Dead:
                    pass
            for kind, st in list(fin.exits.items()):
                self.st = st.copy()
                exc = self.env().get('#exc', EMPTY)
                ret = self.env().get('#ret')
                n = self.push(exc)
                m = self.push(ret if ret is not None else EMPTY)
                try:
                    self.block(s.finalbody)
                    ret = self.pop(m)
                    exc = self.pop(n)
                    if kind == 'raise':
                        self.do_raise(exc)
                    else:
                        self.do_exit(kind, ret)
                except Dead:
                    pass
        if out is None:
            raise Dead()
        self.st = out.copy()

    s_TryStar = s_Try

    def exc_objects(self, exc, node):
        out = EMPTY
        for x in exc:
            if type(x) is Obj and x.kind == 'ext':
                o = self.alloc('inst', node, {'args': ANY}, x, tag=x.site)
                out = vjoin(out, V(o))
            else:
                out = vjoin(out, V(x))
        return out

    def s_FunctionDef(self, s):
        f = self.make_function(s, self.scopes[s])
        for d in reversed(s.decorator_list):
            n = self.push(f)
            dv = self.eval(d)
            f = self.pop(n)
            f = self.apply_decorator(dv, f, d)
        self.store_name(s.name, f, s)

    def make_function(self, node, scope):
        cell = {}
        a = node.args
        pos = a.posonlyargs + a.args
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            cell['@' + p.arg] = self.eval(d)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                cell['@' + p.arg] = self.eval(d)
        fr = self.env().get('#frame')
        if fr:
            cell['#frame'] = fr
        return V(self.alloc('func', node, cell, scope))

    def s_ClassDef(self, s):
        scope = self.scopes[s]
        bases = []
        for b in s.bases:
            bases.append(self.eval(b))
        act = Act(ctx(self.act.ctx, s, scope), scope, self.act, s)
        env = {}
        fr = self.env().get('#frame')
        if fr:
            env['#frame'] = fr
        self.st.envs[act.ctx] = env
        saved = self.act
        self.act = act
        try:
            self.block(s.body)
        finally:
            self.act = saved
        env = self.st.envs.pop(act.ctx, {})
        cell = {k: v for k, v in env.items() if k[0] != '#'}
        bs = []
        for b in bases:
            bs.extend(b)
        if bs:
            cell['#bases'] = frozenset(bs)
        o = self.alloc('class', s, cell, scope)
        v = V(o)
        for d in reversed(s.decorator_list):
            v = self.apply_decorator(self.eval(d), v, d)
        self.store_name(s.name, v, s)

    def s_Import(self, s):
        for a in s.names:
            v = self.import_module(a.name, 0, s)
            if a.asname is None and '.' in a.name:
                v = self.import_module(a.name.split('.')[0], 0, s)
                self.store_name(a.name.split('.')[0], v, s)
            else:
                self.store_name(a.asname or a.name, v, s)

    def s_ImportFrom(self, s):
        mod = self.import_module(s.module or '', s.level, s)
        for a in s.names:
            if a.name == '*':
                for o in objs(mod):
                    if o.kind == 'module':
                        for k, v in self.cell(o).items():
                            if not k.startswith('_'):
                                self.store_name(k, v, s)
                continue
            v = EMPTY
            for o in objs(mod):
                if o.kind == 'module':
                    w = self.cell(o).get(a.name)
                    if w is None and a.name in self.modules \
                            and o.site == ('module', '__init__'):
                        w = self.import_module(a.name, 1, s)
                    if w is None and s.level and not s.module \
                            and a.name in self.modules:
                        w = self.import_module(a.name, 1, s)
                    if w is None:
                        self.event('badimport', s, a.name)
                        continue
                    v = vjoin(v, w)
                else:
                    v = vjoin(v, self.ext_attr(o, a.name, s))
            if not v:
                self.may_raise('ImportError')
                raise Dead()
            self.store_name(a.asname or a.name, v, s)

    def import_module(self, name, level, node):
        if level or name == 'pads' or name.startswith('pads.'):
            if not level:
                name = name[5:] if '.' in name else ''
            m = name.split('.')[0] if name else '__init__'
            if m in self.modules:
                return self.load_module(m)
            self.event('badimport', node, name)
            self.may_raise('ImportError', 'ModuleNotFoundError')
            raise Dead()
        if not self.ext_exists(name):
            self.event('badimport', node, name)
            self.may_raise('ImportError', 'ModuleNotFoundError')
            raise Dead()
        return V(ext(name))

    def load_module(self, m):
        if m in self.module_objs:
            return V(self.module_objs[m])
        mod = self.modules[m]
        o = make('module', ('module', m), None, mod)
        self.module_objs[m] = o
        scope = self.scopes[mod.tree]
        self.st.heap[o] = {'__name__': const('pads.' + m),
                           '__doc__': ANY, '__file__': STR}
        saved = self.act
        cx = ctx(None, mod.tree, scope)
        act = Act(cx, scope, saved, mod.tree)
        self.act = act
        try:
            try:
                self.block(mod.tree.body)
            except Dead:
                self.event('deadmodule', mod.tree.body[0], m)
        finally:
            self.act = saved
        self.st.envs.pop(cx, None)
        return V(o)

    def build(self):
        """Execute every module body abstractly; the result is the immutable
        base heap shared by all later analyses."""
        for m in sorted(self.modules):
            self.load_module(m)
        self.base = dict(self.st.heap)
        self.global_names = {}
        for m, o in self.module_objs.items():
            for k, v in self.base[o].items():
                for x in objs(v):
                    self.global_names.setdefault(x, '%s.%s' % (m, k))
        for o in list(self.base):
            if o.kind in ('class', 'func'):
                for k, v in self.base[o].items():
                    if k == '#bases':
                        continue
                    for x in objs(v):
                        if x.kind not in ('class', 'func', 'module'):
                            self.global_names.setdefault(
                                x, '%s.%s' % (o.label(), k))
        self.building = False
        self.reset()

    def freeze(self):
        """Number the statements so that coverage is plain data."""
        self.stmt_keys = {}
        for name, md in self.modules.items():
            for n in ast.walk(md.tree):
                if isinstance(n, ast.stmt):
                    self.stmt_keys[n] = (name, n.lineno, n.col_offset)

    def reached_keys(self):
        return sorted(self.stmt_keys[n] for n in self.reached)

    def fresh(self):
        """Forget everything observed so far."""
        self.reset()
        self.events = {}
        self.reached = set()
        self.calls = set()
        self.evidence = set()
        self.augs = []
        self.escaped = EMPTY
        self.folds = {}
        self.steps = 0
        self.hook_hits = set()
        self.on_try = self.record_exc = None
        if not hasattr(self, 'base_hooks'):
            self.base_hooks = dict(self.hooks)
        self.hooks = dict(self.base_hooks)

    def reset(self):
        self.st = State()
        self.act = None
        self.seeds = {}
        self.recs = {}

    # --------------------------------------------------------- functions

    def bind_params(self, fobj, args, kwargs, node, selfatom=None,
                    star=None, starstar=None):
        """-> env dict, or raises Dead after recording an arity event"""
        scope = fobj.info
        n = scope.node
        if isinstance(n, ast.GeneratorExp):
            raise AnalysisError('call of a generator expression')
        a = n.args
        cell = self.cell(fobj)
        env = {}
        pos = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        if selfatom is not None:
            args.insert(0, V(selfatom))
        extra = args[len(pos):]
        for p, v in zip(pos, args):
            env[p] = v
        bad = None
        if extra and not a.vararg:
            bad = 'too many arguments'
        if a.vararg:
            e = EMPTY
            cell2 = {ITEMS: tuple(extra)}
            if star is not None:
                cell2 = fold_items(cell2)
                cell2['*'] = vjoin(cell2.get('*', EMPTY), star)
            env[a.vararg.arg] = V(self.alloc('tuple', node, cell2,
                                             tag='*' + str(id(n))))
        kwn = [p.arg for p in a.kwonlyargs]
        rest = EMPTY
        restk = EMPTY
        for k, v in kwargs.items():
            if k in pos or k in kwn:
                if k in env:
                    bad = 'duplicate argument ' + k
                env[k] = v
            elif a.kwarg:
                rest = vjoin(rest, v)
                restk = vjoin(restk, const(k))
            else:
                bad = 'unexpected argument ' + k
        if a.kwarg:
            if starstar is not None:
                rest = vjoin(rest, starstar)
                restk = vjoin(restk, STR)
            env[a.kwarg.arg] = V(self.alloc('dict', node,
                                            {'k': restk, 'v': rest},
                                            tag='**' + str(id(n))))
        for p in pos + kwn:
            if p not in env:
                d = cell.get('@' + p)
                more = EMPTY
                if star is not None and p in pos:
                    more = vjoin(more, star)
                if starstar is not None:
                    more = vjoin(more, starstar)
                if d is not None:
                    env[p] = vjoin(d, more)
                elif more:
                    env[p] = more
                elif star is not None or starstar is not None:
                    env[p] = ANY
                else:
                    bad = 'missing argument ' + p
        if bad:
            self.event('arity', node, bad + ' of ' + scope.where)
            self.may_raise('TypeError')
            raise Dead()
        return env

    def call_func(self, fobj, args, kwargs, node, selfatom=None, star=None,
                  starstar=None):
        scope = fobj.info
        env = self.bind_params(fobj, args, kwargs, node, selfatom, star,
                               starstar)
        self.calls.add((self.act.scope.where if self.act else '?',
                        scope.where))
        hook = self.hooks.get(scope.where)
        if hook is not None:
            r = hook(self, fobj, env, node)
            if r is not None:
                self.hook_hits.add(scope.where)
                return r
        if scope.is_generator:
            cell = {'@' + k: v for k, v in env.items()}
            cell['#func'] = V(fobj)
            g = self.alloc('gen', node, cell, scope, tag=str(id(scope.node)))
            return V(g)
        return self.run(fobj, env, node)

    def occurrences(self, scope):
        n = 0
        first = None
        a = self.act
        while a is not None:
            if a.scope is scope:
                n += 1
                if first is None:
                    first = a
            a = a.parent
        return n, first

    def recall(self, act):
        """Start from what an earlier pass learnt about a recursion."""
        r = self.recs.get(act.ctx)
        if r is not None:
            act.rec_used = True
            act.rec_in, act.rec_out, x, act.yvals = r
            act.rec_exc = {'x': x}

    def enter_frame(self, act, fobj, env, node):
        """Install env as the frame of act (closure frame included)."""
        scope = act.scope
        env = dict(env)
        self.st.envs[act.ctx] = env
        parent = self.cell(fobj).get('#frame') if fobj is not None else None
        if scope.cellvars:
            cell = {}
            for v in scope.cellvars:
                if v in env:
                    cell[v] = env[v]
            if parent:
                cell['#parent'] = parent
            o = self.alloc('frame', scope.node, cell, scope)
            e = dict(self.st.envs[act.ctx])
            for v in scope.cellvars:
                e.pop(v, None)
            e['#frame'] = V(o)
            self.st.envs[act.ctx] = e
        elif parent:
            e = dict(self.st.envs[act.ctx])
            e['#frame'] = parent
            self.st.envs[act.ctx] = e

    def run(self, fobj, env, node):
        scope = fobj.info
        n, top = self.occurrences(scope)
        if n >= REC_LIMIT:
            return self.fold(top, fobj, env, node)
        caller = self.act
        cx = ctx(caller.ctx, node, scope)
        act = Act(cx, scope, caller, node)
        self.recall(act)
        entry = self.st
        if cx in entry.envs:
            raise AnalysisError('context %s already active' % cx)
        nalloc = self.nalloc
        rounds = 0
        while True:
            rounds += 1
            if rounds > MAX_ITER:
                raise AnalysisError('no fixpoint for %s' % scope.where)
            act.tries, act.loops, act.rets = [], [], None
            act.uncaught = {}
            act.rec_changed = False
            self.st = entry.copy()
            self.act = act
            try:
                self.enter_frame(act, fobj, env, node)
                self.st = sjoin(self.st, act.rec_in).copy()
                try:
                    self.body(scope)
                except Dead:
                    pass
            finally:
                self.act = caller
            if act.rec_used:
                no = sjoin(act.rec_out, act.rets)
                nx = sjoin(act.rec_exc.get('x'), act.uncaught.get('x'))
                if act.rec_changed or no is not act.rec_out \
                        or nx is not act.rec_exc.get('x'):
                    act.rec_out = no
                    act.rec_exc = {'x': nx}
                    continue
                self.recs[cx] = (act.rec_in, no, nx, act.yvals)
            break
        st = act.uncaught.get('x')
        if st is not None:
            self.st = st.copy()
            exc = self.st.envs[cx].get('#exc', EMPTY)
            self.trim(entry.envs)
            self.throw(exc)
        if act.rets is None:
            raise Dead()
        self.st = act.rets.copy()
        val = self.st.envs[cx].get('#ret', NONE)
        self.trim(entry.envs)
        if self.nalloc != nalloc and len(self.st.heap) > 40 \
                and not self.building:
            self.collect(cx, val)
        return val

    def resume(self, src, st):
        """The caller's frames st over the heap of a summary src."""
        heap = dict(st.heap)
        heap.update(src.heap)
        return State(heap, dict(st.envs))

    def collect(self, cx, val):
        """Forget objects allocated by a finished activation that nothing
        refers to any more."""
        heap = self.st.heap
        cand = [o for o in heap if o.ctx is not None and o.ctx.depth >=
                cx.depth and under(o.ctx, cx)]
        if not cand:
            return
        seen = set()
        todo = []

        def add(v):
            for x in v:
                while type(x) is tuple:
                    if x[0] == 'bm':
                        if x[1] not in seen:
                            seen.add(x[1])
                            todo.append(x[1])
                        x = x[2]
                    elif x[0] == 'bbm':
                        x = x[2]
                    else:
                        break
                if type(x) is Obj and x not in seen:
                    seen.add(x)
                    todo.append(x)
        add(val)
        for e in self.st.envs.values():
            for v in e.values():
                add(v)
        for o in heap:
            if o in self.base:
                add((o,))
        while todo:
            c = heap.get(todo.pop())
            if c:
                for f, v in c.items():
                    if f == ITEMS:
                        for w in v:
                            add(w)
                    else:
                        add(v)
        for o in cand:
            if o not in seen:
                del heap[o]

    def body(self, scope):
        """Run the body of a plain function; ends in act.rets."""
        n = scope.node
        if isinstance(n, ast.Lambda):
            v = self.eval(n.body)
            self.do_exit('return', v)
        self.block(n.body)
        self.do_exit('return', NONE)

    def fold(self, top, fobj, env, node):
        """A recursive call: use (and request) the summary of the active
        invocation top."""
        self.folds.setdefault(top.scope.where, set()).add(
            self.act.scope.where)
        self.event('recursion', node, top.scope.where)
        st = self.st
        st.envs['#call'] = dict(env)
        for o in [o for o in st.heap if o.age == 0 and o.ctx is not None
                  and under(o.ctx, top.ctx)]:
            st.age(o)
        env = st.envs.pop('#call')
        keep = {k: e for k, e in st.envs.items()
                if isinstance(k, Ctx) and under(k, top.ctx)
                or k in ('#', ) or isinstance(k, tuple)}
        inner = State(dict(st.heap), {k: e for k, e in st.envs.items()
                                      if k not in keep or k == '#'})
        saved_act, saved_st = self.act, self.st
        self.st = inner
        self.act = top
        try:
            self.enter_frame(top, fobj, env, node)
            inner = self.st
        finally:
            self.act, self.st = saved_act, saved_st
        ni = sjoin(top.rec_in, inner)
        if ni is not top.rec_in:
            top.rec_in = ni
            top.rec_changed = True
        top.rec_used = True
        out = None
        for src, which in ((top.rec_exc.get('x'), 'exc'),
                           (top.rec_out, 'out')):
            if src is None:
                continue
            e = src.envs.get(top.ctx, {})
            self.st = self.resume(src, st)
            if '#' in src.envs:
                self.st.envs['#'] = src.envs['#']
            # the callee shares its loops with the caller in the summary;
            # what happened to the caller's own is not undone
            for k, v in st.envs.get('#', {}).items():
                if k[0] == 'd':
                    self.setfact(k, self.fact(k) | v)
            if which == 'exc':
                self.throw(e.get('#exc', EMPTY))
            else:
                out = self.st
                val = e.get('#ret', NONE)
        if out is None:
            raise Dead()
        self.st = out
        return val

    # -------------------------------------------------------- generators

    def gen_ctx(self, g):
        return ctx(g.ctx, g.site, g.info)

    def trim(self, before):
        """Drop the frames of activations (suspended generators included)
        that did not exist in the envs `before`."""
        envs = self.st.envs
        new = [k for k in envs if k not in before]
        stashes = sorted((k for k in new if isinstance(k, tuple)),
                         key=lambda k: k[2])
        back = {}
        for k in stashes:
            if k[1] in before and k[1] not in back:
                back[k[1]] = envs[k]
        for k in new:
            del envs[k]
        envs.update(back)

    def run_gen(self, g, node, handler, external=False):
        """Run the whole body of generator g, passing each item to
        handler(val) with the consumer active."""
        scope = g.info
        consumer = self.act
        n, top = self.occurrences(scope)
        if n >= REC_LIMIT:
            return self.fold_gen(top, g, node, handler)
        cx = self.gen_ctx(g)
        act = Act(cx, scope, consumer, node)
        self.recall(act)
        act.is_gen = True
        stash = None
        before = dict(self.st.envs)
        if cx in self.st.envs:
            i = 0
            while ('stash', cx, i) in self.st.envs:
                i += 1
            stash = ('stash', cx, i)
            self.st.envs[stash] = self.st.envs.pop(cx)

        def on_yield(val):
            if act.rec_used or True:
                self.note_yield(act, val)
            if handler is None:
                return
            # the consumer's frame runs; the generator's stays in the state
            self.st.envs[cx] = dict(self.st.envs[cx])
            cur = self.act
            self.act = consumer
            try:
                handler(val)
            finally:
                self.act = cur
        act.handler = on_yield
        entry = self.st
        cell = self.cell(g)
        fo = [f for f in cell.get('#func', EMPTY) if type(f) is Obj]
        fobj = fo[0] if fo else None
        env = {k[1:]: v for k, v in cell.items() if k[0] == '@'}
        rounds = 0
        while True:
            rounds += 1
            if rounds > MAX_ITER:
                raise AnalysisError('no fixpoint for %s' % scope.where)
            act.tries, act.loops, act.rets = [], [], None
            act.uncaught = {}
            act.rec_changed = False
            self.st = entry.copy()
            self.act = act
            try:
                self.enter_frame(act, fobj, env, node)
                self.st = sjoin(self.st, act.rec_in).copy()
                try:
                    if isinstance(scope.node, ast.GeneratorExp):
                        self.genexp_body(scope.node)
                        self.do_exit('return', NONE)
                    else:
                        self.body(scope)
                except Dead:
                    pass
            finally:
                self.act = consumer
            if act.rec_used:
                no = sjoin(act.rec_out, act.rets)
                nx = sjoin(act.rec_exc.get('x'), act.uncaught.get('x'))
                if act.rec_changed or no is not act.rec_out \
                        or nx is not act.rec_exc.get('x'):
                    act.rec_out = no
                    act.rec_exc = {'x': nx}
                    continue
                self.recs[cx] = (act.rec_in, no, nx, act.yvals)
            break

        def leave():
            self.trim(before)
        st = act.uncaught.get('x')
        if st is not None:
            self.st = st.copy()
            exc = self.st.envs[cx].get('#exc', EMPTY)
            leave()
            self.throw(exc)
        if act.rets is None:
            raise Dead()
        self.st = act.rets.copy()
        self.genret = self.st.envs[cx].get('#ret', NONE)
        leave()

    def note_yield(self, act, val):
        st = self.st.copy()
        e = dict(st.envs.get(act.ctx, {}))
        e['#yv'] = val
        st.envs[act.ctx] = e
        n = sjoin(act.yvals, st)
        if n is not act.yvals:
            act.yvals = n
            act.rec_changed = True

    def fold_gen(self, top, g, node, handler):
        self.folds.setdefault(top.scope.where, set()).add(
            self.act.scope.where)
        self.event('recursion', node, top.scope.where)
        st = self.st
        pin = self.push(V(g))
        for o in [o for o in st.heap if o.age == 0 and o.ctx is not None
                  and under(o.ctx, top.ctx)]:
            st.age(o)
        gs = self.pop(pin)
        cell = self.cell(list(gs)[0])
        fo = [f for f in cell.get('#func', EMPTY) if type(f) is Obj]
        fobj = fo[0] if fo else None
        env = {k[1:]: v for k, v in cell.items() if k[0] == '@'}
        keep = {k for k in st.envs if isinstance(k, Ctx)
                and under(k, top.ctx) or isinstance(k, tuple)}
        inner = State(dict(st.heap), {k: e for k, e in st.envs.items()
                                      if k not in keep})
        saved_act, saved_st = self.act, self.st
        self.st = inner
        self.act = top
        try:
            self.enter_frame(top, fobj, env, node)
            inner = self.st
        finally:
            self.act, self.st = saved_act, saved_st
        ni = sjoin(top.rec_in, inner)
        if ni is not top.rec_in:
            top.rec_in = ni
            top.rec_changed = True
        top.rec_used = True
        if top.rec_exc.get('x') is not None:
            src = top.rec_exc['x']
            self.st = self.resume(src, st)
            self.throw(src.envs.get(top.ctx, {}).get('#exc', EMPTY))
        # zero or more items, then the end
        out = None
        if top.yvals is not None:
            src = top.yvals
            h = self.resume(src, st)
            for i in range(MAX_ITER):
                self.st = h.copy()
                val = src.envs.get(top.ctx, {}).get('#yv', EMPTY)
                try:
                    handler(val) if handler else None
                    nh = sjoin(h, self.st)
                except Dead:
                    nh = h
                if nh is h:
                    break
                h = nh
            out = h
        if top.rec_out is not None:
            out = sjoin(out, self.resume(top.rec_out, st))
        if out is None:
            raise Dead()
        self.st = out.copy()

    def genexp_body(self, node):
        def inner(i):
            if i == len(node.generators):
                v = self.eval(node.elt)
                self.do_yield(v, node)
                return
            g = node.generators[i]
            it = self.env().get('.0', EMPTY) if i == 0 else self.eval(g.iter)

            def body(e):
                self.assign(g.target, e, node)
                self.filtered(g.ifs, lambda: inner(i + 1))
            self.for_loop(g, it, body, [])
        inner(0)

    def filtered(self, ifs, thunk):
        """Run thunk when all conditions hold; join with the paths where
        they do not."""
        skip = None
        try:
            for c in ifs:
                t, f = self.branch(c)
                skip = sjoin(skip, f)
                if t is None:
                    raise Dead()
                self.st = t.copy()
            thunk()
            out = self.st
        except Dead:
            out = None
        out = sjoin(out, skip)
        if out is None:
            raise Dead()
        self.st = out.copy()

    def do_yield(self, val, node):
        h = self.act.handler
        if h is None:
            self.external_yield(val, node)
        else:
            h(val)
        if self.act.scope.where in self.last_yield \
                and len(self.act.loops) > 1:
            self.do_exit('break')

    def external_yield(self, val, node):
        self.event('yield', node)

    def exhausted(self, g):
        pass

    def forget_given(self):
        pass
