"""Expression evaluation for the abstract interpreter."""
import ast
import sys
import types
import builtins

from domain import *            # noqa
from domain import ITEMS, UNBOUND_ATOM
from interp import Interp, Dead, Act
from scopes import AnalysisError

CONTAINERS = ('list', 'dict', 'set', 'tuple', 'frozenset', 'deque', 'iter',
              'bytearray')
BIN_DUNDER = {
    'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv',
    'FloorDiv': 'floordiv', 'Mod': 'mod', 'Pow': 'pow', 'LShift': 'lshift',
    'RShift': 'rshift', 'BitOr': 'or', 'BitXor': 'xor', 'BitAnd': 'and',
    'MatMult': 'matmul'}
CMP_DUNDER = {'Eq': 'eq', 'NotEq': 'ne', 'Lt': 'lt', 'LtE': 'le',
              'Gt': 'gt', 'GtE': 'ge'}
CMP_SWAP = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq',
            'ne': 'ne'}
ORDER_OPS = ('Lt', 'LtE', 'Gt', 'GtE')
SIMPLE = (ast.Name, ast.Constant)


class ExprMixin(object):

    def eval(self, e):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise AnalysisError('unsupported expression %s at %s:%s' % (
                type(e).__name__, self.act.scope.where, e.lineno))
        v = m(e)
        if not v:
            raise Dead()
        return v

    def accum(self, pin, v):
        w = self.env().get(pin, EMPTY)
        n = vjoin(w, v)
        if n is not w:
            self.setvar(pin, n)

    def eval_many(self, exprs):
        """Evaluate left to right, keeping earlier values renamed."""
        pins = []
        out = []
        for i, e in enumerate(exprs):
            v = self.eval(e)
            if any(not isinstance(x, SIMPLE) for x in exprs[i + 1:]):
                pins.append(self.push(v))
                out.append(None)
            else:
                out.append(v)
        for i, p in enumerate(pins):
            out[i] = self.env().get(p, EMPTY)
        for p in pins:
            self.delvar(p)
        return out

    def e_Constant(self, e):
        if isinstance(e.value, (str, bytes)) and len(e.value) > 40:
            return prim(type(e.value).__name__)
        return const(e.value)

    def e_JoinedStr(self, e):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.stringify(self.eval(v.value), v)
        return STR

    # --------------------------------------------------------------- names

    def owner_of(self, name):
        """('local',) ('frame', scope) ('global',) for a name here"""
        sc = self.act.scope
        if sc.kind == 'class':
            if name in sc.locals and name not in sc.globals:
                return ('local', sc)
        kind, hops = sc.resolve(name)
        if kind == 'global':
            return ('global', None)
        if kind == 'local':
            if name in sc.cellvars:
                return ('frame', sc)
            return ('local', sc)
        for s in sc.enclosing_functions():
            if name in s.locals and name not in s.nonlocals:
                return ('frame', s)
        return ('global', None)

    def frames_of(self, scope):
        """Frame objects for an enclosing scope, from the current frame."""
        todo = list(self.env().get('#frame', EMPTY))
        out = []
        seen = set()
        while todo:
            o = todo.pop()
            if o in seen:
                continue
            seen.add(o)
            if o.info is scope:
                out.append(o)
            else:
                todo.extend(self.cell(o).get('#parent', EMPTY))
        return out

    def e_Name(self, e):
        return self.load_name(e.id, e)

    def load_name(self, name, node):
        kind, sc = self.owner_of(name)
        v = None
        if kind == 'local':
            v = self.env().get(name)
            if v is None and sc.kind == 'class':
                k2, _ = sc.resolve(name)
                v = self.global_lookup(name, node)
                return v
        elif kind == 'frame':
            for o in self.frames_of(sc):
                w = self.cell(o).get(name)
                if w is not None:
                    v = w if v is None else vjoin(v, w)
        else:
            return self.global_lookup(name, node)
        if v is None or v == UNBOUND:
            self.event('unbound', node, name)
            self.may_raise('NameError', 'UnboundLocalError')
            raise Dead()
        if UNBOUND_ATOM in v:
            self.event('maybe_unbound', node, name)
            v = v - UNBOUND
            if kind == 'local':
                self.setvar(name, v)
        return v

    def global_lookup(self, name, node):
        m = self.module_objs[self.act.scope.module.name]
        v = self.cell(m).get(name)
        if v is not None and v != UNBOUND:
            return v - UNBOUND
        if name in ('__name__', '__doc__', '__file__'):
            return STR
        if hasattr(builtins, name):
            if name in ('True', 'False', 'None'):
                return const(getattr(builtins, name))
            if name == 'NotImplemented':
                return const(NotImplemented)
            return V(ext(name))
        if not self.handled_somewhere(ext('NameError')):
            self.event('noname', node, name)
        self.may_raise('NameError')
        raise Dead()

    def store_name(self, name, val, node):
        kind, sc = self.owner_of(name)
        if kind == 'local':
            self.setvar(name, val)
        elif kind == 'frame':
            fr = self.frames_of(sc)
            for o in fr:
                self.set_field(o, name, val, len(fr) == 1 and o.age == 0)
        else:
            m = self.module_objs[self.act.scope.module.name]
            if self.act.scope.kind != 'module':
                self.mutate(V(m), 'global:' + name, node)
            if val == UNBOUND:
                c = dict(self.cell(m))
                c.pop(name, None)
                self.setcell(m, c)
            else:
                self.set_field(m, name, val, True)

    # --------------------------------------------------------- assignment

    def assign(self, t, v, node):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, node)
        elif isinstance(t, ast.Attribute):
            n = self.push(v)
            base = self.eval(t.value)
            v = self.pop(n)
            self.set_attr(base, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            n = self.push(v)
            base, k = self.eval_sub(t)
            v = self.pop(n)
            self.set_item(base, k, v, t)
        elif isinstance(t, ast.Starred):
            o = self.alloc('list', t, {'*': self.elem_any(v, t)})
            self.assign(t.value, V(o), node)
        else:
            raise AnalysisError('assignment to %s' % type(t).__name__)

    def unpack(self, t, v, node):
        elts = t.elts
        star = [i for i, x in enumerate(elts) if isinstance(x, ast.Starred)]
        exact = []
        other = []
        for x in v:
            c = self.cell(x) if type(x) is Obj else {}
            if type(x) is Obj and ITEMS in c and not star:
                exact.append(x)
            else:
                other.append(x)
        parts = [EMPTY] * len(elts)
        good = False
        for x in exact:
            it = self.cell(x)[ITEMS]
            if len(it) != len(elts):
                continue
            good = True
            parts = [vjoin(a, b) for a, b in zip(parts, it)]
        if exact and not good and not other:
            self.event('unpack', t, 'wrong number of values')
            self.may_raise('ValueError')
            raise Dead()
        if other:
            self.may_raise('ValueError', 'TypeError')
            e = self.elem_any(frozenset(other), t)
            if not e and not good:
                raise Dead()
            parts = [vjoin(a, e) for a in parts]
        pins = [self.push(p) for p in parts]
        for x, p in zip(elts, pins):
            w = self.env().get(p, EMPTY)
            if isinstance(x, ast.Starred):
                o = self.alloc('list', x, {'*': w})
                self.assign(x.value, V(o), node)
            else:
                self.assign(x, w, node)
        for p in pins:
            self.delvar(p)

    def elem_any(self, v, node):
        """Join of all items iterating v can give (runs generators)."""
        plain, gens = self.split_iter(v, node)
        e = EMPTY
        if plain:
            e = self.elem_of(plain, node)
        if gens:
            pin = self.push(e)
            r = self.collect_gens(gens, node)
            e = vjoin(self.pop(pin), r)
        return e

    def collect_gens(self, gens, node):
        """Run generators to the end, joining the items (weakly, in a
        scratch object so that renaming reaches them)."""
        box = self.alloc('list', node, {}, tag='collect')
        pin = self.push(V(box))
        entry = self.st
        out = None
        for g, trs in gens:
            self.st = entry.copy()

            def handler(val, trs=trs):
                val = self.transform(trs, val, node)
                for b in objs(self.env().get(pin, EMPTY)):
                    self.add_field(b, '*', val)
            try:
                self.run_gen(g, node, handler)
                out = sjoin(out, self.st)
            except Dead:
                pass
        if out is None:
            raise Dead()
        self.st = out.copy()
        r = EMPTY
        for b in objs(self.pop(pin)):
            r = vjoin(r, self.field(b, '*'))
        return r

    def eval_sub(self, t):
        base = self.eval(t.value)
        if isinstance(t.slice, SIMPLE):
            return base, self.eval_slice(t.slice)
        n = self.push(base)
        k = self.eval_slice(t.slice)
        return self.pop(n), k

    def eval_slice(self, s):
        if isinstance(s, ast.Slice):
            for x in (s.lower, s.upper, s.step):
                if x is not None:
                    self.eval(x)
            return V(('p', 'slice'))
        if isinstance(s, ast.Tuple) and any(
                isinstance(x, ast.Slice) for x in s.elts):
            for x in s.elts:
                self.eval_slice(x)
            return V(('p', 'slice'))
        return self.eval(s)

    def e_Slice(self, e):
        return self.eval_slice(e)

    def aug_assign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, t)
            n = self.push(cur)
            rhs = self.eval(s.value)
            cur = self.pop(n)
            v = self.aug(cur, op, rhs, s)
            self.store_name(t.id, v, t)
        elif isinstance(t, ast.Attribute):
            base = self.eval(t.value)
            n = self.push(base)
            cur = self.get_attr(base, t.attr, t)
            m = self.push(cur)
            rhs = self.eval(s.value)
            v = self.aug(self.env().get(m, EMPTY), op, rhs, s)
            self.pop(m)
            self.set_attr(self.pop(n), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            base, k = self.eval_sub(t)
            n = self.push(base)
            kk = self.push(k)
            cur = self.get_item(base, k, t)
            m = self.push(cur)
            rhs = self.eval(s.value)
            v = self.aug(self.env().get(m, EMPTY), op, rhs, s)
            self.pop(m)
            k = self.pop(kk)
            self.set_item(self.pop(n), k, v, t, aug=True)
        else:
            raise AnalysisError('aug assign')

    def aug(self, cur, op, rhs, node):
        """In-place operator: containers mutate, values are replaced."""
        acc = self.push(EMPTY)
        for x in cur:
            out = EMPTY
            if type(x) is Obj and x.kind in ('list', 'set', 'dict', 'deque'):
                how = {'list': 'extend', 'deque': 'extend'}.get(x.kind)
                if x.kind in ('set', 'dict'):
                    for y in rhs:
                        if type(y) is Obj and y.kind == 'arg':
                            self.use(y, 'operator', node)
                    how = {'BitOr': 'update', 'BitAnd':
                           'intersection_update', 'Sub': 'difference_update',
                           'BitXor': 'symmetric_difference_update'}.get(op)
                if op == 'Mult':
                    how = 'extend'
                if how is None:
                    self.event('badop', node, op)
                    continue
                if op == 'Mult':
                    self.mutate(V(x), 'aug', node)
                else:
                    self.builtin_method(how, x, [rhs], {}, node)
                out = vjoin(out, V(x))
            elif type(x) is Obj and x.kind == 'arg':
                clike = any(type(y) is Obj and y.kind in CONTAINERS
                            for y in rhs)
                rargs = [y for y in rhs if type(y) is Obj
                         and y.kind == 'arg']
                if clike and op in ('Add', 'BitOr', 'BitAnd', 'Sub',
                                    'BitXor'):
                    self.mutate(V(x), 'aug', node)
                elif rargs:
                    self.augs.append((x, rargs, node, self.act,
                                      self.construct(node)))
                out = vjoin(out, V(x))
                out = vjoin(out, ANY)
            else:
                if type(x) is Obj and x.kind == 'inst':
                    m = self.class_attr(x.info, '__i%s__' % BIN_DUNDER[op])
                    if m:
                        out = vjoin(out, self.call_value(
                            self.bind(m, x), [rhs], {}, node))
                        self.accum(acc, out)
                        continue
                out = vjoin(out, self.binop(V(x), op, rhs, node))
            self.accum(acc, out)
        out = self.pop(acc)
        if not out:
            raise Dead()
        return out

    # --------------------------------------------------------- attributes

    def e_Attribute(self, e):
        base = self.eval(e.value)
        return self.get_attr(base, e.attr, e)

    def mro(self, cls):
        """Depth first, left to right (enough for this package)."""
        out = []

        def go(c):
            if c in out:
                return
            out.append(c)
            if c.kind == 'class':
                sc = c.info
                bs = self.cell(c).get('#bases', EMPTY)
                for b in sorted(objs(bs), key=lambda x: x.n):
                    go(b)
        go(cls)
        return out

    def class_attr(self, cls, name):
        """Value of a class attribute through the MRO (package classes)."""
        if type(cls) is not Obj:
            return None
        for c in self.mro(cls):
            if c.kind == 'class':
                v = self.cell(c).get(name)
                if v is not None:
                    return v
        return None

    def ext_bases(self, cls):
        return [c.site for c in self.mro(cls) if c.kind == 'ext'
                and c.site != 'object'] if type(cls) is Obj else []

    def bind(self, v, selfatom, cls=None):
        """Bind a class attribute value to an instance."""
        out = set()
        for x in v:
            if type(x) is Obj and x.kind == 'func':
                out.add(('bm', x, selfatom))
            elif type(x) is Obj and x.kind == 'wrap':
                inner = self.field(x, '*')
                if x.site[3] == 'staticmethod':
                    out |= inner
                elif x.site[3] == 'classmethod':
                    c = cls or (selfatom.info if type(selfatom) is Obj
                                and selfatom.kind == 'inst' else selfatom)
                    for f in inner:
                        out.add(('bm', f, c))
                else:
                    out.add(x)
            else:
                out.add(x)
        return frozenset(out)

    def get_attr(self, v, name, node, default=None):
        out = EMPTY
        missing = []
        for x in list(v):
            r = self.attr_of(x, name, node)
            if r is None:
                missing.append(x)
            else:
                out = vjoin(out, r)
        if missing:
            self.may_raise('AttributeError')
            if default is not None:
                out = vjoin(out, default)
            elif not out:
                if self.handled_somewhere(ext('AttributeError')):
                    pass
                elif missing != [('c', 'NoneType', None)]:
                    self.event('noattr', node, name, obj=repr(missing[0]))
                else:
                    self.event('noneattr', node, name)
        if not out:
            raise Dead()
        return out

    def attr_of(self, x, name, node):
        """Attribute of one atom, or None when it cannot exist."""
        if type(x) is tuple:
            k = x[0]
            if k == 'c':
                if hasattr(x[2], name):
                    return V(('bbm', name, x))
                return None
            if k == 'p':
                if x[1] == 'int' and name in ('real', 'imag', 'numerator'):
                    return INT
                if x[1] in ('float', 'complex') and name in ('real', 'imag'):
                    return FLOAT
                if x[1] == 'any':
                    if name in ('real', 'imag'):
                        return ANY
                    return V(('bbm', name, x))
                t = getattr(builtins, x[1], None)
                if t is None or hasattr(t, name):
                    return V(('bbm', name, x))
                return None
            if k in ('bm', 'bbm'):
                if name in ('__name__', '__doc__', '__self__', '__func__'):
                    return ANY
                return None
            return None
        k = x.kind
        if k == 'arg':
            if node is not None:
                self.use(x, '.' + name, node)
            return V(arg_child(x, 'a:' + name))
        if k == 'inst':
            c = self.cell(x)
            if name in c and name[0] not in '*#@':
                return c[name]
            v = self.class_attr(x.info, name)
            if v is not None:
                out = EMPTY
                for y in v:
                    if type(y) is Obj and y.kind == 'wrap' \
                            and y.site[3] == 'property':
                        for f in self.field(y, '*'):
                            out = vjoin(out, self.call_value(
                                V(('bm', f, x)), [], {}, node))
                    else:
                        out = vjoin(out, self.bind(V(y), x))
                return out
            if name == '__class__':
                return V(x.info)
            if name == '__dict__':
                return V(self.alloc('dict', node, {
                    'k': STR, 'v': frozenset().union(
                        *[w for f, w in c.items() if f[0] not in '*#@'])},
                    tag='__dict__'))
            for b in self.ext_bases(x.info):
                t = self.ext_type(b)
                if t is not None and hasattr(t, name):
                    if name == 'args':
                        return c.get('args', ANY)
                    return V(('bbm', name, x))
                if t is None:
                    return V(('bbm', name, x))
            if hasattr(object, name):
                return V(('bbm', name, x))
            m = self.class_attr(x.info, '__getattr__')
            if m:
                return self.call_value(self.bind(m, x), [STR], {}, node)
            return None
        if k == 'class':
            v = self.class_attr(x, name)
            if v is not None:
                out = set()
                for y in v:
                    if type(y) is Obj and y.kind == 'wrap':
                        out |= self.bind(V(y), x, x)
                    else:
                        out.add(y)
                return frozenset(out)
            if name in ('__name__', '__doc__', '__module__'):
                return STR
            if name == '__bases__' or name == '__mro__':
                return ANY
            for b in self.ext_bases(x):
                t = self.ext_type(b)
                if t is None or hasattr(t, name):
                    return V(ext(b + '.' + name))
            if hasattr(object, name):
                return V(ext('object.' + name))
            return None
        if k == 'module':
            c = self.cell(x)
            if name in c:
                return c[name]
            if x.site[1] == '__init__' and name in self.modules \
                    and name in self.module_objs:
                return V(self.module_objs[name])
            return None
        if k == 'ext':
            return self.ext_attr(x, name, node, quiet=True)
        if k == 'super':
            for c in objs(self.cell(x).get('#mro', EMPTY)):
                pass
            return self.super_attr(x, name, node)
        if k == 'func':
            c = self.cell(x)
            if name in c and name[0] not in '*#@':
                return c[name]
            if name in ('__name__', '__doc__', '__module__', '__qualname__'):
                return STR
            if hasattr(types.FunctionType, name):
                return ANY
            return None
        if k == 'gen':
            if name in ('send', 'throw', 'close', '__next__', '__iter__'):
                return V(('bbm', name, x))
            return None
        t = self.kind_type(x)
        if t is None or hasattr(t, name):
            return V(('bbm', name, x))
        return None

    def kind_type(self, x):
        import collections
        k = x.kind
        if k == 'dict' and x.info == 'defaultdict':
            return collections.defaultdict
        if k == 'dict' and x.info == 'Counter':
            return collections.Counter
        if k == 'dict' and x.info == 'OrderedDict':
            return collections.OrderedDict
        if k == 'deque':
            return collections.deque
        if k == 'iter':
            return type(iter([])) if x.info != 'extobj' else None
        return getattr(builtins, k, None)

    def super_attr(self, x, name, node):
        c = self.cell(x)
        selfs = c.get('#self', EMPTY)
        cls = list(c.get('#cls', EMPTY))[0]
        for s in selfs:
            start = s.info if type(s) is Obj and s.kind == 'inst' else cls
            m = self.mro(start)
            i = m.index(cls) + 1 if cls in m else 0
            for b in m[i:]:
                if b.kind == 'class':
                    v = self.cell(b).get(name)
                    if v is not None:
                        return self.bind(v, s)
                elif b.kind == 'ext':
                    t = self.ext_type(b.site)
                    if t is None or hasattr(t, name):
                        return V(('bbm', name, s))
            if hasattr(object, name):
                return V(('bbm', name, s))
        return None

    def set_attr(self, base, name, val, node):
        self.mutate(base, 'setattr:' + name, node, val)
        strong = self.is_strong(base)
        for x in objs(base):
            if x.kind in ('inst', 'class', 'func', 'module'):
                if x.kind == 'inst':
                    p = self.class_attr(x.info, name)
                    if p:
                        for y in objs(p):
                            if y.kind == 'wrap' and y.site[3] == 'property':
                                for f in self.field(y, 'set'):
                                    self.call_value(V(('bm', f, x)), [val],
                                                    {}, node)
                self.set_field(x, name, val, strong)
            elif x.kind == 'iter' and x.info == 'extobj':
                self.add_field(x, '#cb', val)

    # ---------------------------------------------------------- mutations

    def mutate(self, base, how, node, val=None):
        """Every write to a container, attribute or global passes here."""
        if self.building:
            return
        for x in base:
            if type(x) is not Obj:
                continue
            if x.kind == 'arg':
                self.arg_mutated(x, how, node)
            elif x in self.base and x.kind not in ('frame',):
                self.base_mutated(x, how, node, val)
            if is_given(x) and not how.startswith('setattr'):
                self.event('givenmut', node, how, obj=x)
            self.on_mutate(x, base, how, node)

    def begin_method(self, selfv, meth):
        pass

    def on_mutate(self, x, base, how, node):
        pass

    def arg_mutated(self, x, how, node):
        if 'r' in x.info:
            return
        self.event('argmut', node, '%s %s' % (x.label(), how), obj=x,
                   how=how)

    def base_mutated(self, x, how, node, val):
        self.event('globalmut', node, '%s %s' % (
            self.global_names.get(x, x.label()), how), obj=x, how=how,
            val=val)

    # -------------------------------------------------------------- items

    def e_Subscript(self, e):
        base, k = self.eval_sub(e)
        return self.get_item(base, k, e)

    def get_item(self, base, k, node):
        bad = []
        acc = self.push(EMPTY)
        isslice = k == V(('p', 'slice'))
        pin = None
        for x in list(base):
            r = None
            if type(x) is tuple:
                if x[0] == 'c' and x[1] in ('str', 'bytes') or \
                        x[0] == 'p' and x[1] in ('str', 'bytes'):
                    r = prim(x[1] if x[0] == 'p' else x[1])
                    if 'bytes' in x and not isslice:
                        r = INT
                    self.may_raise('IndexError')
                elif x[0] == 'p' and x[1] == 'any':
                    r = ANY
                    self.may_raise('KeyError', 'IndexError', 'TypeError')
                else:
                    bad.append(x)
                    continue
            elif x.kind == 'arg':
                self.evidence.add(x)
                self.use(x, 'slice' if isslice else 'getitem', node)
                self.may_raise('KeyError', 'IndexError', 'TypeError')
                if isslice:
                    r = V(self.alloc('list', node, {
                        '*': V(arg_child(x, 'k'))}, tag='slice'))
                else:
                    r = V(arg_child(x, 'v'))
            elif x.kind == 'inst':
                m = self.class_attr(x.info, '__getitem__')
                if m:
                    r = self.try_call(self.bind(m, x), [k], {}, node)
                elif self.container_base(x):
                    r = self.load_elem(x, k, node, self.container_base(x))
                else:
                    bad.append(x)
                    continue
            elif x.kind == 'class' or x.kind == 'ext':
                r = V(x) if x.kind == 'class' else ANY
            elif x.kind in ('list', 'tuple', 'deque', 'bytearray'):
                r = self.load_elem(x, k, node, x.kind)
            elif x.kind == 'dict':
                r = self.load_elem(x, k, node, 'dict')
            elif x.kind == 'iter' and x.info == 'range':
                r = INT
            else:
                bad.append(x)
                continue
            if r:
                self.accum(acc, r)
        out = self.pop(acc)
        if bad and not out:
            if bad == [('c', 'NoneType', None)]:
                self.event('noneitem', node)
            else:
                self.event('badsubscript', node, '', obj=repr(bad[0]))
        if bad:
            self.may_raise('TypeError')
        return out

    def try_call(self, f, args, kwargs, node):
        """Call keeping going on other alternatives if it never returns."""
        entry = self.st
        try:
            return self.call_value(f, args, kwargs, node)
        except Dead:
            self.st = entry
            return EMPTY

    def container_base(self, x):
        for b in self.ext_bases(x.info):
            b = b.split('.')[-1]
            if b in ('dict', 'defaultdict', 'OrderedDict', 'Counter'):
                return 'dict'
            if b in ('list', 'set', 'tuple', 'frozenset', 'deque'):
                return b
        return None

    def load_elem(self, x, k, node, kind):
        c = self.cell(x)
        if kind in ('list', 'tuple', 'deque', 'bytearray'):
            if k == V(('p', 'slice')):
                cell = {'*': self.field(x, '*')}
                if ITEMS in c and isinstance(node, ast.Subscript):
                    sl = self.const_slice(node.slice)
                    if sl is not None:
                        cell = {ITEMS: c[ITEMS][sl]}
                return V(self.alloc(kind, node, cell, tag='slice'))
            self.may_raise('IndexError', 'TypeError')
            if ITEMS in c:
                r = EMPTY
                hit = False
                for a in k:
                    if type(a) is tuple and a[0] == 'c' and isinstance(
                            a[2], int):
                        try:
                            r = vjoin(r, c[ITEMS][a[2]])
                            hit = True
                        except IndexError:
                            pass
                    else:
                        r = None
                        break
                if r is not None and hit:
                    return r
            return self.field(x, '*')
        # dict
        self.may_raise('KeyError', 'TypeError')
        r = c.get('v', EMPTY)
        fac = c.get('#factory')
        if fac:
            pin = self.push(V(x))
            kp = self.push(k)
            v = EMPTY
            for f in fac:
                if f == ('c', 'NoneType', None):
                    continue
                v = vjoin(v, self.try_call(V(f), [], {}, node))
            k = self.pop(kp)
            b = self.pop(pin)
            if v:
                self.mutate(b, 'defaultitem', node)
                for o in objs(b):
                    self.add_field(o, 'k', k)
                    self.add_field(o, 'v', v)
                    r = vjoin(r, self.field(o, 'v'))
        elif x.kind == 'inst':
            m = self.class_attr(x.info, '__missing__')
            if m:
                r = vjoin(r, self.try_call(self.bind(m, x), [k], {}, node))
        return r

    def const_slice(self, s):
        def val(n):
            if n is None:
                return True, None
            if isinstance(n, ast.Constant) and isinstance(n.value, int):
                return True, n.value
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) \
                    and isinstance(n.operand, ast.Constant):
                return True, -n.operand.value
            return False, None
        if not isinstance(s, ast.Slice):
            return None
        vs = [val(x) for x in (s.lower, s.upper, s.step)]
        if all(ok for ok, _ in vs):
            return slice(*[v for _, v in vs])
        return None

    def set_item(self, base, k, val, node, aug=False):
        self.mutate(base, 'setitem' if not aug else 'augitem', node)
        for x in objs(base):
            if x.kind == 'inst':
                m = self.class_attr(x.info, '__setitem__')
                if m:
                    self.try_call(self.bind(m, x), [k, val], {}, node)
                    continue
                kind = self.container_base(x)
                if kind is None:
                    self.event('badstore', node, '', obj=repr(x))
                    continue
            else:
                kind = x.kind
            if kind == 'dict':
                self.may_raise('TypeError')
                self.add_field(x, 'k', k)
                self.add_field(x, 'v', val)
            elif kind in ('list', 'deque'):
                if k == V(('p', 'slice')):
                    c = fold_items(self.cell(x))
                    self.setcell(x, c)
                    pin = self.push(V(x))
                    e = self.elem_any(val, node)
                    for o in objs(self.pop(pin)):
                        self.add_field(o, '*', e)
                    continue
                self.may_raise('IndexError')
                c = self.cell(x)
                if ITEMS in c:
                    ks = [a[2] for a in k if type(a) is tuple
                          and a[0] == 'c' and isinstance(a[2], int)]
                    n = len(c[ITEMS])
                    if len(ks) == len(k) == 1 and -n <= ks[0] < n:
                        it = list(c[ITEMS])
                        if self.is_strong(base):
                            it[ks[0]] = val
                        else:
                            it[ks[0]] = vjoin(it[ks[0]], val)
                        c = dict(c)
                        c[ITEMS] = tuple(it)
                        self.setcell(x, c)
                    else:
                        c = dict(c)
                        c[ITEMS] = tuple(vjoin(a, val) for a in c[ITEMS])
                        self.setcell(x, c)
                else:
                    self.add_field(x, '*', val)
            elif kind in ('tuple', 'set', 'frozenset', 'str'):
                if len(base) == 1:
                    self.event('badstore', node, kind)

    def del_item(self, base, k, node):
        self.mutate(base, 'delitem', node)
        self.may_raise('KeyError', 'IndexError', 'TypeError')
        for x in objs(base):
            if x.kind == 'inst':
                m = self.class_attr(x.info, '__delitem__')
                if m:
                    self.try_call(self.bind(m, x), [k], {}, node)
                    continue
                if self.container_base(x) is None:
                    self.event('badstore', node, '', obj=repr(x))
            elif x.kind == 'list':
                c = self.cell(x)
                if ITEMS in c:
                    self.setcell(x, fold_items(c))

    # ----------------------------------------------------------- literals

    def e_Tuple(self, e):
        return self.display('tuple', e)

    def e_List(self, e):
        return self.display('list', e)

    def display(self, kind, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            vs = []
            pins = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.elem_any(self.eval(x.value), x)
                else:
                    v = self.eval(x)
                pins.append(self.push(v))
            r = EMPTY
            for p in pins[::-1]:
                r = vjoin(r, self.pop(p))
            return V(self.alloc(kind, e, {'*': r}))
        vs = self.eval_many(e.elts)
        if len(vs) > 12:
            r = EMPTY
            for v in vs:
                r = vjoin(r, v)
            return V(self.alloc(kind, e, {'*': r}))
        return V(self.alloc(kind, e, {ITEMS: tuple(vs)}))

    def e_Set(self, e):
        vs = self.eval_many([x.value if isinstance(x, ast.Starred) else x
                             for x in e.elts])
        r = EMPTY
        for x, v in zip(e.elts, vs):
            if isinstance(x, ast.Starred):
                v = self.elem_any(v, e)
            r = vjoin(r, v)
        return V(self.alloc('set', e, {'k': r}))

    def e_Dict(self, e):
        ks = EMPTY
        vs = EMPTY
        kp = self.push(ks)
        vp = self.push(vs)
        for k, v in zip(e.keys, e.values):
            if k is None:
                b = self.eval(v)
                for o in objs(b):
                    if o.kind == 'dict':
                        self.setvar(kp, vjoin(self.env()[kp],
                                              self.field(o, 'k')))
                        self.setvar(vp, vjoin(self.env()[vp],
                                              self.field(o, 'v')))
                    elif o.kind == 'arg':
                        self.setvar(kp, vjoin(self.env()[kp],
                                              V(arg_child(o, 'k'))))
                        self.setvar(vp, vjoin(self.env()[vp],
                                              V(arg_child(o, 'v'))))
                continue
            a = self.eval(k)
            self.setvar(kp, vjoin(self.env()[kp], a))
            b = self.eval(v)
            self.setvar(vp, vjoin(self.env()[vp], b))
        vs = self.pop(vp)
        ks = self.pop(kp)
        return V(self.alloc('dict', e, {'k': ks, 'v': vs}))

    # ----------------------------------------------------- comprehensions

    def comp_targets(self, e):
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        return names

    def comprehension(self, kind, e, store):
        names = self.comp_targets(e)
        saved = {}
        for n in names:
            k, sc = self.owner_of(n)
            if k == 'local':
                v = self.env().get(n)
                if v is not None:
                    saved[n] = '#s%d.%s' % (id(e), n)
                    self.setvar(saved[n], v)
        o = self.alloc(kind, e, {} if kind == 'dict' else {})
        pin = '#c%d' % id(e)
        self.setvar(pin, V(o))

        def inner(i):
            if i == len(e.generators):
                store(pin)
                return
            g = e.generators[i]
            it = self.eval(g.iter)

            def body(x):
                self.assign(g.target, x, e)
                self.filtered(g.ifs, lambda: inner(i + 1))
            self.for_loop(g, it, body, [])
        inner(0)
        r = self.pop(pin)
        for n in names:
            k, sc = self.owner_of(n)
            if k == 'local':
                if n in saved:
                    self.setvar(n, self.pop(saved[n]))
                elif self.act.scope.kind != 'module':
                    self.delvar(n)
        return r

    def e_ListComp(self, e):
        def store(pin):
            v = self.eval(e.elt)
            for o in objs(self.env()[pin]):
                self.add_field(o, '*', v)
        return self.comprehension('list', e, store)

    def e_SetComp(self, e):
        def store(pin):
            v = self.eval(e.elt)
            for o in objs(self.env()[pin]):
                self.add_field(o, 'k', v)
        return self.comprehension('set', e, store)

    def e_DictComp(self, e):
        def store(pin):
            k, v = self.eval_many([e.key, e.value])
            for o in objs(self.env()[pin]):
                self.add_field(o, 'k', k)
                self.add_field(o, 'v', v)
        return self.comprehension('dict', e, store)

    def e_GeneratorExp(self, e):
        scope = self.scopes[e]
        it = self.eval(e.generators[0].iter)
        cell = {'@.0': it}
        fcell = {}
        fr = self.env().get('#frame')
        if fr:
            fcell['#frame'] = fr
        # a pseudo function object carries the closure frame
        pin = self.push(it)
        f = self.alloc('func', e, fcell, scope, tag='genexpr')
        cell['#func'] = V(f)
        cell['@.0'] = self.pop(pin)
        return V(self.alloc('gen', e, cell, scope, tag='gen'))

    def e_Lambda(self, e):
        return self.make_function(e, self.scopes[e])

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.store_name(e.target.id, v, e)
        return v

    def e_Starred(self, e):
        return self.eval(e.value)

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else NONE
        self.do_yield(v, e)
        return ANY | NONE

    def e_YieldFrom(self, e):
        v = self.eval(e.value)

        def body(x):
            self.do_yield(x, e)
        self.for_loop(e, v, body, [])
        return ANY | NONE

    def e_Await(self, e):
        raise AnalysisError('await')

    # ------------------------------------------------------------ booleans

    def e_IfExp(self, e):
        t, f = self.branch(e.test)
        res = {}

        def side(x):
            def go():
                v = self.eval(x)
                self.setvar('#if%d' % id(e), v)
            return go
        self.run_branches([(t, side(e.body)), (f, side(e.orelse))])
        v = self.env()['#if%d' % id(e)]
        self.delvar('#if%d' % id(e))
        return v

    def e_BoolOp(self, e):
        name = '#b%d' % id(e)
        out = None
        isand = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            if last:
                try:
                    v = self.eval(x)
                    self.setvar(name, v)
                    out = sjoin(out, self.st)
                except Dead:
                    pass
                break
            try:
                t, f = self.branch(x, keep=name)
            except Dead:
                break
            stop, go = (f, t) if isand else (t, f)
            if stop is not None:
                self.st = stop.copy()
                v = self.env().get(name, EMPTY)
                w = frozenset(a for a in v
                              if self.truth_of(a)[1 if isand else 0])
                self.setvar(name, w or v)
                out = sjoin(out, self.st)
            if go is None:
                break
            self.st = go.copy()
        if out is None:
            raise Dead()
        self.st = out.copy()
        v = self.env().get(name, EMPTY)
        self.delvar(name)
        return v

    def truth_of(self, a):
        """(may be true, may be false) for an atom"""
        if type(a) is tuple:
            if a[0] == 'c':
                b = bool(a[2]) if a[2] is not NotImplemented else True
                return b, not b
            if a[0] == 'p':
                return True, True
            if a[0] == 'u':
                return False, False
            return True, False
        if a.kind in ('list', 'dict', 'set', 'tuple', 'frozenset', 'deque'):
            c = self.cell(a)
            if ITEMS in c:
                if a.kind == 'tuple' or a.age == 0:
                    n = len(c[ITEMS])
                    return n > 0, n == 0
            if a.kind in ('dict', 'set', 'frozenset'):
                e = c.get('k', EMPTY)
            else:
                e = c.get('*', EMPTY)
            if not e and ITEMS not in c:
                return False, True
            return True, True
        if a.kind in ('arg', 'iter'):
            return True, True
        if a.kind == 'inst':
            if self.class_attr(a.info, '__bool__') or \
                    self.class_attr(a.info, '__len__') or \
                    self.container_base(a):
                return True, True
            return True, False
        return True, False

    def tested(self, v, node):
        """The truth value of v is asked for."""
        got = frozenset(x for x in v if type(x) is Obj)
        self.event('truth', node, '', tested=got)
        key = ('truth', self.act.scope.where, self.construct(node), '')
        rec = self.events.get(key)
        if rec is not None:
            rec['tested'] = rec['tested'] | got

    def truth(self, v, node):
        """Truth of a value; runs __bool__/__len__ of instances."""
        self.tested(v, node)
        t = f = False
        for a in v:
            x, y = self.truth_of(a)
            if type(a) is Obj and a.kind == 'inst':
                for m in ('__bool__', '__len__'):
                    w = self.class_attr(a.info, m)
                    if w:
                        r = self.try_call(self.bind(w, a), [], {}, node)
                        if m == '__bool__' and r:
                            x = any(self.truth_of(q)[0] for q in r)
                            y = any(self.truth_of(q)[1] for q in r)
                        break
            t |= x
            f |= y
        return t, f

    def branch(self, e, keep=None):
        """Evaluate a condition -> (state if true, state if false).  With
        keep, the value of the condition is left in that variable."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not) \
                and not keep:
            t, f = self.branch(e.operand)
            return f, t
        if isinstance(e, ast.BoolOp) and not keep:
            isand = isinstance(e.op, ast.And)
            out = None
            for i, x in enumerate(e.values):
                try:
                    t, f = self.branch(x)
                except Dead:
                    t = f = None
                stop, go = (f, t) if isand else (t, f)
                out = sjoin(out, stop)
                if go is None:
                    break
                self.st = go.copy()
            return (go, out) if isand else (out, go)
        v = self.eval(e)
        if keep:
            self.setvar(keep, v)
        ct, cf = self.truth(v, e)
        st = self.st
        t = f = None
        if ct:
            self.st = st.copy()
            if self.refine(e, True):
                t = self.st
        if cf:
            self.st = st.copy()
            if self.refine(e, False):
                f = self.st
        self.st = st
        return t, f

    def refine(self, e, outcome):
        """Narrow variables knowing the condition came out that way.
        Returns False when that is impossible."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.refine(e.operand, not outcome)
        if isinstance(e, ast.NamedExpr):
            e = e.target
        if isinstance(e, (ast.Name, ast.Attribute)):
            return self.narrow(e, lambda a: self.truth_of(a)[
                0 if outcome else 1])
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            op = type(e.ops[0]).__name__
            l, r = e.left, e.comparators[0]
            if op in ('Eq', 'NotEq', 'Is', 'IsNot'):
                same = (op in ('Eq', 'Is')) == outcome
                for a, b in ((l, r), (r, l)):
                    if isinstance(b, ast.Constant) and (
                            b.value is None or
                            isinstance(b.value, (str, int, bool))):
                        c = ('c', type(b.value).__name__, b.value)
                        if isinstance(a, (ast.Name, ast.Attribute)):
                            isn = b.value is None
                            if same:
                                def keepf(x):
                                    if type(x) is tuple and x[0] == 'c':
                                        return x == c or (
                                            not isn and x[2] == b.value)
                                    if type(x) is tuple and x[0] == 'p':
                                        return not isn or x[1] == 'any'
                                    if type(x) is Obj:
                                        return x.kind == 'arg' or \
                                            x.kind == 'inst' and not isn
                                    return False
                            else:
                                def keepf(x):
                                    return x != c
                            return self.narrow(a, keepf)
            if op in ('In', 'NotIn') and isinstance(r, ast.Tuple):
                pass
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) \
                and e.func.id == 'isinstance' and len(e.args) == 2 \
                and isinstance(e.args[0], (ast.Name, ast.Attribute)):
            try:
                cls = self.eval(e.args[1])
            except Dead:
                return True

            def keepi(x):
                may, must = self.isinstance_atom(x, cls)
                return may if outcome else not must
            return self.narrow(e.args[0], keepi)
        return True

    def narrow(self, e, keepf):
        if isinstance(e, ast.Name):
            kind, sc = self.owner_of(e.id)
            if kind == 'local':
                v = self.env().get(e.id)
                if v is None:
                    return True
                w = frozenset(a for a in v if keepf(a))
                if not w:
                    return False
                if w != v:
                    self.setvar(e.id, w)
            elif kind == 'frame':
                fr = self.frames_of(sc)
                if len(fr) == 1 and fr[0].age == 0:
                    v = self.cell(fr[0]).get(e.id)
                    if v is not None:
                        w = frozenset(a for a in v if keepf(a))
                        if not w:
                            return False
                        if w != v:
                            self.set_field(fr[0], e.id, w, True)
            return True
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            kind, sc = self.owner_of(e.value.id)
            if kind == 'local':
                b = self.env().get(e.value.id, EMPTY)
            elif kind == 'frame':
                fr = self.frames_of(sc)
                if len(fr) != 1:
                    return True
                b = self.cell(fr[0]).get(e.value.id, EMPTY)
            else:
                return True
            if self.is_strong(b):
                o, = b
                if o.kind == 'inst':
                    v = self.cell(o).get(e.attr)
                    if v is not None:
                        w = frozenset(a for a in v if keepf(a))
                        if not w:
                            return False
                        if w != v:
                            self.set_field(o, e.attr, w, True)
        return True

    # ----------------------------------------------------------- operators

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            v = self.eval(e.operand)
            t, f = self.truth(v, e)
            out = EMPTY
            if f:
                out = vjoin(out, TRUE)
            if t:
                out = vjoin(out, FALSE)
            return out
        v = self.eval(e.operand)
        name = {'USub': '__neg__', 'UAdd': '__pos__',
                'Invert': '__invert__'}[type(e.op).__name__]
        out = EMPTY
        for x in v:
            if type(x) is tuple and x[0] == 'c' and \
                    isinstance(x[2], (int, float)) and \
                    isinstance(e.operand, ast.Constant):
                try:
                    out = vjoin(out, const(getattr(x[2], name)()))
                    continue
                except AttributeError:
                    pass
            if type(x) is tuple:
                if x[0] == 'c' and isinstance(x[2], (int, float, complex)):
                    out = vjoin(out, prim('int' if isinstance(x[2], int)
                                          else type(x[2]).__name__))
                elif x[0] == 'p':
                    out = vjoin(out, prim('int' if x[1] == 'bool'
                                          else x[1]))
                elif x[0] == 'c' and x[2] is None:
                    pass
                else:
                    pass
            elif x.kind == 'arg':
                out = vjoin(out, V(arg_child(x, 'r')) | ANY)
            elif x.kind == 'inst':
                m = self.class_attr(x.info, name)
                if m:
                    out = vjoin(out, self.try_call(self.bind(m, x), [], {},
                                                   e))
        if not out:
            self.event('badop', e, name)
        return out

    def e_BinOp(self, e):
        l, r = self.eval_many([e.left, e.right])
        return self.binop(l, type(e.op).__name__, r, e)

    def binop(self, l, op, r, node):
        if len(l) == 1 and len(r) == 1:
            out = self.binop1(list(l)[0], op, list(r)[0], node)
        else:
            acc = self.push(EMPTY)
            for x in l:
                for y in r:
                    self.accum(acc, self.binop1(x, op, y, node))
            out = self.pop(acc)
        if not out:
            self.event('badop', node, op)
            self.may_raise('TypeError')
        return out

    def numkind(self, x):
        if x[0] == 'c':
            if isinstance(x[2], bool):
                return 'int'
            return x[1]
        if x[1] == 'bool':
            return 'int'
        return x[1]

    def binop1(self, x, op, y, node):
        d = BIN_DUNDER[op]
        for o, other, n in ((x, y, '__%s__' % d), (y, x, '__r%s__' % d)):
            if type(o) is Obj and o.kind == 'inst':
                m = self.class_attr(o.info, n)
                if m:
                    r = self.try_call(self.bind(m, o), [V(other)], {}, node)
                    return frozenset(a for a in r
                                     if a != ('c', 'NotImplementedType',
                                              NotImplemented))
        if type(x) is Obj and x.kind == 'arg' or \
                type(y) is Obj and y.kind == 'arg':
            out = ANY
            for a in (x, y):
                if type(a) is Obj and a.kind == 'arg':
                    self.use(a, 'operator', node)
                    out = vjoin(out, V(arg_child(a, 'r')))
            for a in (x, y):
                if type(a) is Obj and a.kind in ('list', 'tuple'):
                    c = {'*': self.field(a, '*')}
                    b = y if a is x else x
                    if type(b) is Obj:
                        c['*'] = vjoin(c['*'], V(arg_child(b, 'k')))
                    return V(self.alloc(a.kind, node, c, tag=op))
                if type(a) is Obj and a.kind in ('set', 'frozenset'):
                    b = y if a is x else x
                    e = self.field(a, 'k')
                    if op in ('BitOr', 'BitXor') or a is y:
                        if type(b) is Obj:
                            e = vjoin(e, V(arg_child(b, 'k')))
                    return V(self.alloc(a.kind, node, {'k': e}, tag=op))
            if type(x) is tuple and self.numkind(x) == 'str' and op == 'Mod':
                self.stringify(V(y), node)
                return STR
            return out
        if type(x) is tuple and type(y) is tuple:
            if x[0] in ('bm', 'bbm') or y[0] in ('bm', 'bbm'):
                return EMPTY
            a, b = self.numkind(x), self.numkind(y)
            if a == 'str' and op == 'Mod':
                self.stringify(V(y), node)
                return STR
            if 'NoneType' in (a, b) or 'u' in (a, b):
                return EMPTY
            if a == 'any' or b == 'any':
                return ANY
            if a == b == 'str' and op == 'Add':
                return STR
            if (a == 'str' or b == 'str') and op == 'Mult':
                return STR if 'int' in (a, b) else EMPTY
            if a == 'bytes' or b == 'bytes':
                return prim('bytes')
            nums = ('int', 'float', 'complex')
            if a in nums and b in nums:
                if op == 'Pow':
                    return ANY
                if op == 'Div':
                    t = 'complex' if 'complex' in (a, b) else 'float'
                else:
                    t = nums[max(nums.index(a), nums.index(b))]
                if self.building and x[0] == 'c' and y[0] == 'c':
                    pass
                return prim(t)
            return EMPTY
        # containers
        if type(x) is tuple or type(y) is tuple:
            c, p = (y, x) if type(x) is tuple else (x, y)
            if type(x) is tuple and x[0] in ('c', 'p') and \
                    self.numkind(x) == 'str' and op == 'Mod':
                self.stringify(V(y), node)
                return STR
            if op == 'Mult' and c.kind in ('list', 'tuple', 'deque') and \
                    p[0] in ('c', 'p') and self.numkind(p) in ('int', 'any'):
                cc = fold_items(self.cell(c))
                return V(self.alloc(c.kind, node,
                                    {'*': cc.get('*', EMPTY)}, tag=op))
            if p[0] == 'p' and p[1] == 'any':
                if c.kind in ('list', 'tuple'):
                    return V(self.alloc(c.kind, node, {'*': vjoin(
                        self.field(c, '*'), ANY)}, tag=op))
                if c.kind in ('set', 'frozenset'):
                    return V(self.alloc(c.kind, node, {'k': vjoin(
                        self.field(c, 'k'), ANY)}, tag=op))
                return ANY
            return EMPTY
        if x.kind in ('set', 'frozenset') or (
                x.kind == 'iter' and x.info == 'keys'):
            if y.kind in ('set', 'frozenset', 'dict', 'iter'):
                e = self.elem_of(V(x), node)
                if op in ('BitOr', 'BitXor'):
                    e = vjoin(e, self.elem_of(V(y), node))
                if op in ('BitOr', 'BitXor', 'BitAnd', 'Sub'):
                    k = x.kind if x.kind != 'iter' else 'set'
                    return V(self.alloc(k, node, {'k': e}, tag=op))
            return EMPTY
        if x.kind in ('list', 'tuple', 'deque') and y.kind == x.kind \
                and op == 'Add':
            cx, cy = self.cell(x), self.cell(y)
            if ITEMS in cx and ITEMS in cy and \
                    len(cx[ITEMS]) + len(cy[ITEMS]) <= 6:
                return V(self.alloc(x.kind, node,
                                    {ITEMS: cx[ITEMS] + cy[ITEMS]}, tag=op))
            return V(self.alloc(x.kind, node, {'*': vjoin(
                self.field(x, '*'), self.field(y, '*'))}, tag=op))
        if x.kind == 'dict' and y.kind == 'dict' and op == 'BitOr':
            return V(self.alloc('dict', node, {
                'k': vjoin(self.field(x, 'k'), self.field(y, 'k')),
                'v': vjoin(self.field(x, 'v'), self.field(y, 'v'))}, tag=op))
        if 'ext' in (x.kind, y.kind) or 'extobj' in (x.info, y.info):
            return ANY
        return EMPTY

    def e_Compare(self, e):
        vals = self.eval_many([e.left] + e.comparators)
        out = EMPTY
        res = None
        for op, l, r in zip(e.ops, vals, vals[1:]):
            b = self.compare(type(op).__name__, l, r, e)
            res = b if res is None else vjoin(res, b) | (
                FALSE if FALSE <= res else EMPTY)
        if len(e.ops) > 1:
            ts = [self.truth(self.compare_quiet(o, l, r, e), e)
                  for o, l, r in zip(e.ops, vals, vals[1:])]
            res = BOOL
        return res

    def compare_quiet(self, o, l, r, e):
        return BOOL

    def compare(self, op, l, r, node):
        if self.compare_hook is not None:
            h = self.compare_hook(self, op, l, r, node)
            if h is not None:
                return h
        if op in ('Is', 'IsNot', 'Eq', 'NotEq'):
            for x, y in ((l, r), (r, l)):
                if y == NONE:
                    self.tested(x, node)
        if op not in ('Is', 'IsNot', 'In', 'NotIn'):
            for x in l | r:
                if type(x) is Obj and x.kind == 'arg':
                    self.use(x, 'comparison', node)
        if op in ('Is', 'IsNot'):
            return self.identity(op, l, r)
        if op in ('In', 'NotIn'):
            res = self.contains(l, r, node)
            return res
        if op in ORDER_OPS and isinstance(node, ast.Compare) \
                and ast.unparse(node.left) == 'sys.version_info':
            try:
                return const(eval(ast.unparse(node), {'sys': sys}))
            except (NameError, TypeError, SyntaxError):
                pass
        if op in ORDER_OPS:
            self.ordered(l, r, node, op)
            if len(l) == 1 and len(r) == 1:
                (a,), (b,) = l, r
                if type(a) is tuple and type(b) is tuple and \
                        a[:2] == b[:2] == ('c', 'int'):
                    return const({'Lt': a[2] < b[2], 'LtE': a[2] <= b[2],
                                  'Gt': a[2] > b[2],
                                  'GtE': a[2] >= b[2]}[op])
        out = EMPTY
        d = CMP_DUNDER[op]
        done = False
        for a, b, n in ((l, r, d), (r, l, CMP_SWAP[d])):
            for x in objs(a):
                if x.kind == 'inst':
                    m = self.class_attr(x.info, '__%s__' % n)
                    if m is None and n == 'ne':
                        m = self.class_attr(x.info, '__eq__')
                    if m:
                        res = self.try_call(self.bind(m, x), [b], {}, node)
                        done = True
        if op in ('Eq', 'NotEq') and len(l) == 1 and len(r) == 1:
            a, = l
            b, = r
            if type(a) is tuple and type(b) is tuple and \
                    a[0] == b[0] == 'c':
                try:
                    eq = a[2] == b[2]
                    return const(eq if op == 'Eq' else not eq)
                except Exception:
                    pass
        if op in ('Eq', 'NotEq'):
            # constants of disjoint type never equal
            pl = self.shape(l)
            pr = self.shape(r)
            if pl and pr and not (pl & pr):
                return const(op != 'Eq')
        return BOOL

    def shape(self, v):
        """Coarse types of a value, or None when unknown."""
        out = set()
        for x in v:
            if type(x) is tuple:
                if x[0] in ('c', 'p'):
                    t = self.numkind(x)
                    if t == 'any':
                        return None
                    if t in ('int', 'float', 'complex'):
                        t = 'num'
                    out.add(t)
                else:
                    return None
            else:
                if x.kind in ('arg', 'inst', 'iter', 'ext'):
                    return None
                out.add('set' if x.kind == 'frozenset' else x.kind)
        return out

    def identity(self, op, l, r):
        yes = no = False
        for a in l:
            for b in r:
                if type(a) is tuple and type(b) is tuple:
                    if a[0] == b[0] == 'c':
                        if a == b and (a[2] is None or
                                       isinstance(a[2], bool)):
                            yes = True
                        elif a == b:
                            yes = no = True
                        else:
                            no = True
                    elif a[0] == 'c' and a[2] is None or \
                            b[0] == 'c' and b[2] is None:
                        o = b if a[0] == 'c' and a[2] is None else a
                        if o[0] == 'p' and o[1] == 'any':
                            yes = True
                        no = True
                    else:
                        yes = no = True
                elif type(a) is Obj and type(b) is Obj:
                    if a is b:
                        yes = True
                        if a.age or a.kind == 'arg':
                            no = True
                    elif a.kind == 'arg' or b.kind == 'arg':
                        yes = no = True
                    else:
                        no = True
                else:
                    o = a if type(a) is Obj else b
                    c = b if type(a) is Obj else a
                    no = True
                    if o.kind == 'arg':
                        yes = True
        if op == 'IsNot':
            yes, no = no, yes
        out = EMPTY
        if yes:
            out = vjoin(out, TRUE)
        if no:
            out = vjoin(out, FALSE)
        return out

    def contains(self, l, r, node):
        for x in objs(r):
            if x.kind == 'arg':
                self.evidence.add(x)
                self.use(x, 'in', node)
            if x.kind == 'inst':
                m = self.class_attr(x.info, '__contains__')
                if m:
                    self.try_call(self.bind(m, x), [l], {}, node)
                elif self.class_attr(x.info, '__iter__') or \
                        self.class_attr(x.info, '__getitem__'):
                    st = self.st
                    try:
                        self.elem_any(V(x), node)
                    except Dead:
                        self.st = st
            elif x.kind == 'gen':
                st = self.st
                try:
                    self.elem_any(V(x), node)
                except Dead:
                    self.st = st
        bad = [x for x in r if type(x) is tuple and (
            x[0] == 'c' and not isinstance(x[2], (str, bytes)) or
            x[0] == 'p' and x[1] in ('int', 'float', 'bool'))]
        if bad and len(bad) == len(r) and \
                bad != [('c', 'NoneType', None)]:
            self.event('badop', node, 'in')
        return BOOL

    def ordered(self, l, r, node, op):
        """An order comparison between two values."""
        self.event('order', node, '', left=self.flat(l), right=self.flat(r))
        key = ('order', self.act.scope.where, self.construct(node), '')
        rec = self.events[key]
        rec['left'] = rec['left'] | self.flat(l)
        rec['right'] = rec['right'] | self.flat(r)

    def flat(self, v, depth=0):
        """Atoms an order comparison can look at (tuples flattened)."""
        out = set()
        for x in v:
            if type(x) is Obj and x.kind in ('tuple', 'list') and depth < 4:
                out |= self.flat(self.field(x, '*'), depth + 1)
            elif type(x) is Obj:
                out.add(x)
        return frozenset(out)

    # --------------------------------------------------------------- calls

    def e_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' \
                and self.owner_of('super')[0] == 'global':
            return self.make_super(e)
        f = self.eval(e.func)
        fpin = self.push(f)
        pins = []
        star = starstar = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                exact = None
                if len(v) == 1 and type(list(v)[0]) is Obj:
                    exact = self.cell(list(v)[0]).get(ITEMS)
                if exact is not None and star is None:
                    for x in exact:
                        pins.append(self.push(x))
                    continue
                s = self.elem_any(v, a) if v else EMPTY
                if star is None:
                    star = self.push(s)
                else:
                    self.setvar(star, vjoin(self.env()[star], s))
            elif star is not None:
                self.setvar(star, vjoin(self.env()[star], self.eval(a)))
            else:
                pins.append(self.push(self.eval(a)))
        kwp = {}
        for k in e.keywords:
            v = self.eval(k.value)
            if k.arg is None:
                s = EMPTY
                for o in objs(v):
                    if o.kind == 'dict':
                        s = vjoin(s, self.field(o, 'v'))
                    elif o.kind == 'arg':
                        s = vjoin(s, V(arg_child(o, 'v')))
                starstar = self.push(s)
            else:
                kwp[k.arg] = self.push(v)
        args = [self.env()[p] for p in pins]
        kwargs = {k: self.env()[p] for k, p in kwp.items()}
        sv = self.env()[star] if star is not None else None
        kv = self.env()[starstar] if starstar is not None else None
        f = self.env()[fpin]
        for p in pins + list(kwp.values()) + [fpin]:
            self.delvar(p)
        if star is not None:
            self.delvar(star)
        if starstar is not None:
            self.delvar(starstar)
        return self.call_value(f, args, kwargs, e, sv, kv)

    def make_super(self, e):
        sc = self.act.scope
        args = [self.eval(a) for a in e.args]
        s = sc
        while s is not None and not (s.kind == 'function' and
                                     s.parent.kind == 'class'):
            s = s.parent
        if args:
            cls = args[0]
            selfv = args[1] if len(args) > 1 else ANY
        else:
            if s is None:
                self.event('badop', e, 'super')
                raise Dead()
            cls = self.class_of_scope(s.parent)
            selfv = self.env().get(s.params[0], EMPTY) if s is sc else EMPTY
            if not selfv:
                for o in self.frames_of(s):
                    selfv = vjoin(selfv, self.cell(o).get(s.params[0],
                                                          EMPTY))
        return V(self.alloc('super', e, {'#self': selfv, '#cls': cls}))

    def class_of_scope(self, scope):
        for o in list(self.base) + list(self.st.heap):
            if o.kind == 'class' and o.info is scope:
                return V(o)
        return EMPTY

    def call_value(self, f, args, kwargs, node, star=None, starstar=None):
        """Call every possible callee from the same state, join results."""
        fs = list(f)
        if len(fs) == 1:
            v = self.call_atom(fs[0], args, kwargs, node, star, starstar)
            if not v:
                raise Dead()
            return v
        entry = self.st
        out = None
        name = '#r%d' % id(node)
        bad = []
        for x in fs:
            self.st = entry.copy()
            try:
                v = self.call_atom(x, args, kwargs, node, star, starstar)
                if not v:
                    continue
                self.setvar(name, v)
                out = sjoin(out, self.st)
            except Dead:
                pass
        if out is None:
            raise Dead()
        self.st = out.copy()
        v = self.env().get(name, EMPTY)
        self.delvar(name)
        return v

    def call_atom(self, x, args, kwargs, node, star, starstar):
        if type(x) is tuple:
            if x[0] == 'bm':
                if x[1].kind != 'func':
                    return self.call_value(V(x[1]), [V(x[2])] + args, kwargs,
                                           node, star, starstar)
                return self.call_func(x[1], args, kwargs, node, x[2], star,
                                      starstar)
            if x[0] == 'bbm':
                if star is not None:
                    args = args + [star]
                if starstar is not None:
                    kwargs = dict(kwargs)
                    kwargs['**'] = starstar
                return self.builtin_method(x[1], x[2], args, kwargs, node)
            if x[0] == 'p' and x[1] == 'any':
                return ANY
            if x == ('c', 'NoneType', None):
                self.event('nonecall', node)
            else:
                self.event('notcallable', node, repr(x))
            self.may_raise('TypeError')
            raise Dead()
        if x.kind == 'func':
            return self.call_func(x, args, kwargs, node, None, star,
                                  starstar)
        if x.kind == 'class':
            return self.instantiate(x, args, kwargs, node, star, starstar)
        if x.kind == 'ext':
            if star is not None:
                args = args + [star]
            return self.ext_call(x.site, args, kwargs, node,
                                 star is not None)
        if x.kind == 'arg':
            return self.call_arg(x, args, kwargs, node)
        if x.kind == 'inst':
            m = self.class_attr(x.info, '__call__')
            if m:
                return self.call_value(self.bind(m, x), args, kwargs, node,
                                       star, starstar)
        if x.kind == 'wrap':
            return self.call_value(self.field(x, '*'), args, kwargs, node,
                                   star, starstar)
        if x.kind == 'partial':
            pre = [self.cell(x)[k] for k in sorted(
                k for k in self.cell(x) if k.startswith('!'))]
            kw = {k[1:]: v for k, v in self.cell(x).items() if k[0] == '@'}
            kw.update(kwargs)
            return self.call_value(self.field(x, '#func'), pre + args, kw,
                                   node, star, starstar)
        if x.kind == 'opfn':
            return self.call_opfn(x, args, kwargs, node)
        self.event('notcallable', node, x.kind)
        self.may_raise('TypeError')
        raise Dead()

    def call_arg(self, x, args, kwargs, node):
        """Caller supplied callable, or a method of a caller's object."""
        self.may_raise('TypeError', 'ValueError', 'KeyError', 'IndexError',
                       'AttributeError', 'StopIteration', 'Exception')
        if x.info and x.info[-1].startswith('a:'):
            parent = arg(x.site, x.info[:-1])
            return self.builtin_method(x.info[-1][2:], parent, args, kwargs,
                                       node)
        self.escape(args, kwargs, node)
        return V(arg_child(x, 'r')) | ANY

    def escape(self, args, kwargs, node):
        """Package objects handed to caller code: run callbacks in case."""
        pass

    def is_exc_class(self, x):
        for b in self.class_bases(x):
            if b.kind == 'ext':
                t = getattr(builtins, b.site, None)
                if isinstance(t, type) and issubclass(t, BaseException):
                    return True
        return False

    def instantiate(self, cls, args, kwargs, node, star=None, starstar=None):
        cell = {}
        if self.is_exc_class(cls):
            e = EMPTY
            for a in args:
                e = vjoin(e, a)
            cell['args'] = e or ANY
        o = self.alloc('inst', node, cell, cls, tag=str(cls.n))
        self.calls.add((self.act.scope.where if self.act else '?',
                        cls.info.where))
        init = self.class_attr(cls, '__init__')
        pin = self.push(V(o))
        eb = self.ext_bases(cls)
        if init:
            self.call_value(self.bind(init, o), args, kwargs, node, star,
                            starstar)
        elif self.is_exc_class(cls):
            pass
        elif eb:
            a2 = args + ([star] if star is not None else [])
            self.init_ext_base(o, eb, a2, kwargs, node)
        elif args or kwargs:
            self.event('arity', node, 'constructor takes no arguments')
            self.may_raise('TypeError')
            raise Dead()
        return self.pop(pin)
