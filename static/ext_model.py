"""Calls of builtins and standard library functions."""
import ast
import builtins

from domain import *            # noqa
from domain import ITEMS
from interp import Interp, Dead
from exprs import ExprMixin, CONTAINERS
from builtin_model import BuiltinMixin, EFFECTS, EFFECT_PREFIX
from scopes import AnalysisError


class ExtMixin(object):

    def ext_call(self, name, args, kw, node, starred=False):
        if name in EFFECTS or name.startswith(EFFECT_PREFIX):
            self.event('effect', node, name)
        short = name.replace('.', '_')
        m = getattr(self, 'x_' + short, None)
        if m is not None:
            return m(args, kw, node)
        if '.' in name:
            head, tail = name.rsplit('.', 1)
            # unbound method of a builtin type: list.append(x, y)
            if head in ('list', 'dict', 'set', 'str', 'frozenset', 'tuple',
                        'object', 'collections.defaultdict', 'int'):
                if name == 'dict.fromkeys':
                    return self.m_dict_fromkeys(None, args, kw, node)
                if tail == '__init__' or tail == '__new__':
                    if head == 'object':
                        return NONE
                if name == 'str.join':
                    return STR
                if args:
                    out = EMPTY
                    for x in args[0]:
                        out = vjoin(out, self.builtin_method(
                            tail, x, args[1:], kw, node))
                    return out
                return ANY
        t = self.ext_object(name)
        if isinstance(t, type) and issubclass(t, BaseException):
            e = EMPTY
            for a in args:
                e = vjoin(e, a)
            return V(self.alloc('inst', node, {'args': e or ANY}, ext(name),
                                tag=name))
        if name.startswith('math.') or name.startswith('cmath.'):
            self.check_math(name, args, node)
            return FLOAT if name.startswith('math.') else prim('complex')
        if name.startswith('operator.'):
            return self.call_operator(name[9:], args, kw, node)
        if name.startswith('random.'):
            return self.call_random(name[7:], args, kw, node)
        if name.startswith('itertools.'):
            return self.call_itertools(name[10:], args, kw, node)
        if not (name in EFFECTS or name.startswith(EFFECT_PREFIX)):
            self.event('extcall', node, name)
        self.notes[('ext', name)] = 1
        # anything it is handed might be called or iterated
        return V(self.alloc('iter', node, {}, 'extobj', tag=name)) | ANY

    def check_math(self, name, args, node):
        pass

    # ---- constructors

    def container(self, kind, f, args, node):
        if not args:
            return V(self.alloc(kind, node, {}, tag=kind))
        if kind in ('list', 'tuple') and len(args[0]) == 1:
            x, = args[0]
            if type(x) is Obj and x.kind in ('list', 'tuple'):
                c = self.cell(x)
                if ITEMS in c:
                    return V(self.alloc(kind, node, {ITEMS: c[ITEMS]},
                                        tag=kind))
        self.may_raise('TypeError')
        e = self.elem_any(args[0], node)
        return V(self.alloc(kind, node, {f: e} if e else {}, tag=kind))

    def x_list(self, a, kw, n):
        return self.container('list', '*', a, n)

    def x_tuple(self, a, kw, n):
        return self.container('tuple', '*', a, n)

    def x_set(self, a, kw, n):
        return self.container('set', 'k', a, n)

    def x_frozenset(self, a, kw, n):
        return self.container('frozenset', 'k', a, n)

    def x_collections_deque(self, a, kw, n):
        return self.container('deque', '*', a, n)

    def x_dict(self, a, kw, n, info=None):
        pins = [self.push(x) for x in a]
        o = self.alloc('dict', n, {}, info, tag='dict')
        a = [self.pop(p) for p in pins[::-1]][::-1]
        if a:
            pin = self.push(V(o))
            self.dict_fill(o, a[0], n)
            o, = self.pop(pin)
        for k, v in kw.items():
            self.add_field(o, 'k', const(k))
            self.add_field(o, 'v', v)
        return V(o)

    def x_collections_OrderedDict(self, a, kw, n):
        return self.x_dict(a, kw, n, 'OrderedDict')

    def x_collections_defaultdict(self, a, kw, n):
        r = self.x_dict(a[1:], kw, n, 'defaultdict')
        if a:
            for o in r:
                c = dict(self.cell(o))
                c['#factory'] = a[0]
                self.setcell(o, c)
        return r

    def x_collections_Counter(self, a, kw, n):
        o = self.alloc('dict', n, {}, 'Counter', tag='counter')
        if a:
            pin = self.push(V(o))
            e = self.elem_any(a[0], n)
            o, = self.pop(pin)
            self.add_field(o, 'k', e)
        self.add_field(o, 'v', INT)
        return V(o)

    def x_copy_copy(self, a, kw, n):
        out = EMPTY
        acc = self.push(EMPTY)
        for x in a[0]:
            if type(x) is Obj and x.kind in CONTAINERS:
                self.accum(acc, V(self.alloc(x.kind, n, dict(self.cell(x)),
                                             x.info, tag='c' + x.kind)))
            elif type(x) is Obj and x.kind == 'arg':
                self.accum(acc, self.arg_method('copy', x, [], {}, n))
            elif type(x) is Obj and x.kind == 'inst':
                self.accum(acc, V(self.alloc('inst', n, dict(self.cell(x)),
                                             x.info, tag='ci%d' % x.info.n)))
            else:
                self.accum(acc, V(x))
        return self.pop(acc)

    def x_copy_deepcopy(self, a, kw, n):
        acc = self.push(EMPTY)
        for x in a[0]:
            if type(x) is Obj and x.kind == 'arg':
                o = self.alloc('dict', n, {'k': V(arg_child(x, 'k')),
                                           'v': ANY}, tag='deep')
                self.accum(acc, V(o))
            else:
                self.accum(acc, self.x_copy_copy([V(x)], {}, n))
        return self.pop(acc)

    # ---- iterators

    def x_iter(self, a, kw, n):
        if len(a) == 2:
            r = self.call_value(a[0], [], {}, n)
            return V(self.alloc('list', n, {'*': r}, tag='iter2'))
        acc = self.push(EMPTY)
        for x in a[0]:
            if type(x) is Obj and x.kind in ('gen',):
                self.accum(acc, V(x))
            elif type(x) is Obj and x.kind == 'iter' and x.info not in (
                    'keys', 'values', 'items', 'range'):
                self.accum(acc, V(x))
            elif type(x) is Obj and x.kind == 'inst' and \
                    self.class_attr(x.info, '__iter__'):
                self.accum(acc, self.try_call(self.bind(self.class_attr(
                    x.info, '__iter__'), x), [], {}, n))
            else:
                if type(x) is tuple and (x[0] == 'c' and not isinstance(
                        x[2], (str, bytes)) or x[0] == 'p' and
                        x[1] in ('int', 'float', 'bool')):
                    self.may_raise('TypeError')
                    continue
                if type(x) is Obj and x.kind == 'arg':
                    self.may_raise('TypeError')
                o = self.alloc('iter', n, {'#src': V(x)}, 'iter',
                               tag='iter%s' % (x.kind if type(x) is Obj
                                               else 'p'))
                self.accum(acc, V(o))
        return self.pop(acc)

    def x_next(self, a, kw, n):
        return self.next_of(a[0], n, a[1] if len(a) > 1 else None)

    def x_range(self, a, kw, n):
        for v in a:
            for x in v:
                if type(x) is tuple and (x[0] == 'p' and x[1] == 'float' or
                                         x[0] == 'c' and
                                         isinstance(x[2], float)):
                    if len(v) == 1:
                        self.event('badop', n, 'range of float')
        return V(self.alloc('iter', n, {}, 'range', tag='range'))

    def lazy(self, info, n, src, func=None):
        cell = {'#src': src}
        if func is not None:
            cell['#func'] = func
        return V(self.alloc('iter', n, cell, info, tag=info))

    def x_enumerate(self, a, kw, n):
        return self.lazy('enumerate', n, a[0])

    def x_reversed(self, a, kw, n):
        acc = self.push(EMPTY)
        for x in a[0]:
            if type(x) is Obj and x.kind == 'inst':
                m = self.class_attr(x.info, '__reversed__')
                if m:
                    self.accum(acc, self.try_call(self.bind(m, x), [], {},
                                                  n))
                    continue
            if type(x) is Obj and (x.kind in ('gen', 'set') or
                                   x.kind == 'iter' and x.info not in (
                    'range', 'keys', 'values', 'items', 'extobj')):
                if len(a[0]) == 1:
                    self.event('badop', n, 'reversed')
            if type(x) is Obj and x.kind == 'arg':
                self.use(x, 'reversed', n)
            self.accum(acc, self.lazy('iter', n, V(x)))
        return self.pop(acc)

    def x_zip(self, a, kw, n, info='zip'):
        cell = {'#src%d' % i: v for i, v in enumerate(a)}
        if any(isinstance(x, ast.Starred) for x in getattr(n, 'args', [])):
            cell = {'#src0': a[-1], '#var': TRUE}
        return V(self.alloc('iter', n, cell, info, tag=info))

    def x_map(self, a, kw, n):
        if len(a) == 2:
            return self.lazy('map1', n, a[1], a[0])
        cell = {'#src%d' % i: v for i, v in enumerate(a[1:])}
        cell['#func'] = a[0]
        return V(self.alloc('iter', n, cell, 'map', tag='map'))

    def x_filter(self, a, kw, n):
        return self.lazy('filter', n, a[1], a[0])

    def call_itertools(self, name, a, kw, n):
        if name == 'chain':
            src = EMPTY
            for v in a:
                src = vjoin(src, v)
            return self.lazy('chain', n, src)
        if name == 'chain.from_iterable':
            return self.lazy('chainfrom', n, a[0])
        if name in ('islice', 'takewhile', 'dropwhile', 'cycle',
                    'filterfalse', 'tee', 'accumulate', 'compress'):
            if name in ('takewhile', 'dropwhile', 'filterfalse'):
                return self.lazy('filter', n, a[1], a[0])
            if name == 'tee':
                r = self.lazy('iter', n, a[0])
                return V(self.alloc('tuple', n, {'*': r}, tag='tee'))
            return self.lazy('islice', n, a[0])
        if name in ('combinations', 'permutations', 'product', 'pairwise',
                    'combinations_with_replacement', 'batched'):
            if name in ('product', ) and len(a) > 1:
                return self.x_zip(a, kw, n)
            return self.lazy('tuples', n, a[0])
        if name in ('zip_longest',):
            return self.x_zip([vjoin(v, NONE) for v in a], kw, n)
        if name == 'count':
            return V(self.alloc('iter', n, {}, 'range', tag='count'))
        if name == 'repeat':
            return V(self.alloc('list', n, {'*': a[0]}, tag='repeat'))
        if name == 'starmap':
            e = self.elem_any(a[1], n)
            x = self.elem_any(e, n) if e else EMPTY
            r = self.call_value(a[0], [], {}, n, star=x) if x else EMPTY
            return V(self.alloc('list', n, {'*': r}, tag='starmap'))
        if name == 'groupby':
            f = a[1] if len(a) > 1 else kw.get('key', NONE)
            return self.lazy('groupby', n, a[0], f)
        self.event('extcall', n, 'itertools.' + name)
        return ANY

    # ---- numbers, strings, predicates

    def x_len(self, a, kw, n):
        for x in a[0]:
            if type(x) is Obj and x.kind == 'arg':
                self.evidence.add(x)
                self.use(x, 'len', n)
            if type(x) is Obj and x.kind == 'inst':
                m = self.class_attr(x.info, '__len__')
                if m:
                    self.try_call(self.bind(m, x), [], {}, n)
                elif not self.container_base(x) and len(a[0]) == 1:
                    self.event('badop', n, 'len')
            bad = type(x) is tuple and (
                x[0] == 'c' and not isinstance(x[2], (str, bytes)) or
                x[0] == 'p' and x[1] in ('int', 'float', 'bool'))
            bad = bad or type(x) is Obj and (
                x.kind == 'gen' or x.kind == 'iter' and x.info in (
                    'map', 'map1', 'filter', 'zip', 'enumerate', 'iter',
                    'chain'))
            if bad and len(a[0]) == 1:
                self.event('badop', n, 'len', obj=repr(x))
                self.may_raise('TypeError')
                raise Dead()
        return INT

    def x_abs(self, a, kw, n):
        return ANY

    def x_divmod(self, a, kw, n):
        return V(self.alloc('tuple', n, {ITEMS: (INT, INT)}, tag='divmod'))

    def x_int(self, a, kw, n):
        self.may_raise('ValueError', 'TypeError')
        return INT

    def x_float(self, a, kw, n):
        self.may_raise('ValueError', 'TypeError')
        return FLOAT

    def x_complex(self, a, kw, n):
        return prim('complex')

    def x_bool(self, a, kw, n):
        if not a:
            return FALSE
        t, f = self.truth(a[0], n)
        return vjoin(TRUE if t else EMPTY, FALSE if f else EMPTY)

    def x_str(self, a, kw, n):
        if a:
            self.stringify(a[0], n)
        return STR

    x_repr = x_str
    x_ascii = x_str
    x_format = x_str

    def x_chr(self, a, kw, n):
        return STR

    x_hex = x_bin = x_oct = x_chr

    def x_ord(self, a, kw, n):
        return INT

    def x_id(self, a, kw, n):
        return INT

    def x_hash(self, a, kw, n):
        self.may_raise('TypeError')
        for x in objs(a[0]):
            if x.kind == 'inst':
                m = self.class_attr(x.info, '__hash__')
                if m:
                    self.try_call(self.bind(m, x), [], {}, n)
        return INT

    def x_round(self, a, kw, n):
        return INT if len(a) < 2 else FLOAT

    def x_pow(self, a, kw, n):
        return ANY

    def x_sum(self, a, kw, n):
        e = self.elem_any(a[0], n)
        start = a[1] if len(a) > 1 else kw.get('start', INT)
        out = start
        if e:
            acc = self.push(start)
            st = self.st
            try:
                self.accum(acc, self.binop(start, 'Add', e, n))
            except Dead:
                self.st = st
            out = self.pop(acc)
        return out

    def minmax(self, a, kw, n):
        if len(a) == 1 and not any(isinstance(x, ast.Starred)
                                   for x in getattr(n, 'args', [])):
            if 'default' not in kw:
                self.may_raise('ValueError')
            e = self.elem_any(a[0], n)
        else:
            e = EMPTY
            for v in a:
                e = vjoin(e, v)
        pin = self.push(e)
        self.sort_like(e, kw, n)
        r = self.pop(pin)
        return vjoin(r, kw['default']) if 'default' in kw else r

    x_min = x_max = minmax

    def x_sorted(self, a, kw, n):
        e = self.elem_any(a[0], n)
        pin = self.push(e)
        self.sort_like(e, kw, n)
        e = self.pop(pin)
        return V(self.alloc('list', n, {'*': e} if e else {}, tag='sorted'))

    def anyall(self, a, kw, n):
        self.tested(self.elems_quiet(a[0], n), n)
        return BOOL

    x_any = x_all = anyall

    def x_isinstance(self, a, kw, n):
        t = f = False
        for x in a[0]:
            may, must = self.isinstance_atom(x, a[1])
            t |= may
            f |= not must
        return vjoin(TRUE if t else EMPTY, FALSE if f else EMPTY)

    def x_issubclass(self, a, kw, n):
        return BOOL

    def x_callable(self, a, kw, n):
        return BOOL

    def x_hasattr(self, a, kw, n):
        t = f = False
        name = [c[2] for c in a[1] if type(c) is tuple and c[0] == 'c']
        if len(name) != 1 or len(a[1]) != 1:
            return BOOL
        for x in a[0]:
            if type(x) is Obj and x.kind == 'arg' or \
                    x == ('p', 'any'):
                return BOOL
            r = self.attr_of(x, name[0], n)
            t |= r is not None
            f |= r is None
        return vjoin(TRUE if t else EMPTY, FALSE if f else EMPTY)

    def x_getattr(self, a, kw, n):
        names = [c[2] for c in a[1] if type(c) is tuple and c[0] == 'c']
        if len(names) != len(a[1]):
            out = ANY
            for x in objs(a[0]):
                for f, v in self.cell(x).items():
                    if f[0] not in '#@*':
                        out = vjoin(out, v)
                if x.kind == 'inst':
                    for c in self.mro(x.info):
                        if c.kind == 'class':
                            for f, v in self.cell(c).items():
                                if f[0] not in '#@*_':
                                    out = vjoin(out, self.bind(v, x))
            return out
        out = EMPTY
        for nm in names:
            out = vjoin(out, self.get_attr(a[0], nm, n, a[2] if len(a) > 2
                                           else None))
        return out

    def x_setattr(self, a, kw, n):
        names = [c[2] for c in a[1] if type(c) is tuple and c[0] == 'c']
        if len(names) == 1 == len(a[1]):
            self.set_attr(a[0], names[0], a[2], n)
        else:
            self.mutate(a[0], 'setattr:?', n)
            for x in objs(a[0]):
                for f in list(self.cell(x)):
                    if f[0] not in '#@*':
                        self.add_field(x, f, a[2])
        return NONE

    def x_delattr(self, a, kw, n):
        self.mutate(a[0], 'delattr:?', n)
        return NONE

    def x_type(self, a, kw, n):
        out = EMPTY
        for x in a[0]:
            if type(x) is Obj and x.kind == 'inst':
                out = vjoin(out, V(x.info))
            elif type(x) is Obj and x.kind in CONTAINERS:
                out = vjoin(out, V(ext(
                    'collections.defaultdict' if x.info == 'defaultdict'
                    else x.kind if x.kind != 'deque'
                    else 'collections.deque')))
            elif type(x) is tuple and x[0] in ('c', 'p') and \
                    hasattr(builtins, x[1]):
                out = vjoin(out, V(ext(x[1])))
            elif type(x) is Obj and x.kind == 'arg':
                out = vjoin(out, V(arg_child(x, 'a:__class__')))
            else:
                out = vjoin(out, ANY)
        return out

    def x_slice(self, a, kw, n):
        return V(('p', 'slice'))

    def x_object(self, a, kw, n):
        return V(self.alloc('inst', n, {}, ext('object'), tag='object'))

    def x_print(self, a, kw, n):
        for v in a:
            self.stringify(v, n)
        return NONE

    def x_vars(self, a, kw, n):
        return self.get_attr(a[0], '__dict__', n) if a else ANY

    def x_globals(self, a, kw, n):
        self.event('effect', n, 'globals')
        return ANY

    def x_input(self, a, kw, n):
        return STR

    def x_bytes(self, a, kw, n):
        return prim('bytes')

    def x_bytearray(self, a, kw, n):
        return V(self.alloc('bytearray', n, {'*': INT}, tag='ba'))

    def x_property(self, a, kw, n):
        o = self.alloc('wrap', n, {'*': a[0] if a else kw.get('fget', NONE)},
                       tag='property')
        if len(a) > 1:
            self.add_field(o, 'set', a[1])
        return V(o)

    def x_staticmethod(self, a, kw, n):
        return V(self.alloc('wrap', n, {'*': a[0]}, tag='staticmethod'))

    def x_classmethod(self, a, kw, n):
        return V(self.alloc('wrap', n, {'*': a[0]}, tag='classmethod'))

    # ---- stdlib

    def x_functools_reduce(self, a, kw, n):
        e = self.elem_any(a[1], n)
        acc = self.push(vjoin(e, a[2] if len(a) > 2 else EMPTY))
        ep = self.push(e)
        fp = self.push(a[0])
        for i in range(20):
            before = self.env()[acc]
            st = self.st.copy()
            try:
                r = self.call_value(self.env()[fp], [self.env()[acc],
                                                     self.env()[ep]], {}, n)
                self.accum(acc, r)
            except Dead:
                self.st = st
                break
            self.st = sjoin(st, self.st).copy()
            if self.env()[acc] == before:
                break
        self.pop(fp)
        self.pop(ep)
        return self.pop(acc)

    def x_functools_partial(self, a, kw, n):
        cell = {'#func': a[0]}
        for i, v in enumerate(a[1:]):
            cell['!%02d' % i] = v
        for k, v in kw.items():
            cell['@' + k] = v
        return V(self.alloc('partial', n, cell, tag='partial'))

    def x_functools_cmp_to_key(self, a, kw, n):
        return V(self.alloc('opfn', n, {'#func': a[0]}, 'cmp_to_key',
                            tag='cmp'))

    def x_functools_wraps(self, a, kw, n):
        return V(ext('functools.wraps'))

    def x_functools_lru_cache(self, a, kw, n):
        if a and any(type(x) is Obj and x.kind == 'func' for x in a[0]):
            self.event('memoized', n, self.construct(n))
            return a[0]
        return V(self.alloc('memo', n, {}, tag='memo'))

    def x_functools_cache(self, a, kw, n):
        self.event('memoized', n, self.construct(n))
        return a[0]

    def x_contextlib_suppress(self, a, kw, n):
        e = EMPTY
        for v in a:
            e = vjoin(e, v)
        return V(self.alloc('suppress', n, {'*': e}, tag='suppress'))

    def x_bisect_bisect_left(self, a, kw, n):
        pin = self.push(a[1])
        e = self.elem_any(a[0], n)
        x = self.pop(pin)
        if e:
            self.ordered(e, x, n, 'Lt')
        return INT

    x_bisect_bisect = x_bisect_bisect_right = x_bisect_bisect_left

    def x_bisect_insort(self, a, kw, n):
        self.x_bisect_bisect_left(a, kw, n)
        for x in objs(a[0]):
            self.mutate(V(x), 'insert', n)
            if x.kind == 'list':
                self.loosen(x)
                self.add_field(x, '*', a[1])
        return NONE

    x_bisect_insort_left = x_bisect_insort_right = x_bisect_insort

    def x_heapq_heappush(self, a, kw, n):
        for x in objs(a[0]):
            self.mutate(V(x), 'append', n)
            if x.kind == 'list':
                self.loosen(x)
                self.add_field(x, '*', a[1])
                self.cmp_values(self.field(x, '*'), n)
        return NONE

    def x_heapq_heappop(self, a, kw, n):
        self.may_raise('IndexError')
        out = EMPTY
        for x in objs(a[0]):
            self.mutate(V(x), 'pop', n)
            if x.kind == 'list':
                self.cmp_values(self.field(x, '*'), n)
                out = vjoin(out, self.field(x, '*'))
            elif x.kind == 'arg':
                out = vjoin(out, V(arg_child(x, 'k')))
        return out

    def x_heapq_heapify(self, a, kw, n):
        for x in objs(a[0]):
            self.mutate(V(x), 'sort', n)
            if x.kind == 'list':
                self.cmp_values(self.field(x, '*'), n)
        return NONE

    def x_heapq_heappushpop(self, a, kw, n):
        self.x_heapq_heappush(a, kw, n)
        return self.x_heapq_heappop(a[:1], kw, n)

    x_heapq_heapreplace = x_heapq_heappushpop

    def x_heapq_nsmallest(self, a, kw, n):
        return self.x_sorted([a[1]], kw, n)

    x_heapq_nlargest = x_heapq_nsmallest

    def call_random(self, name, a, kw, n):
        if name == 'shuffle':
            self.mutate(a[0], 'sort', n)
            for x in objs(a[0]):
                if x.kind == 'list':
                    self.loosen(x)
            return NONE
        if name in ('choice',):
            return self.elem_any(a[0], n)
        if name in ('sample', 'choices'):
            e = self.elem_any(a[0], n)
            return V(self.alloc('list', n, {'*': e}, tag='sample'))
        if name in ('randint', 'randrange', 'getrandbits'):
            return INT
        if name in ('seed',):
            return NONE
        return FLOAT

    OPS = {'and_': 'BitAnd', 'or_': 'BitOr', 'xor': 'BitXor', 'add': 'Add',
           'sub': 'Sub', 'mul': 'Mult', 'truediv': 'Div',
           'floordiv': 'FloorDiv', 'mod': 'Mod', 'pow': 'Pow',
           'lshift': 'LShift', 'rshift': 'RShift', '__and__': 'BitAnd',
           '__or__': 'BitOr', '__xor__': 'BitXor', '__add__': 'Add'}
    CMPS = {'eq': 'Eq', 'ne': 'NotEq', 'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt',
            'ge': 'GtE', '__ne__': 'NotEq', '__eq__': 'Eq'}

    def call_operator(self, name, a, kw, n):
        if name in self.OPS and len(a) == 2:
            return self.binop(a[0], self.OPS[name], a[1], n)
        if name in self.CMPS and len(a) == 2:
            return self.compare(self.CMPS[name], a[0], a[1], n)
        if name == 'not_':
            t, f = self.truth(a[0], n)
            return vjoin(TRUE if f else EMPTY, FALSE if t else EMPTY)
        if name == 'getitem':
            return self.get_item(a[0], a[1], n)
        if name == 'setitem':
            self.set_item(a[0], a[1], a[2], n)
            return NONE
        if name == 'delitem':
            self.del_item(a[0], a[1], n)
            return NONE
        if name == 'contains':
            return self.contains(a[1], a[0], n)
        if name in ('itemgetter', 'attrgetter', 'methodcaller'):
            cell = {'!%02d' % i: v for i, v in enumerate(a)}
            return V(self.alloc('opfn', n, cell, name, tag=name))
        if name in ('truth',):
            return BOOL
        return ANY

    def call_opfn(self, x, args, kw, node):
        c = self.cell(x)
        keys = [c[k] for k in sorted(c) if k[0] == '!']
        if x.info == 'itemgetter':
            if len(keys) == 1:
                return self.get_item(args[0], keys[0], node)
            pins = []
            ap = self.push(args[0])
            for k in keys:
                pins.append(self.push(self.get_item(self.env()[ap], k,
                                                    node)))
            vs = [self.pop(p) for p in pins[::-1]][::-1]
            self.pop(ap)
            return V(self.alloc('tuple', node, {ITEMS: tuple(vs)},
                                tag='ig'))
        if x.info == 'attrgetter':
            out = EMPTY
            for k in keys[0]:
                if k[0] == 'c':
                    out = vjoin(out, self.get_attr(args[0], k[2], node))
            return out
        if x.info == 'methodcaller':
            out = EMPTY
            for k in keys[0]:
                if type(k) is tuple and k[0] == 'c':
                    f = self.get_attr(args[0], k[2], node)
                    out = vjoin(out, self.call_value(f, keys[1:], {}, node))
            return out
        if x.info == 'cmp_to_key':
            return ANY
        return ANY


class Analyzer(ExtMixin, BuiltinMixin, ExprMixin, Interp):
    """The complete interpreter."""
