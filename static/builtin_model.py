"""Model of builtins, container methods and the standard library."""
import ast
import builtins
import importlib

from domain import *            # noqa
from domain import ITEMS
from interp import Interp, Dead
from exprs import ExprMixin, CONTAINERS, BIN_DUNDER
from scopes import AnalysisError

# name -> argument counts with which the method of a builtin container
# changes its receiver
MUTATORS = {
    'append': (1,), 'extend': (1,), 'insert': (2,), 'remove': (1,),
    'pop': (0, 1, 2), 'clear': (0,), 'sort': (0,), 'reverse': (0,),
    'update': (0, 1, 2, 3), 'add': (1,), 'discard': (1,), 'popitem': (0, 1),
    'setdefault': (1, 2), 'intersection_update': (0, 1, 2, 3),
    'difference_update': (0, 1, 2, 3), 'symmetric_difference_update': (1,),
    'appendleft': (1,), 'popleft': (0,), 'extendleft': (1,),
    'rotate': (0, 1), '__setitem__': (2,), '__delitem__': (1,),
    'move_to_end': (1, 2), '__setattr__': (2,), '__ior__': (1,),
    '__iand__': (1,), '__isub__': (1,), '__iadd__': (1,), '__ixor__': (1,)}

EFFECTS = ('print', 'input', 'open', 'exec', 'eval', 'exit', 'quit')
EFFECT_PREFIX = ('random.', 'os.', 'time.', 'sys.stdout', 'sys.stderr',
                 'sys.stdin', 'sys.exit', 'io.open', 'logging.', 'secrets.',
                 'warnings.', 'subprocess.', 'socket.', 'shutil.',
                 'tempfile.', 'pathlib.', 'datetime.', 'uuid.', 'sys.set',
                 'threading.', 'atexit.', 'gc.', 'builtins.print',
                 'builtins.open', 'builtins.input')

STDLIB = ('sys', 'collections', 'collections.abc', 'math', 'io', 'random',
          'bisect', 'itertools', 'functools', 'operator', 'xml',
          'xml.parsers', 'xml.parsers.expat', 'optparse', 'heapq', 'copy',
          'os', 'os.path', 'time', 're', 'string', 'contextlib', 'types',
          'enum', 'abc', 'typing', 'warnings', 'logging', 'fractions',
          'decimal', 'cmath', 'numbers', 'argparse', 'textwrap', 'struct',
          'array', 'weakref', 'unittest', 'dataclasses', 'statistics',
          'numbers', 'datetime', 'tempfile', 'secrets', 'pprint', 'reprlib',
          'gc', 'atexit', 'threading', 'json', 'hashlib', '__future__',
          'builtins', 'queue', 'traceback', 'inspect', 'pathlib', 'uuid',
          'shutil', 'platform', 'locale', 'bz2', 'gzip', 'codecs',
          'html', 'xml.sax', 'xml.sax.saxutils', 'graphlib')


class BuiltinMixin(object):

    # ------------------------------------------------------------ external

    def ext_exists(self, name):
        return name in STDLIB

    def ext_object(self, name):
        parts = name.split('.')
        if hasattr(builtins, parts[0]):
            o = getattr(builtins, parts[0])
            rest = parts[1:]
        else:
            o = None
            for i in range(len(parts), 0, -1):
                m = '.'.join(parts[:i])
                if m in STDLIB:
                    try:
                        o = importlib.import_module(m)
                    except ImportError:
                        return None
                    rest = parts[i:]
                    break
            if o is None:
                return None
        for p in rest:
            if not hasattr(o, p):
                return None
            o = getattr(o, p)
        return o

    def ext_type(self, name):
        o = self.ext_object(name)
        return o if isinstance(o, type) else None

    def ext_attr(self, x, name, node, quiet=False):
        full = x.site + '.' + name
        if self.ext_object(x.site) is not None and \
                self.ext_object(full) is None and full not in STDLIB:
            if not quiet:
                self.event('badimport', node, full)
            else:
                return None
            return EMPTY
        import math
        if full in ('math.pi', 'math.e', 'math.tau', 'math.inf'):
            return FLOAT
        if full in ('sys.maxsize',):
            return INT
        if full in ('sys.argv',):
            self.event('effect', node, full)
            return ANY
        return V(ext(full))

    def apply_decorator(self, dv, f, node):
        out = EMPTY
        for d in dv:
            if type(d) is Obj and d.kind == 'ext':
                n = d.site.split('.')[-1]
                if n in ('property', 'staticmethod', 'classmethod',
                         'cached_property'):
                    n = 'property' if n == 'cached_property' else n
                    out = vjoin(out, V(self.alloc('wrap', node, {'*': f},
                                                  tag=n)))
                    continue
                if n in ('lru_cache', 'cache', 'singledispatch'):
                    self.event('memoized', node, self.construct(node))
                    out = vjoin(out, f)
                    continue
                if n in ('wraps', 'total_ordering', 'contextmanager',
                         'abstractmethod'):
                    out = vjoin(out, f)
                    continue
                out = vjoin(out, f)
            elif type(d) is Obj and d.kind == 'memo':
                self.event('memoized', node, self.construct(node))
                out = vjoin(out, f)
            elif type(d) is tuple and d[0] == 'bbm' and d[1] in (
                    'setter', 'deleter') and type(d[2]) is Obj \
                    and d[2].kind == 'wrap':
                if d[1] == 'setter':
                    self.add_field(d[2], 'set', f)
                out = vjoin(out, V(d[2]))
            elif type(d) is Obj and d.kind in ('func', 'inst'):
                out = vjoin(out, self.call_value(V(d), [f], {}, node))
            else:
                out = vjoin(out, f)
        return out

    def isinstance_atom(self, x, cls):
        may = must = False
        types = []
        for t in cls:
            if type(t) is Obj and t.kind == 'tuple':
                types.extend(self.field(t, '*'))
            else:
                types.append(t)
        for t in types:
            a, b = self.isinstance1(x, t)
            may |= a
            must |= b
        return may, must

    def isinstance1(self, x, t):
        if type(t) is not Obj or t.kind not in ('class', 'ext'):
            return True, False
        if type(x) is tuple:
            if x[0] == 'c':
                if t.kind == 'class':
                    return False, False
                ty = self.ext_type(t.site)
                if ty is None:
                    return True, False
                r = isinstance(x[2], ty)
                return r, r
            if x[0] == 'p':
                if x[1] == 'any':
                    return t.kind == 'ext', False
                if t.kind == 'class':
                    return False, False
                ty = self.ext_type(t.site)
                k = getattr(builtins, x[1], None)
                if ty is None or not isinstance(k, type):
                    return True, False
                r = issubclass(k, ty)
                return r, r
            return False, False
        if x.kind == 'arg':
            return True, False
        if x.kind == 'inst':
            m = self.mro(x.info)
            if t in m:
                return True, True
            if t.kind == 'ext':
                ty = self.ext_type(t.site)
                for b in m:
                    if b.kind == 'ext':
                        bt = self.ext_type(b.site)
                        if ty and bt and issubclass(bt, ty):
                            return True, True
                if t.site == 'object':
                    return True, True
                if ty is not None and ty.__module__.startswith('collections'):
                    return True, False
            return False, False
        if t.kind == 'class':
            return False, False
        ty = self.ext_type(t.site)
        k = self.kind_type(x) if x.kind in CONTAINERS else None
        if ty is None:
            return True, False
        if k is None:
            return False, False
        r = issubclass(k, ty)
        return r, r

    # ----------------------------------------------------------- iteration

    def split_iter(self, v, node, depth=0):
        """-> (plain atoms, [(generator, transforms)])"""
        plain = set()
        gens = []
        for x in v:
            if type(x) is tuple:
                if x[0] == 'p' and x[1] in ('int', 'float', 'bool',
                                            'complex') or \
                        x[0] == 'c' and not isinstance(x[2], (str, bytes)):
                    if len(v) == 1:
                        if x[0] == 'c' and x[2] is None:
                            self.event('noneiter', node)
                        else:
                            self.event('badop', node, 'iterate')
                    self.may_raise('TypeError')
                    continue
                plain.add(x)
            elif x.kind == 'gen':
                gens.append((x, ()))
            elif x.kind == 'inst' and depth < 5:
                m = self.class_attr(x.info, '__iter__')
                if m:
                    r = self.try_call(self.bind(m, x), [], {}, node)
                    r = frozenset(y for y in r if y is not x)
                    if r:
                        p, g = self.split_iter(r, node, depth + 1)
                        plain |= p
                        gens.extend(g)
                    else:
                        plain.add(x)
                elif self.class_attr(x.info, '__next__') or \
                        self.class_attr(x.info, '__getitem__') or \
                        self.container_base(x):
                    plain.add(x)
                else:
                    if len(v) == 1:
                        self.event('badop', node, 'iterate')
                    self.may_raise('TypeError')
            elif x.kind == 'iter' and depth < 5:
                c = self.cell(x)
                if x.info in ('enumerate', 'map1', 'filter', 'iter',
                              'chain', 'islice', 'chainfrom'):
                    p, g = self.split_iter(c.get('#src', EMPTY), node,
                                           depth + 1) \
                        if c.get('#src') else (EMPTY, [])
                    if g:
                        for a, trs in g:
                            gens.append((a, trs + (x,)))
                        if p:
                            plain.add(x)
                    else:
                        plain.add(x)
                else:
                    plain.add(x)
            else:
                plain.add(x)
        return frozenset(plain), gens

    def transform(self, trs, val, node):
        for x in trs:
            if x.info == 'enumerate':
                pinned = val
                val = V(self.alloc('tuple', node, {ITEMS: (INT, pinned)},
                                   tag='enum'))
            elif x.info == 'map1':
                val = self.call_value(self.field(x, '#func'), [val], {},
                                      node)
            elif x.info == 'filter':
                f = self.field(x, '#func')
                pin = self.push(val)
                if f & NONE:
                    self.tested(val, node)
                if f and f != NONE:
                    self.call_value(f - NONE, [val], {}, node)
                val = self.pop(pin)
            elif x.info == 'chainfrom':
                val = self.elem_any(val, node)
        return val

    def elem_of(self, v, node):
        """Join of the items of the plain iterables in v."""
        acc = self.push(EMPTY)
        for x in v:
            r = EMPTY
            if type(x) is tuple:
                if x[0] == 'p' and x[1] == 'any':
                    r = ANY
                elif x[0] in ('bm', 'bbm'):
                    continue
                else:
                    r = INT if 'bytes' in x else STR
                    if x[0] == 'c' and not x[2]:
                        r = EMPTY
            elif x.kind in ('list', 'tuple', 'deque', 'bytearray'):
                r = self.field(x, '*')
            elif x.kind in ('dict', 'set', 'frozenset'):
                r = self.field(x, 'k')
            elif x.kind == 'arg':
                self.evidence.add(x)
                self.use(x, 'iter', node)
                self.may_raise('TypeError')
                r = V(arg_child(x, 'k'))
            elif x.kind == 'iter':
                r = self.iter_elem(x, node)
            elif x.kind == 'inst':
                cb = self.container_base(x)
                m = self.class_attr(x.info, '__next__')
                if m:
                    r = self.try_call(self.bind(m, x), [], {}, node)
                elif cb:
                    r = self.field(x, 'k' if cb in ('dict', 'set',
                                                    'frozenset') else '*')
                else:
                    m = self.class_attr(x.info, '__getitem__')
                    if m:
                        r = self.try_call(self.bind(m, x), [INT], {}, node)
            elif x.kind == 'ext':
                r = ANY
                self.event('effect', node, 'iterate ' + x.site)
            elif x.kind == 'class':
                r = ANY
            self.accum(acc, r)
        return self.pop(acc)

    def iter_elem(self, x, node):
        c = self.cell(x)
        k = x.info
        src = c.get('#src', EMPTY)
        if k == 'range':
            return INT
        if k in ('iter', 'islice', 'chain'):
            return self.elem_any(src, node) if src else EMPTY
        if k == 'chainfrom':
            e = self.elem_any(src, node) if src else EMPTY
            return self.elem_any(e, node) if e else EMPTY
        if k == 'keys':
            return self.map_part(src, 'k')
        if k == 'values':
            return self.map_part(src, 'v')
        if k == 'items':
            a, b = self.map_part(src, 'k'), self.map_part(src, 'v')
            if not a:
                return EMPTY
            return V(self.alloc('tuple', node, {ITEMS: (a, b)},
                                tag='items%d' % x.n))
        if k == 'enumerate':
            e = self.elem_any(src, node) if src else EMPTY
            if not e:
                return EMPTY
            return V(self.alloc('tuple', node, {ITEMS: (INT, e)},
                                tag='enum%d' % x.n))
        if k == 'zip':
            parts = []
            i = 0
            pins = []
            while '#src%d' % i in c:
                e = self.elem_any(c['#src%d' % i], node)
                pins.append(self.push(e))
                i += 1
            parts = [self.pop(p) for p in pins[::-1]][::-1]
            if c.get('#var') and parts:
                return V(self.alloc('tuple', node, {'*': parts[0]},
                                    tag='zip%d' % x.n))
            if any(not p for p in parts):
                return EMPTY
            return V(self.alloc('tuple', node, {ITEMS: tuple(parts)},
                                tag='zip%d' % x.n))
        if k in ('map1', 'map', 'filter'):
            parts = []
            if k == 'map':
                i = 0
                pins = []
                while '#src%d' % i in c:
                    e = self.elem_any(c['#src%d' % i], node)
                    pins.append(self.push(e))
                    i += 1
                parts = [self.pop(p) for p in pins[::-1]][::-1]
            else:
                parts = [self.elem_any(src, node) if src else EMPTY]
            if any(not p for p in parts):
                return EMPTY
            f = self.field(x, '#func')
            if k == 'filter':
                pin = self.push(parts[0])
                if f & NONE:
                    self.tested(parts[0], node)
                if f - NONE:
                    self.call_value(f - NONE, parts, {}, node)
                return self.pop(pin)
            return self.call_value(f, parts, {}, node)
        if k == 'tuples':
            e = self.elem_any(src, node) if src else EMPTY
            if not e:
                return EMPTY
            return V(self.alloc('tuple', node, {'*': e}, tag='tup%d' % x.n))
        if k == 'groupby':
            e = self.elem_any(src, node) if src else EMPTY
            if not e:
                return EMPTY
            pin = self.push(e)
            kv = e
            if c.get('#func'):
                kv = self.call_value(c['#func'] - NONE, [e], {}, node) \
                    if c['#func'] - NONE else e
            kp = self.push(kv)
            lst = self.alloc('list', node, {'*': self.env()[pin]},
                             tag='grp')
            r = V(self.alloc('tuple', node, {
                ITEMS: (self.env()[kp], V(lst))}, tag='grpt'))
            self.pop(kp)
            self.pop(pin)
            return r
        if k == 'extobj':
            return ANY
        return c.get('*', EMPTY)

    def map_part(self, src, f):
        out = EMPTY
        for x in src:
            if type(x) is Obj:
                if x.kind == 'arg':
                    self.evidence.add(x)
                    out = vjoin(out, V(arg_child(x, f)))
                else:
                    out = vjoin(out, self.field(x, f))
            elif x[0] == 'p':
                out = vjoin(out, ANY)
        return out

    def next_of(self, v, node, default=None):
        plain, gens = self.split_iter(v, node)
        out = None
        name = '#n%d' % id(node)
        entry = self.st
        if plain:
            pin = self.push(plain)
            try:
                e = self.elem_of(plain, node)
                self.delvar(pin)
                if e:
                    self.setvar(name, e)
                    out = sjoin(out, self.st)
            except Dead:
                pass
        box = [out]
        ended = [self.st if plain else None]
        for g, trs in gens:
            self.st = entry.copy()

            def handler(val, trs=trs):
                cont = self.st.copy()
                val = self.transform(trs, val, node)
                self.setvar(name, val)
                self.trim(entry.envs)
                box[0] = sjoin(box[0], self.st)
                self.st = cont
            try:
                self.run_gen(g, node, handler)
                ended[0] = sjoin(ended[0], self.st)
            except Dead:
                pass
        if ended[0] is not None:
            self.st = ended[0].copy()
            if default is not None:
                self.setvar(name, default)
                box[0] = sjoin(box[0], self.st)
            else:
                self.stop_iteration(node)
        if box[0] is None:
            raise Dead()
        self.st = box[0].copy()
        v = self.env().get(name, EMPTY)
        self.delvar(name)
        return v

    def stop_iteration(self, node):
        self.event('stopiter', node)
        self.may_raise('StopIteration')

    # --------------------------------------------------- container methods

    def callbacks(self, x, node):
        """A library object calls the functions it was handed, any number of
        times in any order."""
        h = self.st.copy()
        for i in range(20):
            new = h
            for f in self.field(x, '#cb'):
                if type(f) is Obj and f.kind == 'func':
                    fn = f
                elif type(f) is tuple and f[0] == 'bm':
                    fn = f[1]
                else:
                    continue
                a = fn.info.node.args
                n = len(a.posonlyargs + a.args) - (fn is not f)
                self.st = new.copy()
                args = [STR] * min(n, 1)
                for j in range(n - 1):
                    args.append(V(self.alloc('dict', node,
                                             {'k': STR, 'v': STR},
                                             tag='cb%d' % j)))
                try:
                    self.call_value(V(f), args, {}, node)
                    new = sjoin(new, self.st)
                except Dead:
                    pass
            if new is h:
                break
            h = new
        self.st = h.copy()

    def builtin_method(self, name, x, args, kwargs, node):
        """Call method `name` of a builtin value/container/arg."""
        if type(x) is tuple:
            return self.prim_method(name, x, args, kwargs, node)
        kind = x.kind
        if kind == 'arg':
            return self.arg_method(name, x, args, kwargs, node)
        if kind == 'inst':
            kind = self.container_base(x)
            if kind is None:
                if name == '__init__':
                    return NONE
                if name in ('__setattr__',):
                    self.mutate(V(x), 'setattr:?', node)
                    return NONE
                if name in ('__repr__', '__str__', '__format__'):
                    return STR
                if name in ('__hash__',):
                    return INT
                return ANY
            if name == '__init__':
                self.init_ext_base(x, self.ext_bases(x.info), args, kwargs,
                                   node)
                return NONE
        if kind == 'iter' and x.info == 'extobj':
            self.callbacks(x, node)
        if kind == 'gen':
            if name in ('__next__', 'send'):
                return self.next_of(V(x), node)
            if name == '__iter__':
                return V(x)
            return NONE
        if name in MUTATORS and kind in ('list', 'dict', 'set', 'deque',
                                         'bytearray'):
            self.mutate(V(x), name, node)
        m = getattr(self, 'm_%s_%s' % (
            'set' if kind == 'frozenset' else
            'list' if kind == 'deque' else kind, name.strip('_')), None)
        if m is None:
            m = getattr(self, 'm_any_' + name.strip('_'), None)
        if m is None:
            self.notes[('method', kind, name)] = 1
            return ANY
        return m(x, args, kwargs, node)

    def elems(self, v, node):
        return self.elem_any(v, node) if v else EMPTY

    def add_elems(self, x, f, v, node):
        pin = self.push(V(x))
        e = self.elems(v, node)
        for o in objs(self.pop(pin)):
            self.loosen(o)
            if e:
                self.add_field(o, f, e)
        return o

    def loosen(self, x):
        c = self.cell(x)
        if ITEMS in c:
            self.setcell(x, fold_items(c))

    # list
    def m_list_append(self, x, args, kw, node):
        self.arity(args, 1, 1, node)
        c = self.cell(x)
        if ITEMS in c and x.age == 0 and len(c[ITEMS]) < 3 and False:
            pass
        self.loosen(x)
        self.add_field(x, '*', args[0])
        return NONE

    m_list_appendleft = m_list_append

    def m_list_extend(self, x, args, kw, node):
        self.arity(args, 1, 1, node)
        self.add_elems(x, '*', args[0], node)
        return NONE

    m_list_extendleft = m_list_extend
    m_list_iadd = m_list_extend

    def m_list_insert(self, x, args, kw, node):
        self.arity(args, 2, 2, node)
        self.loosen(x)
        self.add_field(x, '*', args[1])
        return NONE

    def m_list_remove(self, x, args, kw, node):
        self.may_raise('ValueError')
        self.loosen(x)
        return NONE

    def m_list_pop(self, x, args, kw, node):
        self.may_raise('IndexError')
        self.loosen(x)
        return self.field(x, '*')

    m_list_popleft = m_list_pop

    def m_list_clear(self, x, args, kw, node):
        return NONE

    def m_list_sort(self, x, args, kw, node):
        self.loosen(x)
        pin = self.push(V(x))
        self.sort_like(self.field(x, '*'), kw, node)
        self.pop(pin)
        return NONE

    def m_list_reverse(self, x, args, kw, node):
        self.loosen(x)
        return NONE

    m_list_rotate = m_list_reverse

    def m_list_index(self, x, args, kw, node):
        self.may_raise('ValueError')
        return INT

    m_tuple_index = m_list_index

    def m_list_count(self, x, args, kw, node):
        return INT

    m_tuple_count = m_list_count

    def m_list_copy(self, x, args, kw, node):
        c = self.cell(x)
        return V(self.alloc('list', node, dict(c), tag='copy'))

    def m_list_setitem(self, x, args, kw, node):
        self.set_item(V(x), args[0], args[1], node)
        return NONE

    m_dict_setitem = m_list_setitem

    def m_list_getitem(self, x, args, kw, node):
        return self.load_elem(x, args[0], node,
                              self.container_base(x) or x.kind)

    m_dict_getitem = m_list_getitem
    m_tuple_getitem = m_list_getitem

    def m_list_delitem(self, x, args, kw, node):
        self.loosen(x)
        return NONE

    def m_dict_delitem(self, x, args, kw, node):
        self.may_raise('KeyError')
        return NONE

    # dict
    def m_dict_keys(self, x, args, kw, node):
        return V(self.alloc('iter', node, {'#src': V(x)}, 'keys',
                            tag='keys'))

    def m_dict_values(self, x, args, kw, node):
        return V(self.alloc('iter', node, {'#src': V(x)}, 'values',
                            tag='values'))

    def m_dict_items(self, x, args, kw, node):
        return V(self.alloc('iter', node, {'#src': V(x)}, 'items',
                            tag='items'))

    def m_dict_get(self, x, args, kw, node):
        d = args[1] if len(args) > 1 else NONE
        return vjoin(self.field(x, 'v'), d)

    def m_dict_pop(self, x, args, kw, node):
        if len(args) < 2:
            self.may_raise('KeyError')
        d = args[1] if len(args) > 1 else EMPTY
        return vjoin(self.field(x, 'v'), d)

    def m_dict_popitem(self, x, args, kw, node):
        self.may_raise('KeyError')
        a, b = self.field(x, 'k'), self.field(x, 'v')
        if not a:
            return EMPTY
        return V(self.alloc('tuple', node, {ITEMS: (a, b)}, tag='popitem'))

    def m_dict_setdefault(self, x, args, kw, node):
        d = args[1] if len(args) > 1 else NONE
        self.add_field(x, 'k', args[0])
        self.add_field(x, 'v', d)
        return self.field(x, 'v')

    def m_dict_update(self, x, args, kw, node):
        if args:
            self.dict_fill(x, args[0], node)
        for k, v in kw.items():
            self.add_field(x, 'k', const(k))
            self.add_field(x, 'v', v)
        return NONE

    def dict_fill(self, x, v, node):
        """dict(v) / d.update(v)"""
        pin = self.push(V(x))
        rest = set()
        for y in v:
            if type(y) is Obj and (y.kind == 'dict' or y.kind == 'inst'
                                   and self.container_base(y) == 'dict'):
                self.add_field(x, 'k', self.field(y, 'k'))
                self.add_field(x, 'v', self.field(y, 'v'))
            elif type(y) is Obj and y.kind == 'arg':
                self.evidence.add(y)
                self.use(y, 'update', node)
                self.add_field(x, 'k', V(arg_child(y, 'k')))
                self.add_field(x, 'v', V(arg_child(y, 'v')))
            elif y == ('p', 'any'):
                self.add_field(x, 'k', ANY)
                self.add_field(x, 'v', ANY)
            else:
                rest.add(y)
        if rest:
            e = self.elem_any(frozenset(rest), node)
            for p in e:
                c = self.cell(p) if type(p) is Obj else {}
                if ITEMS in c and len(c[ITEMS]) == 2:
                    a, b = c[ITEMS]
                else:
                    a = b = self.elem_any(V(p), node)
                for o in objs(self.env()[pin]):
                    self.add_field(o, 'k', a)
                    self.add_field(o, 'v', b)
        self.pop(pin)

    def m_dict_copy(self, x, args, kw, node):
        c = {k: v for k, v in self.cell(x).items()
             if k in ('k', 'v', '#factory')}
        return V(self.alloc('dict', node, c, x.info if x.kind == 'dict'
                            else None, tag='copy'))

    def m_dict_fromkeys(self, x, args, kw, node):
        e = self.elems(args[0], node)
        return V(self.alloc('dict', node, {
            'k': e, 'v': args[1] if len(args) > 1 else NONE}, tag='fk'))

    def m_dict_clear(self, x, args, kw, node):
        return NONE

    m_set_clear = m_dict_clear

    # set
    def m_set_add(self, x, args, kw, node):
        self.arity(args, 1, 1, node)
        self.may_raise('TypeError')
        self.add_field(x, 'k', args[0])
        return NONE

    def m_set_remove(self, x, args, kw, node):
        self.arity(args, 1, 1, node)
        self.may_raise('KeyError')
        return NONE

    def m_set_discard(self, x, args, kw, node):
        return NONE

    def m_set_pop(self, x, args, kw, node):
        self.may_raise('KeyError')
        return self.field(x, 'k')

    def m_set_update(self, x, args, kw, node):
        for a in args:
            self.add_elems(x, 'k', a, node)
        return NONE

    m_set_ior = m_set_update

    def m_set_symmetric_difference_update(self, x, args, kw, node):
        return self.m_set_update(x, args, kw, node)

    def m_set_intersection_update(self, x, args, kw, node):
        for a in args:
            self.elems_quiet(a, node)
        return NONE

    m_set_difference_update = m_set_intersection_update

    def elems_quiet(self, v, node):
        st = self.st
        try:
            return self.elems(v, node)
        except Dead:
            self.st = st
            return EMPTY

    def m_set_copy(self, x, args, kw, node):
        return V(self.alloc('set' if x.kind == 'inst' else x.kind, node,
                            {'k': self.field(x, 'k')}, tag='copy'))

    def m_set_union(self, x, args, kw, node):
        k = self.field(x, 'k')
        pin = self.push(k)
        for a in args:
            e = self.elems_quiet(a, node)
            self.accum(pin, e)
        return V(self.alloc('set' if x.kind == 'inst' else x.kind, node,
                            {'k': self.pop(pin)}, tag='union'))

    m_set_symmetric_difference = m_set_union

    def m_set_intersection(self, x, args, kw, node):
        pin = self.push(self.field(x, 'k'))
        for a in args:
            self.elems_quiet(a, node)
        return V(self.alloc('set' if x.kind == 'inst' else x.kind, node,
                            {'k': self.pop(pin)}, tag='inter'))

    m_set_difference = m_set_intersection

    def m_set_issubset(self, x, args, kw, node):
        for a in args:
            self.elems_quiet(a, node)
        return BOOL

    m_set_issuperset = m_set_issubset
    m_set_isdisjoint = m_set_issubset

    # anything
    def m_any_iter(self, x, args, kw, node):
        return V(self.alloc('iter', node, {'#src': V(x)}, 'iter',
                            tag='iter'))

    def m_any_next(self, x, args, kw, node):
        return self.next_of(V(x), node)

    def m_any_len(self, x, args, kw, node):
        return INT

    def m_any_contains(self, x, args, kw, node):
        return BOOL

    def m_any_reversed(self, x, args, kw, node):
        return self.m_any_iter(x, args, kw, node)

    def m_any_repr(self, x, args, kw, node):
        return STR

    m_any_str = m_any_repr

    def m_any_hash(self, x, args, kw, node):
        return INT

    def m_any_eq(self, x, args, kw, node):
        return BOOL

    def m_any_init(self, x, args, kw, node):
        return NONE

    def arity(self, args, lo, hi, node):
        if not lo <= len(args) <= hi:
            self.event('arity', node, 'builtin method takes %d' % lo)
            self.may_raise('TypeError')
            raise Dead()

    def arg_method(self, name, x, args, kwargs, node):
        """Method of an object the caller passed in."""
        if name in MUTATORS and len(args) in MUTATORS[name]:
            self.evidence.add(x)
            self.mutate(V(x), name, node)
            if name == 'setdefault':
                return vjoin(V(arg_child(x, 'v')),
                             args[1] if len(args) > 1 else NONE)
            if name == 'pop':
                return V(arg_child(x, 'v')) | ANY
            return ANY | NONE
        if name == 'keys':
            return V(self.alloc('iter', node, {'#src': V(x)}, 'keys',
                                tag='akeys'))
        if name == 'values':
            return V(self.alloc('iter', node, {'#src': V(x)}, 'values',
                                tag='avalues'))
        if name == 'items':
            return V(self.alloc('iter', node, {'#src': V(x)}, 'items',
                                tag='aitems'))
        if name == 'get':
            self.evidence.add(x)
            return vjoin(V(arg_child(x, 'v')),
                         args[1] if len(args) > 1 else NONE)
        if name == '__getitem__':
            self.evidence.add(x)
            return V(arg_child(x, 'v'))
        if name == 'copy' and not args:
            return V(self.alloc('dict', node, {
                'k': V(arg_child(x, 'k')), 'v': V(arg_child(x, 'v'))},
                tag='acopy'))
        if name in ('union', 'intersection', 'difference',
                    'symmetric_difference'):
            pin = self.push(V(arg_child(x, 'k')))
            for a in args:
                e = self.elems_quiet(a, node)
                if name in ('union', 'symmetric_difference'):
                    self.accum(pin, e)
            return V(self.alloc('set', node, {'k': self.pop(pin)},
                                tag='aset'))
        if name in ('index', 'count', '__len__', 'find', '__hash__'):
            return INT
        if name in ('issubset', 'issuperset', 'isdisjoint', '__contains__',
                    'startswith', 'endswith'):
            return BOOL
        if name in ('join', 'strip', 'lower', 'upper', 'format',
                    '__str__', '__repr__', 'replace', 'rstrip', 'lstrip'):
            return STR
        if name == '__iter__':
            return V(self.alloc('iter', node, {'#src': V(x)}, 'iter',
                                tag='aiter'))
        if name in ('__next__',):
            return V(arg_child(x, 'k'))
        if name in ('write', 'writelines', 'flush', 'read', 'readline',
                    'close', 'readlines'):
            return ANY
        return V(arg_child(arg_child(x, 'a:' + name), 'r')) | ANY

    def prim_method(self, name, x, args, kwargs, node):
        t = x[1]
        if name in ('join',):
            for a in args:
                self.elems_quiet(a, node)
            return STR
        if name in ('split', 'rsplit', 'splitlines', 'partition',
                    'rpartition'):
            k = 'tuple' if 'partition' in name else 'list'
            return V(self.alloc(k, node, {'*': STR}, tag='split'))
        if name in ('startswith', 'endswith', 'isupper', 'islower',
                    'isdigit', 'isalpha', 'isspace', 'isalnum',
                    'isnumeric', 'isdecimal'):
            return BOOL
        if name in ('index', 'find', 'count', 'rfind', 'bit_length',
                    'bit_count', '__len__', '__hash__'):
            if name == 'index':
                self.may_raise('ValueError')
            return INT
        if name in ('strip', 'lstrip', 'rstrip', 'lower', 'upper',
                    'replace', 'format', 'title', 'capitalize', 'center',
                    'ljust', 'rjust', 'expandtabs', 'zfill', 'translate',
                    '__str__', '__repr__', 'swapcase', 'decode'):
            if name == 'format':
                for a in args:
                    self.stringify(a, node)
            return STR
        if name == 'encode':
            return prim('bytes')
        if t == 'any':
            if name in MUTATORS:
                return ANY
            return ANY
        return ANY

    # ------------------------------------------------------------- sorting

    def sort_like(self, e, kw, node):
        """Order comparisons made by sorted/min/max/sort on items e."""
        if not e:
            return
        key = kw.get('key', NONE)
        pin = self.push(e)
        ks = key - NONE
        vals = EMPTY
        if ks:
            cmpf = [o for o in objs(ks) if o.kind == 'opfn'
                    and o.info == 'cmp_to_key']
            for o in cmpf:
                self.call_value(self.field(o, '#func'),
                                [self.env()[pin]] * 2, {}, node)
            ks = ks - frozenset(cmpf)
            if ks:
                vals = self.call_value(ks, [self.env()[pin]], {}, node)
                self.cmp_values(vals, node)
        if NONE <= key:
            self.cmp_values(self.env()[pin], node)
        self.pop(pin)

    def cmp_values(self, v, node):
        self.ordered(v, v, node, 'Lt')
        for x in objs(v):
            if x.kind == 'inst':
                for n in ('__lt__', '__gt__'):
                    m = self.class_attr(x.info, n)
                    if m:
                        self.try_call(self.bind(m, x), [v], {}, node)
                        break

    def stringify(self, v, node):
        for x in objs(v):
            if x.kind == 'inst':
                for n in ('__str__', '__repr__'):
                    m = self.class_attr(x.info, n)
                    if m:
                        self.try_call(self.bind(m, x), [], {}, node)
                        break
            elif x.kind in ('tuple', 'list'):
                for y in objs(self.field(x, '*')):
                    if y.kind == 'inst':
                        self.stringify(V(y), node)

    def init_ext_base(self, o, eb, args, kwargs, node):
        for b in eb:
            n = b.split('.')[-1]
            if n == 'defaultdict':
                if args:
                    c = dict(self.cell(o))
                    c['#factory'] = args[0]
                    self.setcell(o, c)
                if len(args) > 1:
                    self.dict_fill(o, args[1], node)
                return
            if n in ('dict', 'OrderedDict'):
                if args:
                    self.dict_fill(o, args[0], node)
                return
            if n in ('list', 'deque', 'tuple'):
                if args:
                    self.add_elems(o, '*', args[0], node)
                return
            if n in ('set', 'frozenset'):
                if args:
                    self.add_elems(o, 'k', args[0], node)
                return
