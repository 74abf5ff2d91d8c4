"""Most general client: runs the public operations of the package on unknown
arguments."""
import ast
import sys
import threading
import time

from domain import *            # noqa
from domain import ITEMS
from interp import Dead, Act
from ext_model import Analyzer
from scopes import AnalysisError, load_modules, build_scopes

sys.setrecursionlimit(200000)


class EntryScope(object):
    """The unknown caller."""
    kind = 'function'
    parent = None
    cellvars = frozenset()
    locals = frozenset()
    globals = frozenset()
    nonlocals = frozenset()
    is_generator = False

    def __init__(self, name, module):
        self.name = self.qual = name
        self.module = module
        self.where = '<caller of %s>' % name

    def resolve(self, name):
        return ('local', 0)

    def enclosing_functions(self):
        return iter(())


def fake_call(name):
    n = ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=[],
                 keywords=[])
    ast.copy_location(n, ast.Constant(value=None, lineno=0, col_offset=0))
    n.lineno = n.col_offset = 0
    n.func.lineno = n.func.col_offset = 0
    return n


class Client(object):
    def __init__(self, A, spec):
        self.A = A
        self.spec = spec            # dict: overrides for params

    # ------------------------------------------------------------- running

    def start(self, name, module):
        A = self.A
        A.st = State()
        sc = EntryScope(name, A.modules[module])
        cx = ctx(None, name, sc)
        A.act = Act(cx, sc, None, None)
        A.st.envs[cx] = {}
        A.st.envs['#'] = {}
        self.top = A.act
        self.nodes = {}

    def node(self, key):
        if key not in self.nodes:
            self.nodes[key] = fake_call(key)
        return self.nodes[key]

    def arguments(self, fobj, prefix, skip=0, method=None):
        """Unknown arguments for every parameter of a function."""
        A = self.A
        n = fobj.info.node
        a = n.args
        pos = [p.arg for p in a.posonlyargs + a.args][skip:]
        args = []
        cell = A.cell(fobj)
        for p in pos:
            args.append(self.param(prefix, p, cell.get('@' + p), method))
        kw = {}
        for p in a.kwonlyargs:
            kw[p.arg] = self.param(prefix, p.arg, cell.get('@' + p.arg),
                                   method)
        star = starstar = None
        if a.vararg:
            star = V(arg(prefix + a.vararg.arg, ('k',)))
        if a.kwarg:
            starstar = V(arg(prefix + a.kwarg.arg, ('v',)))
        return args, kw, star, starstar

    def param(self, prefix, p, default, method):
        make_it = self.spec.get('params', {}).get(p)
        known = self.spec.get('members', {}).get(method)
        if known is not None and p not in known and default is not None:
            return default          # a parameter callers do not know about
        if make_it is not None:
            v = make_it(self, p)
        else:
            v = V(arg(prefix + p))
        if default is not None:
            v = vjoin(v, default)
        return v

    def consume(self, v, key):
        """What a caller may do with a result: iterate it."""
        A = self.A
        gens = [g for g in objs(v) if g.kind == 'gen']
        its = frozenset(g for g in objs(v) if g.kind == 'iter')
        out = A.st.copy()
        for g in gens:
            node = self.node(key + ' iterate')
            A.st = out.copy()

            def handler(val):
                A.external_yield(val, self.current_yield)
            try:
                A.run_gen(g, node, handler)
                A.exhausted(g)
                A.forget_given()
                out = sjoin(out, A.st)
            except Dead:
                pass
        if its:
            A.st = out.copy()
            try:
                e = A.elem_any(its, self.node(key + ' iter'))
                out = sjoin(out, A.st)
            except Dead:
                pass
        A.st = out.copy()

    current_yield = None

    def call(self, f, args, kw, key, star=None, starstar=None):
        A = self.A
        v = A.call_value(f, args, kw, self.node(key), star, starstar)
        return v


def run_function(A, module, name, spec, after=None):
    A.reset()
    for final in (False, True):
        c = Client(A, spec)
        c.kind = 'func'
        c.start('%s.%s' % (module, name), module)
        A.final = final
        m = A.module_objs[module]
        v = A.base[m].get(name)
        if v is None:
            raise AnalysisError('public name %s.%s has vanished'
                                % (module, name))
        for f in objs(v):
            if f.kind != 'func':
                continue
            args, kw, star, starstar = c.arguments(f, '', 0, '')
            try:
                r = c.call(V(f), args, kw, name, star, starstar)
            except Dead:
                finish(A, c)
                continue
            A.setvar('#result', r)
            if after:
                after(A, c, r, name)
            c.consume(A.env()['#result'], name)
            finish(A, c)
    A.final = False
    return c


def finish(A, c):
    """Exceptions that reached the caller."""
    st = c.top.uncaught.get('x')
    if st is not None:
        e = st.envs.get(c.top.ctx, {}).get('#exc', EMPTY)
        A.escaped = vjoin(getattr(A, 'escaped', EMPTY), e)


def run_class(A, module, name, spec, after=None):
    A.reset()
    A.final = False
    c = Client(A, spec)
    c.kind = 'class'
    c.start('%s.%s' % (module, name), module)
    m = A.module_objs[module]
    v = A.base[m].get(name)
    if v is None:
        raise AnalysisError('public name %s.%s has vanished'
                            % (module, name))
    for k in objs(v):
        if k.kind != 'class':
            continue
        names = [n for n in spec['members'] if n != '__init__'
                 and n not in spec.get('skip', ())]
        gone = [n for n in names if not A.class_attr(k, n)]
        if gone:
            raise AnalysisError('public method %s.%s.%s has vanished'
                                % (module, name, gone[0]))
        init = A.class_attr(k, '__init__')
        args, kw, star, starstar = [], {}, None, None
        if init:
            for f in objs(init):
                if f.kind == 'func':
                    args, kw, star, starstar = c.arguments(
                        f, '__init__.', 1, '__init__')
        before = A.st.copy()
        inst = EMPTY
        for A.final in (False, True):
            A.st = before.copy()
            try:
                inst = c.call(V(k), args, kw, name, star, starstar)
            except Dead:
                inst = EMPTY
        A.final = False
        if not inst:
            finish(A, c)
            continue
        A.setvar('self', inst)
        if after:
            after(A, c, inst, name)
        state = A.st.copy()
        n = 0
        while True:
            n += 1
            if n > 30:
                raise AnalysisError('no client fixpoint for %s' % name)
            new = state
            for meth in names:
                st = one_method(A, c, new, name, meth, after)
                new = sjoin(new, st)
            if A.final:
                break
            if new is state:
                A.final = True
            state = new
        A.final = False
        A.st = state.copy()
        finish(A, c)
    return c


def one_method(A, c, state, name, meth, after):
    A.st = state.copy()
    selfv = A.env()['self']
    A.begin_method(selfv, meth)
    try:
        f = A.get_attr(selfv, meth, c.node('get ' + meth))
    except Dead:
        A.begin_method(EMPTY, None)
        return None
    out = None
    # properties are evaluated by get_attr; methods are called
    for b in f:
        if type(b) is tuple and b[0] == 'bm' and b[1].kind == 'func' or \
                type(b) is Obj and b.kind == 'func':
            A.st = state.copy()
            bound = type(b) is tuple
            args, kw, star, starstar = c.arguments(
                b[1] if bound else b, meth + '.', 1 if bound else 0, meth)
            try:
                r = c.call(V(b), args, kw, name + '.' + meth, star, starstar)
            except Dead:
                continue
            A.setvar('#result', r)
            if after:
                after(A, c, r, name + '.' + meth)
            c.consume(A.env()['#result'], name + '.' + meth)
            A.delvar('#result')
            out = sjoin(out, A.st)
    A.begin_method(EMPTY, None)
    return out


def with_stack(fn, *args):
    """Run with a large C stack (the interpreter recurses deeply)."""
    box = {}

    def target():
        try:
            box['r'] = fn(*args)
        except BaseException as e:      # re-raised in the caller
            box['e'] = e
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=target)
    t.start()
    t.join()
    if 'e' in box:
        raise box['e']
    return box['r']


def inner_wrap(A, fobj, env, node):
    """wrap.wrap is analysed as an entry of its own; a call of it from
    elsewhere in the package yields a new list of lines."""
    if isinstance(A.act.scope, EntryScope):
        return None
    return V(A.alloc('list', node, {'*': STR}, tag='wrap'))


def inner_step(A, fobj, env, node):
    """sudoku.step (with every rule) is an entry of its own; the solvers
    built on it see: some truth value, or a contradiction."""
    if isinstance(A.act.scope, EntryScope):
        return None
    bad = A.base[A.module_objs['sudoku']].get('BadSudoku')
    if bad:
        A.throw(bad)
    return BOOL


RULES = ('locate', 'eliminate', 'align', 'pair', 'triad', 'nishio',
         'rectangle', 'trapezoid', 'subproblem', 'bilocal', 'bivalue',
         'repeat', 'path', 'conflict', 'twosat')


def inner_rule(A, fobj, env, node):
    """Every solver rule is an entry of its own; step() sees that it
    returns or finds a contradiction."""
    if A.act.scope.where != 'pads/sudoku.py:step':
        return None
    bad = A.base[A.module_objs['sudoku']].get('BadSudoku')
    for g in objs(env.get('grid', EMPTY)):
        if g.kind == 'inst':
            A.add_field(g, 'progress', BOOL)
    if bad:
        A.throw(bad)
    return NONE


def load(repo=None):
    ms = load_modules(repo)
    sc = build_scopes(ms)
    A = Analyzer(ms, sc)
    A.hooks['pads/wrap.py:wrap'] = inner_wrap
    A.hooks['pads/sudoku.py:step'] = inner_step
    for rule in RULES:
        A.hooks['pads/sudoku.py:' + rule] = inner_rule
    A.build()
    return A
