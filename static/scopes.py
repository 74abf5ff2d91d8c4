"""Parse /repo/pads and resolve lexical scopes.

Every function, lambda, generator expression and class body becomes a Scope.
Comprehension variables are treated as locals of the enclosing scope (they are
saved and restored around the comprehension by the interpreter).
"""
import ast
import os

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'pads'


class AnalysisError(Exception):
    """The analysis cannot run (missing anchor, unparsable file...)."""


class Plain(ast.NodeTransformer):
    """Annotated assignments are assignments; an iterator that is only asked
    for its next item at the head of one loop is a for loop; a name that only
    carries a value to the head of the next statement is that value."""

    def visit_FunctionDef(self, fn):
        self.generic_visit(fn)
        for n in reversed(list(ast.walk(fn))):
            for field in ('body', 'orelse', 'finalbody'):
                b = getattr(n, field, None)
                if isinstance(b, list) and len(b) > 1:
                    setattr(n, field, self.loops(b, fn))
        return fn

    def loops(self, b, fn):
        out = []
        for s in b:
            r = out and (self.iteration(out[-1], s, fn) or
                         self.carried(out[-1], s, fn))
            if r:
                out[-1] = r
            else:
                out.append(s)
        return out

    def carried(self, a, s, fn):
        """x = E; if x: / if not x: / for y in x: / return x"""
        if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and
                isinstance(a.targets[0], ast.Name)):
            return None
        x = a.targets[0].id
        field = {ast.If: 'test', ast.For: 'iter',
                 ast.Return: 'value'}.get(type(s))
        e = getattr(s, field) if field else None
        inverted = isinstance(s, ast.If) and isinstance(
            e, ast.UnaryOp) and isinstance(e.op, ast.Not)
        if not isinstance(e.operand if inverted else e, ast.Name) or \
                (e.operand if inverted else e).id != x:
            return None
        uses = 0
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id == x:
                uses += 1
            elif isinstance(n, (ast.Global, ast.Nonlocal)) and x in n.names:
                return None
        if uses != 2:
            return None
        if inverted:
            e.operand = a.value
        else:
            setattr(s, field, a.value)
        return s

    def iteration(self, a, w, fn):
        """it = iter(E); while True: try: x = next(it)
        except StopIteration: break; ..."""
        if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and
                isinstance(a.targets[0], ast.Name) and
                isinstance(a.value, ast.Call) and
                isinstance(a.value.func, ast.Name) and
                a.value.func.id == 'iter' and len(a.value.args) == 1 and
                isinstance(w, ast.While) and not w.orelse and
                isinstance(w.test, ast.Constant) and w.test.value and
                len(w.body) > 1 and isinstance(w.body[0], ast.Try)):
            return None
        it, t = a.targets[0].id, w.body[0]
        if len(t.body) != 1 or len(t.handlers) != 1 or t.orelse or \
                t.finalbody:
            return None
        x, h = t.body[0], t.handlers[0]
        if not (isinstance(x, ast.Assign) and len(x.targets) == 1 and
                ast.unparse(x.value) == 'next(%s)' % it and
                h.type is not None and
                ast.unparse(h.type) == 'StopIteration' and
                len(h.body) == 1 and isinstance(h.body[0], ast.Break)):
            return None
        if sum(isinstance(n, ast.Name) and n.id == it
               for n in ast.walk(fn)) != 2:
            return None
        return ast.copy_location(ast.For(x.targets[0], a.value.args[0],
                                         w.body[1:], []), w)

    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        if n.value is None:
            return n
        return ast.copy_location(ast.Assign([n.target], n.value), n)


def parse(text, path):
    return Plain().visit(ast.parse(text, path))


class Module(object):
    def __init__(self, name, path, tree, source):
        self.name = name
        self.path = path
        self.tree = tree
        self.source = source
        self.rel = os.path.relpath(path, REPO)


def load_modules(repo=None, pkg=PKG):
    root = os.path.join(repo or REPO, pkg)
    if not os.path.isdir(root):
        raise AnalysisError('package directory %s not found' % root)
    out = {}
    for fn in sorted(os.listdir(root)):
        if not fn.endswith('.py'):
            continue
        path = os.path.join(root, fn)
        with open(path, encoding='utf-8') as f:
            src = f.read()
        try:
            tree = parse(src, path)
        except SyntaxError as e:
            raise AnalysisError('cannot parse %s: %s' % (path, e))
        out[fn[:-3]] = Module(fn[:-3], path, tree, src)
    return out


class Scope(object):
    """One lexical scope."""

    def __init__(self, node, kind, parent, module, name):
        self.node = node
        self.kind = kind            # module / function / class
        self.parent = parent
        self.module = module
        self.name = name
        self.locals = set()
        self.params = []
        self.globals = set()
        self.nonlocals = set()
        self.is_generator = False
        self.children = []
        self.uses = set()
        self.cellvars = set()
        if parent is None or parent.kind == 'module':
            self.qual = name
        else:
            self.qual = parent.qual + '.' + name
        if parent is not None:
            parent.children.append(self)

    @property
    def where(self):
        return '%s:%s' % (self.module.rel, self.qual)

    def enclosing_functions(self):
        s = self.parent
        while s is not None:
            if s.kind == 'function':
                yield s
            s = s.parent

    def resolve(self, name):
        """-> ('local',None) ('cell',hops) ('global',None)"""
        if self.kind == 'module':
            return ('global', 0)
        if name in self.globals:
            return ('global', 0)
        if name in self.locals and name not in self.nonlocals:
            return ('local', 0)
        hops = 0
        for s in self.enclosing_functions():
            hops += 1
            if name in s.globals:
                return ('global', 0)
            if name in s.locals and name not in s.nonlocals:
                return ('cell', hops)
        return ('global', 0)


class _Builder(ast.NodeVisitor):
    def __init__(self, module, scopes):
        self.module = module
        self.scopes = scopes
        self.cur = None

    def build(self):
        s = Scope(self.module.tree, 'module', None, self.module,
                  self.module.name)
        self.scopes[self.module.tree] = s
        self.cur = s
        for st in self.module.tree.body:
            self.visit(st)
        return s

    def bind(self, name):
        self.cur.locals.add(name)

    def _args(self, a):
        for x in a.posonlyargs + a.args:
            yield x.arg
        if a.vararg:
            yield a.vararg.arg
        for x in a.kwonlyargs:
            yield x.arg
        if a.kwarg:
            yield a.kwarg.arg

    def _func(self, node, name, body):
        a = node.args
        for d in a.defaults + [d for d in a.kw_defaults if d is not None]:
            self.visit(d)
        s = Scope(node, 'function', self.cur, self.module, name)
        self.scopes[node] = s
        for p in self._args(a):
            s.params.append(p)
            s.locals.add(p)
        saved, self.cur = self.cur, s
        for b in body:
            self.visit(b)
        self.cur = saved

    def visit_FunctionDef(self, node):
        self.bind(node.name)
        for d in node.decorator_list:
            self.visit(d)
        self._func(node, node.name, node.body)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, node):
        self._func(node, '<lambda>', [node.body])

    def visit_GeneratorExp(self, node):
        self.visit(node.generators[0].iter)
        s = Scope(node, 'function', self.cur, self.module, '<genexpr>')
        s.is_generator = True
        s.params = ['.0']
        s.locals.add('.0')
        self.scopes[node] = s
        saved, self.cur = self.cur, s
        for i, g in enumerate(node.generators):
            self.visit(g.target)
            if i:
                self.visit(g.iter)
            for c in g.ifs:
                self.visit(c)
        self.visit(node.elt)
        self.cur = saved

    def visit_ClassDef(self, node):
        self.bind(node.name)
        for d in node.decorator_list + node.bases:
            self.visit(d)
        for k in node.keywords:
            self.visit(k.value)
        s = Scope(node, 'class', self.cur, self.module, node.name)
        self.scopes[node] = s
        saved, self.cur = self.cur, s
        for b in node.body:
            self.visit(b)
        self.cur = saved

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.bind(node.id)
        else:
            self.cur.uses.add(node.id)

    def visit_Global(self, node):
        self.cur.globals.update(node.names)

    def visit_Nonlocal(self, node):
        self.cur.nonlocals.update(node.names)

    def visit_ExceptHandler(self, node):
        if node.name:
            self.bind(node.name)
        self.generic_visit(node)

    def visit_Import(self, node):
        for a in node.names:
            self.bind((a.asname or a.name).split('.')[0])

    def visit_ImportFrom(self, node):
        for a in node.names:
            self.bind(a.asname or a.name)

    def visit_Yield(self, node):
        self.cur.is_generator = True
        self.generic_visit(node)

    visit_YieldFrom = visit_Yield

    def visit_MatchAs(self, node):
        if node.name:
            self.bind(node.name)
        self.generic_visit(node)

    def visit_MatchStar(self, node):
        if node.name:
            self.bind(node.name)

    def visit_MatchMapping(self, node):
        if node.rest:
            self.bind(node.rest)
        self.generic_visit(node)


def build_scopes(modules):
    scopes = {}
    for m in modules.values():
        _Builder(m, scopes).build()
    for s in list(scopes.values()):
        names = set(s.uses) | s.nonlocals
        if s.kind == 'function' or s.kind == 'class':
            for n in names:
                if n in s.locals and n not in s.nonlocals \
                        and s.kind == 'function':
                    continue
                if n in s.globals:
                    continue
                for e in s.enclosing_functions():
                    if n in e.locals and n not in e.nonlocals:
                        e.cellvars.add(n)
                        break
    return scopes
