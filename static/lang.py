"""Source tables for the value numbering: which call means which function."""
import ast
import copy
import json
import os

import scopes
from scopes import AnalysisError


MEMBERS = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                       'members.json')


def members(src):
    """module.class -> attributes of self and methods, as they appear."""
    out = {}
    for m in src.modules():
        for c in ast.walk(src.tree(m)):
            if not isinstance(c, ast.ClassDef):
                continue
            fields, methods = [], []
            for f in c.body:
                if not isinstance(f, ast.FunctionDef):
                    continue
                methods.append(f.name)
                me = f.args.args[0].arg if f.args.args else None
                stores = [n for n in ast.walk(f)
                          if isinstance(n, ast.Attribute) and
                          isinstance(n.ctx, ast.Store) and
                          isinstance(n.value, ast.Name) and
                          n.value.id == me]
                for n in sorted(stores, key=lambda n: (n.lineno,
                                                       n.col_offset)):
                    if n.attr not in fields:
                        fields.append(n.attr)
            out[m + '.' + c.name] = {'fields': fields, 'methods': methods}
    return out


def renamed(src):
    """Private members that have a new name: new -> the name in the table.
    Only when as many names are gone as have come, class by class."""
    with open(MEMBERS) as f:
        old = json.load(f)
    known = {n for d in old.values() for k in d.values() for n in k}
    now = members(src)
    present = {n for d in now.values() for k in d.values() for n in k}
    out = {}
    for c, d in now.items():
        for kind in ('fields', 'methods'):
            gone = [n for n in old.get(c, {}).get(kind, ())
                    if n not in present and private(n)]
            come = [n for n in d[kind] if n not in known and private(n)]
            if len(gone) != len(come):
                continue
            for a, b in zip(come, gone):
                if out.setdefault(a, b) != b:
                    return {}
    return out if len(set(out.values())) == len(out) else {}


def hand_on(a):
    """Arguments that pass the parameters on unchanged."""
    def name(x):
        return ast.Name(x, ast.Load())
    args = [name(x.arg) for x in a.posonlyargs + a.args]
    if a.vararg:
        args.append(ast.Starred(name(a.vararg.arg), ast.Load()))
    kw = [ast.keyword(x.arg, name(x.arg)) for x in a.kwonlyargs]
    if a.kwarg:
        kw.append(ast.keyword(None, name(a.kwarg.arg)))
    return ast.Call(name('f'), args, kw)


def private(n):
    return n.startswith('_') and not n.endswith('__')


class Source:
    """The package (or an example tree) as parsed modules."""

    def __init__(self, repo=None, package='pads', renamed=True):
        self.renames = None if renamed and package == 'pads' and \
            repo is None else {}
        self.repo = repo or scopes.REPO
        self.package = package
        self.trees = {}
        self.home = {}          # function node -> module
        self.merged = {}
        self.cache = {}

    def tree(self, module):
        if module not in self.trees:
            p = os.path.join(self.repo, self.package, module + '.py')
            if not os.path.exists(p):
                raise AnalysisError('module %s has vanished' % module)
            with open(p) as fh:
                t = scopes.parse(fh.read(), p)
            if self.renames is None:
                self.renames = {}
                plain = Source(self.repo, self.package, False)
                self.renames = renamed(plain)
            self.trees[module] = t
            if self.renames:
                for n in ast.walk(t):
                    if isinstance(n, ast.Attribute):
                        n.attr = self.renames.get(n.attr, n.attr)
                    elif isinstance(n, ast.ClassDef):
                        for f in n.body:
                            if isinstance(f, ast.FunctionDef):
                                f.name = self.renames.get(f.name, f.name)
            for n in ast.walk(t):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    self.home[n] = module
        return self.trees[module]

    def modules(self):
        d = os.path.join(self.repo, self.package)
        return sorted(f[:-3] for f in os.listdir(d) if f.endswith('.py')
                      and f != '__init__.py')

    def defs(self, module):
        """Names defined or imported at module level ->
        ('func'|'class', module, node)."""
        if module in self.cache:
            return self.cache[module]
        out = self.cache[module] = {}
        for n in self.tree(module).body:
            for x in ([n] if not isinstance(n, (ast.If, ast.Try)) else
                      [y for y in ast.walk(n)]):
                if isinstance(x, ast.FunctionDef):
                    out[x.name] = ('func', module, x)
                elif isinstance(x, ast.ClassDef):
                    out[x.name] = ('class', module, x)
                elif isinstance(x, ast.ImportFrom) and x.level == 1 and \
                        x.module and '.' not in x.module:
                    try:
                        other = self.defs(x.module)
                    except AnalysisError:
                        continue
                    for a in x.names:
                        if a.name in other:
                            out[a.asname or a.name] = other[a.name]
        return out

    def find(self, module, name):
        """Function 'f' or method 'C.m' -> (node, class node or None)."""
        parts = name.split('.')
        d = self.defs(module).get(parts[0])
        if d is None:
            return None
        if len(parts) == 1:
            return (d[2], None) if d[0] == 'func' else None
        if d[0] != 'class':
            return None
        return self.method(d, parts[1])

    def need(self, module, name):
        r = self.find(module, name)
        if r is None:
            raise AnalysisError('%s.%s has vanished' % (module, name))
        return self.delegate(r[0], r[1], self.defs(module).get(
            name.split('.')[0]) if '.' in name else None), r[1]

    def delegate(self, fn, cls=None, d=None):
        """The function with the body that does all the work of fn: fn only
        hands its own parameters, in order, to another function of its module
        or another method."""
        for i in range(4):
            to = self.target(fn, d)
            if to is None:
                break
            if (fn, to) not in self.merged:
                f = copy.copy(fn)
                f.body = to.body
                self.merged[fn, to] = f
                self.home[f] = self.home[to]
            fn = self.merged[fn, to]
        return fn

    def target(self, fn, d):
        body = fn.body
        if isinstance(body[0], ast.Expr) and isinstance(
                body[0].value, ast.Constant):
            body = body[1:]
        if len(body) != 1 or not isinstance(body[0], (ast.Return, ast.Expr)):
            return None
        v = body[0].value
        if isinstance(v, ast.YieldFrom) and isinstance(body[0], ast.Expr):
            v = v.value
        elif isinstance(body[0], ast.Expr) and fn.name != '__init__':
            return None
        if not isinstance(v, ast.Call):
            return None
        own = ast.parse(ast.unparse(hand_on(fn.args)), mode='eval').body
        names = [x.arg for x in fn.args.args]
        to = None
        if isinstance(v.func, ast.Name):
            e = self.defs(self.home[fn]).get(v.func.id)
            if e is not None and e[0] == 'func' and e[1] == self.home[fn]:
                to = e[2]
        elif d is not None and isinstance(v.func, ast.Attribute) and \
                isinstance(v.func.value, ast.Name) and names and \
                v.func.value.id == names[0]:
            r = self.method(d, v.func.attr)
            to = r[0] if r else None
            own.args = own.args[1:]
        if to is None or to is fn or to.decorator_list or \
                [ast.dump(x) for x in v.args + v.keywords] != \
                [ast.dump(x) for x in own.args + own.keywords] or \
                ast.unparse(hand_on(to.args)) != ast.unparse(
                    hand_on(fn.args)):
            return None
        return to

    def class_of(self, node):
        for m in self.modules():
            for k, d in self.defs(m).items():
                if d[0] == 'class' and d[2] is node:
                    return d
        return None

    def method(self, d, name, skip=False):
        """Look name up in a class and its bases."""
        kind, module, node = d
        if not skip:
            for x in node.body:
                if isinstance(x, ast.FunctionDef) and x.name == name:
                    return x, node
        for b in node.bases:
            if isinstance(b, ast.Name):
                e = self.defs(module).get(b.id)
                if e is not None and e[0] == 'class':
                    r = self.method(e, name)
                    if r is not None:
                        return r
        return None

    def methods(self, module, cname):
        """All method names a class has, inherited ones included."""
        d = self.defs(module).get(cname)
        if d is None or d[0] != 'class':
            raise AnalysisError('class %s.%s has vanished' % (module, cname))
        out = []
        todo = [d]
        while todo:
            k, m, node = todo.pop(0)
            for x in node.body:
                if isinstance(x, ast.FunctionDef) and x.name not in out:
                    out.append(x.name)
            for b in node.bases:
                if isinstance(b, ast.Name):
                    e = self.defs(m).get(b.id)
                    if e is not None and e[0] == 'class':
                        todo.append(e)
        return out

    def resolver(self, module, cname=None, keep=(), follow=False,
                 only=None):
        """resolve() for GVN.  Functions of the same module are expanded
        (those of other modules too when follow is set), except kept ones."""
        root = self.defs(module)
        cd = root.get(cname) if cname else None

        def resolve(kind, name, cls, at=None):
            # names mean what they mean where the expanded function stands
            here = self.home.get(at, module)
            defs = self.defs(here)
            if kind == 'method':
                if cd is None or name in keep:
                    return None
                return self.method(cd, name)
            if name in keep:
                return None
            if kind == 'func':
                d = defs.get(name)
                if d is None or d[0] != 'func' or \
                        (d[1] != here and not follow):
                    return None
                if only is not None and name not in only:
                    return None
                return d[2], None
            if kind == 'class':
                d = defs.get(name)
                if d is None or d[0] != 'class':
                    return None
                return self.method(d, cls)
            if kind == 'super':
                for d in list(defs.values()):
                    if d[0] == 'class' and d[2] is cls:
                        return self.method(d, name, True)
                dd = self.class_of(cls)
                return self.method(dd, name, True) if dd else None
            return None
        return resolve
