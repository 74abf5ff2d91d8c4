"""C16: what a search changes is undone exactly."""
import ast

import gvn
import lang
from gvn import Unknown, show
from props_c import EXAMPLES, cases
from report import Report
from scopes import AnalysisError

SEARCHES = [('cubic_ham', 'hamiltonian_cycles')]
# not part of the searched state: where the matching algorithm starts from
CACHES = {('cubic_ham', 'hamiltonian_cycles', 'previous_matching')}


def nested(fn):
    """Functions defined inside, at any depth."""
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.FunctionDef) and n is not fn:
            out.append(n)
    return out


def locals_of(fn):
    names = {a.arg for a in fn.args.args}
    for n in gvn.walk_own(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            names.add(n.id)
    return names


def root_of(t):
    depth = 0
    while isinstance(t, tuple) and t[:1] in (('idx',), ('phi',)):
        if t[0] == 'idx':
            depth += 1
            t = t[1]
        else:
            t = t[2]
    return (t[1] if t[:1] == ('p',) else None), depth


def built(t):
    """Mentions a list that is filled step by step."""
    if not isinstance(t, tuple):
        return False
    if t[:2] == ('new', 'list') and t[2][:1] == ('empty',):
        return True
    return any(built(x) for x in t)


def spread(t):
    """The element of a literal tuple a location depends on."""
    while isinstance(t, tuple) and t[:1] in (('idx',), ('phi',)):
        t = t[1] if t[0] == 'idx' else t[2]
    if t[:1] == ('el',) and t[2][:1] == ('keys',) and \
            t[2][1][:1] == ('tuple',):
        return t
    return None


def unrolled(entries):
    """A loop over a literal tuple of tables changes each of them."""
    for e in entries:
        el = spread(e.base) if e.base else None
        if el is None:
            yield e
            continue
        for x in el[2][1][1:]:
            m = {el: x}
            yield gvn.Entry(e.n, e.op, gvn.subst(e.base, m),
                            e.key and gvn.subst(e.key, m),
                            e.val and gvn.subst(e.val, m), e.guards,
                            tuple(y for y in e.loops if y != (
                                'for', el[2])), e.node, e.fn)


class Numbering(gvn.GVN):
    """Remembers what was visible when a closure was stacked."""

    def __init__(self, resolve, stack, outer):
        gvn.GVN.__init__(self, resolve)
        self.stack = stack
        self.outer = outer
        self.shot = {}

    def name(self, n):
        t = gvn.GVN.name(self, n)
        return ('p', n) if t == ('g', n) and n in self.outer else t

    def emit(self, op, base, key, val, node):
        r = gvn.GVN.emit(self, op, base, key, val, node)
        if base == ('p', self.stack) and op in ('append', 'extend'):
            for c in self.closures.values():
                self.shot[len(self.log) - 1, id(c)] = dict(c.frame.env)
        return r


class Search:
    def __init__(self, src, module, name, rep=None):
        self.src, self.module, self.name, self.rep = src, module, name, rep
        self.fn, c = src.need(module, name)
        self.inner = nested(self.fn)
        self.helpers = src.resolver(module)
        self.by_name = {n.name: n for n in self.inner}
        self.outer = locals_of(self.fn)
        self.direct = [n for n in self.fn.body
                       if isinstance(n, ast.FunctionDef)]
        self.find_stack()
        self.classify()

    def note(self, what, n=1):
        if self.rep:
            self.rep.count(what, n)

    def find_stack(self):
        """The list the pending actions are taken from."""
        found = []
        for n in gvn.walk_own(self.fn):
            if isinstance(n, ast.While):
                for x in ast.walk(n):
                    if isinstance(x, ast.Call) and \
                            isinstance(x.func, ast.Attribute) and \
                            x.func.attr == 'pop' and \
                            isinstance(x.func.value, ast.Name) and \
                            x.func.value.id in self.outer:
                        found.append((x.func.value.id, x))
        if not found:
            raise AnalysisError('%s.%s has no stack of actions'
                                % (self.module, self.name))
        self.stack = found[0][0]
        self.pops = [x for s, x in found if s == self.stack]

    def classify(self):
        """Which functions are expanded where they are called: those that
        only write or only stack."""
        self.expand = set()
        for n in self.inner:
            writes = stacks = calls = False
            for x in gvn.walk_own(n):
                if isinstance(x, (ast.Subscript, ast.Attribute)) and \
                        isinstance(x.ctx, (ast.Store, ast.Del)):
                    writes = True
                if isinstance(x, ast.Call):
                    if isinstance(x.func, ast.Attribute) and \
                            x.func.attr in gvn.MUTATORS:
                        if isinstance(x.func.value, ast.Name) and \
                                x.func.value.id == self.stack:
                            stacks = True
                        else:
                            writes = True
                    elif isinstance(x.func, ast.Name) and \
                            x.func.id in self.by_name:
                        calls = True
            if writes != stacks and not calls:
                self.expand.add(n.name)

    def resolve(self, kind, name, cls, at=None):
        if kind == 'func' and name in self.expand:
            return self.by_name[name], None
        if name in self.by_name:
            return None
        return self.helpers(kind, name, cls, at)

    def number(self, node):
        g = Numbering(self.resolve, self.stack,
                      self.outer - set(self.by_name))
        env = {}
        # variables of enclosing functions
        for m in self.inner:
            if m is not node and any(x is node for x in ast.walk(m)):
                for x in locals_of(m):
                    env.setdefault(x, ('p', x))
        g.run(node, env=env)
        return g

    def problems(self):
        for x in self.pops:
            if x.args and not (isinstance(x.args[0], ast.UnaryOp) and
                               ast.unparse(x.args[0]) == '-1'):
                yield self.name, x.lineno, ('actions are not taken from the '
                                            'top of the stack')
        roots = []
        for n in self.inner:
            if n.name in self.expand and self.called(n.name):
                continue
            try:
                g = self.number(n)
            except Unknown:
                self.note('functions not understood')
                continue
            roots.append((n, g))
        self.constants(roots)
        undone = set()
        for n, g in roots:
            for e in g.log:
                for c in self.stacked(g, e):
                    if c[0] == 'closure':
                        undone.add(c[1])
        for n, g in roots:
            if n.name in undone and not any(
                    e.op == 'call' and e.base[:1] == ('g',) and
                    e.base[1] in self.by_name or self.stacked(g, e)
                    for e in g.log):
                continue                # compared where it is stacked
            if g.opaque:
                self.note('functions not understood')
                continue
            try:
                yield from self.function(n, g)
            except Unknown:
                self.note('functions not understood')

    def called(self, name):
        for n in ast.walk(self.fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) \
                    and n.func.id == name:
                return True
        return False

    def table(self, t):
        """Is this (part of) the state of the search?"""
        r, depth = root_of(t)
        if r is None or r == self.stack or r not in self.outer:
            return None
        if (self.module, self.name, r) in CACHES:
            return None
        return r

    def constants(self, roots):
        """Tables whose entries are all the same constant."""
        vals = {}
        for n, g in roots:
            for e in g.log:
                if e.op == 'put' and self.table(e.base):
                    r, depth = root_of(e.base)
                    vals.setdefault((r, depth), set()).add(e.val)
        self.constant = {k: list(v)[0] for k, v in vals.items()
                         if len(v) == 1 and list(v)[0][0] == 'c'}

    def stacked(self, g, e):
        if e.base != ('p', self.stack):
            return []
        if e.op == 'append':
            return [e.val]
        if e.op == 'extend' and e.val[:2] == ('new', 'list') and \
                e.val[2][0] == 'seq':
            return list(e.val[2][1:])
        return []

    def function(self, n, g):
        do = list(g.log)
        undo = {}
        pushes = []
        for e in do:
            if e.base == ('p', self.stack) and e.op not in (
                    'call', 'havoc') and not self.stacked(g, e):
                if e.op in ('insert', 'del', 'pop', 'remove', 'clear'):
                    yield n.name, e.node.lineno, (
                        'the stack of actions is changed other than at its '
                        'top')
                raise Unknown('stack')
            for k, c in enumerate(self.stacked(g, e)):
                pushes.append((e, k, c))
        writing = [e for e in unrolled(do) if e.op not in ('call', 'havoc', 'yield')
                   and self.table(e.base)]
        if not writing and not any(c[0] == 'closure' for e, k, c in pushes):
            self.note('functions without changes of their own')
            return
        for e, k, c in reversed(pushes):
            if c[0] == 'g' and c[1] in self.by_name:
                undo[id(e), k] = []
                continue
            if c[0] != 'closure':
                raise Unknown('action')
            cl = g.closures[c]
            start = len(g.log)
            keep = dict(cl.frame.env)
            cl.frame.env = g.shot.get((e.n, id(cl)), keep)
            g.guards, g.loops = e.guards, ()
            g.frames.append(cl.frame)
            try:
                if g.inline(cl.node, cl.cls, [], {}, cl.frame, False) is None:
                    raise Unknown('closure')
            except gvn.Dead:
                pass
            finally:
                g.frames.pop()
                cl.frame.env = keep
            undo[id(e), k] = g.log[start:]
        self.note('functions with changes')
        self.note('undo actions', len([1 for e, k, c in pushes
                                       if undo.get((id(e), k))]))
        tag = {}
        for e in do:
            tag[e.n] = 'do'
        for key, es in undo.items():
            for e in es:
                tag[e.n] = key
        order = {e.n: e for e in do}
        cs = cases(g, 13, [e for e in g.log if e.op != 'yield'])
        if cs is None:
            raise Unknown('conditions')
        self.note('cases', len(cs))
        seen = set()
        for case in cs:
            mine, later = [], {}
            for e in unrolled(case.entries):
                t = tag.get(e.n)
                if t == 'do':
                    mine.append(e)
                else:
                    later.setdefault(t, []).append(e)
            for line, p in self.case(n, g, case, mine, later, order):
                if p not in seen:
                    seen.add(p)
                    yield n.name, line, p

    def case(self, n, g, case, mine, later, order):
        groups = [[[], []]]
        top = None                      # a search has been stacked
        calls = 0
        for e in mine:
            if e.op == 'call':
                if e.base[:1] == ('g',) and e.base[1] in self.by_name:
                    groups.append([[], []])
                    calls += 1
                continue
            full = order[e.n]
            st = self.stacked(g, full)
            for k, c in enumerate(st):
                es = later.get((id(full), k), [])
                ws = [x for x in es if x.op not in ('call', 'havoc') and
                      self.table(x.base)]
                runs = [x for x in es if x.op == 'call' and
                        x.base[:1] == ('g',) and x.base[1] in self.by_name]
                if c[0] == 'g' or runs:
                    if c[0] == 'g':
                        top = c[1]
                    elif calls:
                        yield e.node.lineno, (
                            'the alternative %s is stacked above changes '
                            'made for the first choice' % c[1])
                    if ws:
                        raise Unknown('mixed action')
                    continue
                if ws and top:
                    yield e.node.lineno, (
                        '%s is stacked above the search that needs the '
                        'change' % c[1])
                groups[-1][1].append((c[1], ws))
            if not st and self.table(e.base):
                groups[-1][0].append(e)
        keys = set()
        for es in [mine] + list(later.values()):
            for e in es:
                if e.op in ('put', 'del') and self.table(e.base):
                    keys.add(e.key)
                    if e.base[:1] == ('idx',):
                        keys.add(e.base[2])
        if any(v and a[:1] == ('eq',) and a[1] in keys and a[2] in keys
               for a, v in case.asg.items()):
            return                      # there are no loops
        for a, v in case.asg.items():
            if not v and a[:1] == ('truth',) and a[1][:1] == ('idx',):
                const = self.constant.get(root_of(a[1][1]))
                if const is not None and const[1]:
                    return              # no such entry
        for i, (did, undone) in enumerate(groups):
            self.stale = i > 0          # conditions tested before a call
            if not did and not undone:
                continue
            self.note('groups of changes compared')
            ops = [x for name, ws in reversed(undone) for x in ws]
            for p in self.restores(case, did, ops):
                yield (did or ops)[0].node.lineno, p

    def restores(self, case, did, ops):
        state, first, stacks = {}, {}, {}
        for phase, es in ((0, did), (1, ops)):
            for e in es:
                loc = (e.base, e.key, e.loops)
                word = show(e.base) + (
                    '' if e.key is None else '[%s]' % show(e.key)[:60])
                if e.op in ('append', 'pop') and e.key is None:
                    st = stacks.setdefault(e.base, [])
                    if phase == 0:
                        st.append((e.op, e.val))
                    elif not st or st[-1][0] in (e.op, 'insert') or \
                            e.op == 'append' and st[-1][1] != e.val:
                        yield '%s is not restored by %s' % (word, e.op)
                        return
                    else:
                        st.pop()
                    continue
                if phase == 1 and stacks.get(e.base) and e.op == 'insert':
                    yield '%s is restored at another place' % word
                    return
                if phase == 0 and e.op == 'insert' and e.val[0] == 'args' \
                        and e.val[1:2] == (('c', 0),):
                    stacks.setdefault(e.base, []).append(('insert', e.val[2]))
                    continue
                st = stacks.get(e.base)
                if phase == 1 and st and st[-1][0] == 'insert' and (
                        e.op == 'del' and e.key == ('c', 0) or
                        e.op == 'remove' and e.val == st[-1][1]):
                    st.pop()
                    continue
                if phase == 1 and e.op == 'clear' and any(
                        x[0] == e.base for x in state):
                    yield '%s is emptied by the undo' % word
                    return
                if e.op not in ('put', 'del', 'add', 'remove', 'discard'):
                    raise Unknown(e.op)
                if e.loops and built(e.key or e.val):
                    raise Unknown('list built step by step')
                if e.op in ('add', 'remove', 'discard'):
                    loc = (e.base, e.val, e.loops)
                    word = '%s in %s' % (show(e.val), show(e.base))
                op = {'add': 'put', 'remove': 'del',
                      'discard': 'del'}.get(e.op, e.op)
                val = e.val if e.op == 'put' else gvn.TRUE
                if phase == 1 and loc not in state:
                    yield '%s is changed by the undo only' % word
                    continue
                if loc not in state:
                    first[loc] = (op, e, word)
                elif op == 'del' and state[loc][0] == 'gone' and \
                        e.op != 'discard':
                    yield '%s is removed twice' % word
                state[loc] = ('val', val) if op == 'put' else ('gone',)
        for loc, s in state.items():
            base, key, loops = loc
            op, e, word = first[loc]
            there = self.present(case, base, key)
            if s[0] == 'val':
                const = self.constant.get(root_of(base))
                if s[1] in (('idx', base, key), ('idx',) + self.mirror(
                        base, key)) or e.op in ('add', 'remove',
                                                          'discard'):
                    good = op == 'del' or there
                elif const is not None and s[1] == const:
                    good = op == 'del' or there
                elif s[1][:1] == ('new',) and s[1][2][:1] == ('empty',):
                    good = op == 'del'
                else:
                    good = False
                if not good:
                    yield '%s is not restored to what it was' % word
            else:
                if op == 'del':
                    yield '%s stays removed' % word
                elif there is True:
                    yield '%s is removed though it was there before' % word
                elif there is None and root_of(base)[1] == 0 and \
                        not self.filtered(key, base):
                    yield '%s may have been there before' % word
        for b, st in stacks.items():
            if st:
                yield '%s on %s is not undone' % (st[-1][0], show(b))

    def present(self, case, base, key):
        if self.stale:
            return None
        for b, k in ((base, key), self.mirror(base, key)):
            if b is not None:
                v = case.holds(('in', k, b))
                if v is not None:
                    return v
        return None

    def mirror(self, base, key):
        if base[:1] == ('idx',):
            return ('idx', base[1], key), base[2]
        return None, None

    def filtered(self, key, base):
        """The generic element of a list of things not in base."""
        def walk(t):
            if not isinstance(t, tuple):
                return False
            if t[:1] == ('not',) and t[1][:1] == ('in',) and \
                    t[1][2] == base:
                return True
            return any(walk(x) for x in t)
        return walk(key)


def example_problems(src, module, name):
    return Search(src, module, name).problems()


def check_c16(tier):
    from props_c import rule_examples
    rep = Report()
    src = lang.Source()
    for module, name in SEARCHES:
        for fn, line, p in Search(src, module, name, rep).problems():
            rep.add('undo', '%s.%s.%s' % (module, name, fn), p[:70], p,
                    line=line)
    rep.need('functions with changes', 2)
    rep.need('groups of changes compared', 4)
    rule_examples(rep, example_problems, 'searches', ['good'],
                  ['bad_undo', 'bad_order', 'bad_missing'])
    rep.explanation = (
        'Each function of the search is value numbered together with the '
        'closures it stacks; in each combination of conditions its changes '
        'followed by the stacked changes in reverse order must be the '
        'identity on every location, with no other change in between, and '
        'searches and alternatives must be stacked on the right side of '
        'the undo actions.')
    rep.assumptions.append('a vertex that is contracted has no edges left')
    return rep
