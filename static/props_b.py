"""C08 (invalid input is rejected) and C09 (recognizers and their signals)."""
import ast

import engine
import lang
import quant
from domain import *            # noqa
from probes import Probes
from props_a import tree, examples, finding, EXAMPLES
from report import Report
from scopes import AnalysisError

UNDIRECTED = 'pads/graphs.py:is_undirected'
MAXDEG = 'pads/graphs.py:max_degree'
TOPO = 'pads/partial_order.py:isTopologicalOrder'

# ------------------------------------------------------------------- C08
# (entry, variant) with variant = (predicate function, answer, other answers)
# -> what the caller may see: documented exception names, or a value
C08_CASES = [
    ('biconnectivity', 'BiconnectedComponents', 'class', UNDIRECTED,
     'ValueError'),
    ('biconnectivity', 'BiconnectivityTester', 'class', UNDIRECTED,
     'NotBiconnected'),
    ('biconnectivity', 'STOrienter', 'class', UNDIRECTED, 'ValueError'),
    ('biconnectivity', 'st_orientation', 'func', UNDIRECTED, 'ValueError'),
    ('biconnectivity', 'is_biconnected', 'func', UNDIRECTED, False),
    ('bipartite', 'odd_core', 'func', UNDIRECTED, 'ValueError'),
    ('chordal', 'is_chordal', 'func', UNDIRECTED, 'ValueError'),
    ('cubic_ham', 'hamiltonian_cycles', 'func', UNDIRECTED, 'ValueError'),
    ('cubic_ham', 'hamiltonian_cycles', 'func', MAXDEG, 'ValueError'),
    ('graphdegeneracy', 'degeneracySequence', 'func', UNDIRECTED,
     'TypeError'),
    ('graphdegeneracy', 'degeneracy', 'func', UNDIRECTED, 'TypeError'),
    ('graphdegeneracy', 'degeneracyOrientation', 'func', UNDIRECTED,
     'TypeError'),
    ('graphdegeneracy', 'core', 'func', UNDIRECTED, 'TypeError'),
    ('graphdegeneracy', 'triangles', 'func', UNDIRECTED, 'TypeError'),
    ('halin', 'is_D3_reducible', 'func', UNDIRECTED, 'TypeError'),
    ('halin', 'is_halin', 'func', UNDIRECTED, 'TypeError'),
    ('halin', 'is_dual_3_tree', 'func', UNDIRECTED, 'TypeError'),
    ('halin', 'is_wheel', 'func', UNDIRECTED, 'TypeError'),
    ('halin', 'halin_leaf_vertices', 'func', UNDIRECTED, 'TypeError'),
    ('halin', 'hamiltonian_cycle_D3', 'func', UNDIRECTED, 'TypeError'),
    ('medium', 'LabeledGraphMedium', 'class', UNDIRECTED, 'MediumError'),
    ('minimum_spanning_tree', 'MinimumSpanningTree', 'func', UNDIRECTED,
     'ValueError'),
    ('partial_cube', 'PartialCubeEdgeLabeling', 'func', UNDIRECTED,
     'MediumError'),
    ('partial_cube', 'MediumForPartialCube', 'func', UNDIRECTED,
     'MediumError'),
    ('partial_cube', 'PartialCubeLabeling', 'func', UNDIRECTED,
     'MediumError'),
    ('partial_cube', 'isPartialCube', 'func', UNDIRECTED, False),
    ('xyz_graph', 'CubicMatchPartitions', 'func', UNDIRECTED, 'ValueError'),
    ('xyz_graph', 'xyzEmbeddings', 'func', UNDIRECTED, 'ValueError'),
    ('partial_order', 'TopologicalOrder', 'func', TOPO, 'ValueError'),
    ('partial_order', 'MaximumAntichain', 'func', TOPO, 'ValueError'),
    ('partial_order', 'isAcyclic', 'func', TOPO, False),
    ('acyclic_reachability', 'Reachability', 'class', TOPO, 'ValueError'),
]
ANSWERS = {
    UNDIRECTED: {UNDIRECTED: FALSE},
    MAXDEG: {UNDIRECTED: TRUE, MAXDEG: const(4)},
    TOPO: {TOPO: FALSE},
}
# what each predicate stands for, when a guard is written out instead
MEANING = {
    UNDIRECTED: ['''
def f(G):
    for v in G:
        if v in G[v]:
            return False
        for w in G[v]:
            if v not in G[w]:
                return False
    return True
'''],
    MAXDEG: ['''
def f(G):
    for v in G:
        if len(G[v]) > 3:
            return False
    return True
''', '''
def f(G):
    if max(len(G[v]) for v in G) > 3:
        return False
    return True
'''],
    TOPO: [],
}


def names_of(atoms):
    out = set()
    for x in atoms:
        if type(x) is Obj:
            if x.kind == 'inst':
                out.add(getattr(x.info, 'label', lambda: '?')())
            elif x.kind == 'class':
                out.add(x.label())
            else:
                out.add(x.label() if x.kind != 'ext' else x.site)
    return {n.split('.')[-1].split(':')[-1] for n in out}


class Guarded(Probes):
    """Runs an operation with the answers of some predicates fixed."""

    def __init__(self, A, entry):
        Probes.__init__(self, A, entry)
        self.outcome = set()
        A.exhausted = self.exhausted
        for where, value in ANSWERS[entry[3]].items():
            A.hooks[where] = lambda A, f, env, node, v=value: v

    def after(self, A, c, r, name):
        if c.kind == 'class' and name != A.act.scope.name.split('.')[-1]:
            return
        for x in r:
            if type(x) is Obj and x.kind == 'gen':
                continue
            if type(x) is tuple and x[0] == 'c':
                self.outcome.add('value %r' % (x[2],))
            else:
                self.outcome.add('result')

    def external_yield(self, val, node):
        self.outcome.add('item')

    def exhausted(self, g):
        self.outcome.add('end of iteration')

    def done(self, A, c):
        return {'outcome': sorted(self.outcome),
                'hit': sorted(A.hook_hits),
                'raised': sorted(names_of(A.escaped))}


def functions_of(A, module):
    return {n.name: n for n in A.modules[module].tree.body
            if isinstance(n, ast.FunctionDef)}


def own_function(A, module, name):
    for n in A.modules[module].tree.body:
        if isinstance(n, ast.FunctionDef) and n.name == name:
            return n, [a.arg for a in n.args.args]
        if isinstance(n, ast.ClassDef) and n.name == name:
            for m in n.body:
                if isinstance(m, ast.FunctionDef) and m.name == '__init__':
                    m = lang.Source().need(module, name + '.__init__')[0]
                    return m, [a.arg for a in m.args.args][1:]
    return None, []


def package_functions(A):
    out = {}
    for m in A.modules.values():
        for n in m.tree.body:
            if isinstance(n, ast.FunctionDef):
                out.setdefault(n.name, n)
    return out


def written_out(A, module, name, pred):
    """Is the guard spelled out in the function itself?  True, False or None
    (there are guards this analysis does not understand)."""
    fn, params = own_function(A, module, name)
    if fn is None:
        return None
    ds, op = quant.reject(fn, functions_of(A, module), keep=(), mode='raise',
                          params=params)
    have = {a for a, d in ds}
    for text in MEANING[pred]:
        if set(quant.expected(text)) <= have:
            return True
    op = [o for o in op if not isinstance(o, ast.While)]
    return None if op else False


# Guards that have no predicate of their own: entry -> specification of the
# rejected inputs, and the words for them
C08_WRITTEN = [
    ('graphs', 'is_undirected', 'false', True, MEANING[UNDIRECTED][0],
     'exactly the graphs with a loop or a one-directional edge'),
    ('minimum_spanning_tree', 'MinimumSpanningTree', 'raise', False, '''
def f(G):
    for u in G:
        for v in G[u]:
            if G[u][v] != G[v][u]:
                raise ValueError
''', 'graphs with asymmetric edge weights'),
    ('xyz_graph', 'CubicMatchPartitions', 'raise', False, '''
def f(G):
    for v in G:
        if len(G[v]) != 3:
            raise ValueError
''', 'graphs with a vertex of degree other than three'),
    ('partial_cube', 'PartialCubeEdgeLabeling', 'raise', False, '''
def f(G):
    if len(StronglyConnectedComponents(G)) != 1:
        raise MediumError
''', 'graphs that are not connected'),
    ('automata', '_ProductDFA', 'raise', False, '''
def f(D1, D2, op):
    if D1.alphabet != D2.alphabet:
        raise LanguageError
''', 'automata with different alphabets'),
    ('biconnectivity', 'st_orientation', 'raise', False, '''
def f(G):
    if len(STOrienter(G).roots) != 1:
        raise NotBiconnected
''', 'graphs without exactly one root edge'),
    ('circle_pack', 'circle_pack', 'raise', False, '''
def f(internal, external):
    for k in internal:
        if k in external:
            raise ValueError
''', 'keys that are both internal and external'),
    ('partial_order', 'isTopologicalOrder', 'false', True, None,
     'exactly the sequences that are not topological orders'),
]


def guard_text(A, module, name, mode, spec):
    fn, params = own_function(A, module, name)
    if fn is None:
        return None, None, None
    ds, op = quant.reject(fn, functions_of(A, module), mode=mode,
                          params=params)
    want = set(quant.expected(spec, mode))
    op = [o for o in op if not isinstance(o, ast.While)]
    return {a for a, d in ds}, op, want


def later_in_order(A):
    """The test of a topological order: an edge v -> w is only accepted if
    the position of w is strictly later than that of v."""
    fn, params = own_function(A, 'partial_order', 'isTopologicalOrder')
    if fn is None or not params:
        return
    ds, op = quant.reject(fn, functions_of(A, 'partial_order'), mode='false',
                          params=params)
    for alpha, (q, l) in ds:
        inner = [(v, s) for v, s in q if s[0] == 'item'
                 and s[1] == ('arg', '0')]
        for w, s in inner:
            v = s[2]
            for pos, a in l:
                if a[0] != 'lt' or a[1][0] != 'item' or a[2][0] != 'item' \
                        or a[1][1] != a[2][1] or {a[1][2], a[2][2]} != {v, w}:
                    continue
                if pos or a[1][2] != v:
                    yield ('an edge is rejected if position[%s] < position'
                           '[%s] is %s, which is not the test that its end '
                           'comes strictly later than its start' % (
                               'start' if a[1][2] == v else 'end',
                               'end' if a[1][2] == v else 'start', pos))


def check_c08(tier):
    rep = Report()
    variants = [(m, n, k, p) for m, n, k, p, doc in C08_CASES]
    r = engine.run_all(setup=Guarded, variants=variants)
    rep.undecided(r['undecided'])
    A = r['A']
    doc = {(m + '.' + n, p): d for m, n, k, p, d in C08_CASES}
    for x in r['results']:
        p = x['variant']
        want = doc[x['entry'], p]
        ex = x['extra']
        m, n = x['entry'].split('.')
        where = x['entry']
        pname = p.split(':')[1]
        rep.count('guarded operations analysed')
        if p not in ex['hit']:
            w = written_out(A, m, n, p)
            if w is False:
                rep.add('unguarded', where, pname, 'the input is never '
                        'tested with %s (or an equivalent test)' % pname)
            rep.count('guards not using the predicate')
            continue
        bad = set(ex['outcome'])
        if want is False:
            bad.discard('value False')
            if 'value False' not in ex['outcome']:
                bad.add('no answer False')
            raised = ex['raised']
        else:
            raised = [e for e in ex['raised'] if e != want]
            if want not in ex['raised']:
                bad.add('no ' + want)
        if bad:
            rep.add('produces a result', where, pname, 'for an input that '
                    'fails %s: %s' % (pname, ', '.join(sorted(bad))))
        if raised:
            rep.add('undocumented error', where, pname, 'for an input that '
                    'fails %s: raises %s' % (pname, ', '.join(raised)))
    for m, n, mode, exact, spec, words in C08_WRITTEN:
        if spec is None:
            continue
        have, op, want = guard_text(A, m, n, mode, spec)
        if have is None:
            rep.count('written guards not understood')
            continue
        rep.count('written guards compared')
        missing = want - have
        extra = have - want if exact else set()
        if op:
            rep.count('written guards not understood')
            continue
        if missing:
            rep.add('guard', '%s.%s' % (m, n), words, 'the function does not '
                    'reject %s' % words)
        elif extra:
            rep.add('guard', '%s.%s' % (m, n), words, 'the function rejects '
                    'more than %s: %s' % (words, sorted(extra)[0]))
    for text in later_in_order(A):
        rep.add('guard', 'partial_order.isTopologicalOrder', 'order', text)
    rep.need('guarded operations analysed', 25)
    rep.need('written guards compared', 3)
    # the comparison of formulas must still tell good from bad
    bad = quant.expected('''
def f(G):
    for v in G:
        for w in G[v]:
            if w != v and v not in G[w]:
                return False
    return True
''')
    good = quant.expected('''
def f(G):
    return not any(w == v or v not in G[w] for v in G for w in G[v])
''')
    std = quant.expected(MEANING[UNDIRECTED][0])
    if set(bad) == set(std) or set(good) != set(std):
        raise AnalysisError('the formula comparison fails its own examples')
    rep.count('rule examples checked', 2)
    rep.samples = ['%s with %s = False' % (x['entry'],
                                           x['variant'].split(':')[1])
                   for x in r['results']][:10]
    rep.explanation = (
        'Each guarded operation is interpreted abstractly with its '
        'predicate answering "invalid": no return, yield or constructed '
        'object may be reachable and only the documented error may escape.  '
        'Guards written as loops are rewritten to quantified formulas and '
        'compared with their specification.')
    return rep


# ------------------------------------------------------------------- C09

C09_RECOGNIZERS = [
    ('bipartite', 'is_bipartite'), ('biconnectivity', 'is_biconnected'),
    ('chordal', 'is_chordal'), ('graphs', 'is_independent_set'),
    ('graphs', 'is_undirected'),
    ('partial_order', 'isAcyclic'), ('partial_order', 'isTopologicalOrder'),
    ('partial_cube', 'isPartialCube'), ('halin', 'is_K4'),
    ('halin', 'is_outer_K4'), ('halin', 'is_D3_reducible'),
    ('halin', 'is_halin'), ('halin', 'is_dual_3_tree'), ('halin', 'is_wheel'),
    ('xyz_graph', 'isxyz'), ('two_satisfiability', 'Satisfiable'),
]
# parameters that choose the answer: the value is the hook's own
C09_OPEN = {'halin.is_D3_reducible', 'halin.is_halin', 'halin.is_dual_3_tree',
            'halin.is_wheel'}


# raised by data structures when their own invariants fail, not by a test
C09_INTERNAL = {'IndexError', 'SequenceError', 'PartitionError',
                'DoubleNegationError'}


C09_MODULES = ('bipartite', 'biconnectivity', 'chordal', 'graphs', 'halin',
               'partial_order', 'partial_cube', 'xyz_graph', 'medium', 'dfs',
               'bfs', 'two_satisfiability', 'strong_connectivity', 'lex_bfs')


def own_signals(A):
    """Exceptions raised by name in the modules of the recognizers."""
    if not hasattr(A, 'own_signals'):
        out = set()
        for m in C09_MODULES:
            if m in A.modules:
                for n in ast.walk(A.modules[m].tree):
                    if isinstance(n, ast.Raise) and n.exc is not None:
                        e = n.exc
                        if isinstance(e, ast.Call):
                            e = e.func
                        out.add(ast.unparse(e).split('.')[-1])
        A.own_signals = out
    return A.own_signals


def leaves(stmts, loops=True):
    """return, break or continue that leaves these statements"""
    for s in stmts:
        if isinstance(s, ast.Return) or loops and isinstance(
                s, (ast.Break, ast.Continue)):
            yield s
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            continue
        else:
            inner = loops and not isinstance(s, (ast.For, ast.While))
            for field in ('body', 'orelse', 'finalbody'):
                yield from leaves(getattr(s, field, []), inner)
            for h in getattr(s, 'handlers', []):
                yield from leaves(h.body, inner)


def finally_returns(A):
    for m in C09_MODULES:
        if m not in A.modules:
            continue
        for n in ast.walk(A.modules[m].tree):
            if isinstance(n, ast.Try):
                for x in leaves(n.finalbody):
                    yield m, x


def reraises(body):
    """The handler always ends by raising the same exception again."""
    return bool(body) and isinstance(body[-1], ast.Raise) and \
        body[-1].exc is None and not any(
            isinstance(n, (ast.Return, ast.Break, ast.Continue))
            for s in body for n in ast.walk(s))


class Signals(Probes):
    """Which handler catches what, in a recognizer given a valid graph."""

    def __init__(self, A, entry):
        Probes.__init__(self, A, entry)
        if entry[1] != 'is_undirected' and entry[3] == 'valid':
            A.hooks[UNDIRECTED] = lambda A, f, env, node: TRUE
        elif entry[3] != 'valid':
            A.hooks[entry[3]] = lambda A, f, env, node: FALSE
        A.on_try = self.on_try
        A.record_exc = self.record
        self.handlers = {}
        self.hits = {}
        self.value = EMPTY

    def on_try(self, h, tv):
        A = self.A
        types = EMPTY
        for t in tv or ():
            if type(t) is Obj and t.kind == 'tuple':
                types |= A.field(t, '*')
            else:
                types |= V(t)
        if tv is None:
            types = V(ext('BaseException'))
        self.handlers[h] = (A.act.scope.where, self.handlers.get(
            h, (0, EMPTY))[1] | types)

    def record(self, A, h, hit):
        self.hits[h] = self.hits.get(h, EMPTY) | frozenset(hit)

    def after(self, A, c, r, name):
        self.value = self.value | r

    def done(self, A, c):
        out = []
        for h, (where, types) in self.handlers.items():
            explicit = set()
            impl = set()
            for x in self.hits.get(h, ()):
                if type(x) is Obj:
                    k = x.info if x.kind == 'inst' else x
                    if x.kind == 'ext' and x.info == 'implicit':
                        impl.add(x.site)
                    else:
                        explicit.add(k)
            bad = []
            for t in types:
                if type(t) is not Obj or t.kind not in ('ext', 'class'):
                    continue
                if t.kind == 'class':
                    if explicit and any(t in A.class_bases(k)
                                        for k in explicit):
                        continue
                    if not explicit:
                        continue        # never raised: catches nothing
                elif t in explicit:
                    continue
                elif t.site in impl and t.site in ('StopIteration',
                                                   'AttributeError'):
                    continue
                bad.append(t.label() if t.kind == 'class' else t.site)
            if bad and not (isinstance(h, ast.ExceptHandler)
                            and reraises(h.body)):
                out.append((where, getattr(h, 'lineno', 0), sorted(bad),
                            sorted(names_of(explicit))))
        vals = set()
        for x in self.value:
            if type(x) is tuple and x[0] == 'c':
                vals.add(repr(x[2]))
            elif type(x) is tuple and x[0] == 'p':
                vals.add(x[1])
            else:
                vals.add('other')
        raised = [x for x in A.escaped if not (
            type(x) is Obj and x.kind == 'ext' and (
                x.info == 'implicit' or x.site in ('AssertionError',)))
            and not (type(x) is Obj and x.kind == 'arg')]
        return {'handlers': sorted(out), 'values': sorted(vals),
                'raised': sorted(names_of(raised) - (
                    C09_INTERNAL - own_signals(A))),
                'tries': len(self.handlers)}


def c09(x, entry):
    ex = x['extra']
    for where, line, bad, explicit in ex['handlers']:
        yield (('swallows', where, 'except ' + ', '.join(bad), 'the handler '
                'also catches %s, which is not the signal raised by the '
                'guarded test (%s); through %s' % (
                    ', '.join(bad), ', '.join(explicit) or 'nothing', entry)),
               {'line': line})
    if ex['raised']:
        yield (('signal escapes', entry, ', '.join(ex['raised']),
                'can raise %s for %s instead of answering'
                % (', '.join(ex['raised']), 'a valid graph'
                   if x['variant'] == 'valid' else 'an input that fails '
                   + x['variant'].split(':')[1])), {})
    vals = set(ex['values'])
    if entry in C09_OPEN:
        return
    if vals - {'True', 'False', 'bool'}:
        yield (('answer', entry, 'value', 'can answer something other than '
                'True or False: %s' % ', '.join(sorted(vals))), {})
    elif 'bool' not in vals and x['variant'] == 'valid':
        for w in ('True', 'False'):
            if w not in vals:
                yield (('answer', entry, w, 'can never answer ' + w), {})


def check_c09(tier):
    rep = Report()
    variants = [(m, n, 'func', 'valid') for m, n in C09_RECOGNIZERS]
    variants += [(m, n, 'func', p) for m, n, k, p, doc in C08_CASES
                 if doc is False]
    r = engine.run_all(setup=Signals, variants=variants)
    rep.undecided(r['undecided'])
    for x in r['results']:
        rep.count('recognizers analysed')
        rep.count('exception handlers inspected', x['extra']['tries'])
        for f in c09(x, x['entry']):
            rep.add(*f[0], **f[1])
    for m, x in finally_returns(r['A']):
        rep.add('swallows', m, 'finally', 'leaving a finally block with '
                '%s drops whatever exception is on its way'
                % type(x).__name__.lower(), line=x.lineno)
    rep.need('recognizers analysed', 12)
    rep.need('exception handlers inspected', 6)
    ex = engine.run_examples(EXAMPLES, Signals, 'c09', 'valid')
    n = 0
    for x in ex['results']:
        n += 1
        found = list(c09(x, x['entry']))
        if ('bad' in x['entry']) != bool(found):
            raise AnalysisError('example %s: %s' % (x['entry'], found))
    rep.count('rule examples checked', n)
    rep.need('rule examples checked', 4)
    rep.samples = [x['entry'] for x in r['results']][:12]
    rep.explanation = (
        'Every handler entered while a recognizer runs is matched against '
        'the exceptions explicitly raised inside it; with a valid graph no '
        'raised signal may reach the caller, and both answers must be '
        'possible.')
    return rep
