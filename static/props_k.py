"""C23 and C24: how the operations look at the items and the graphs they are
given, read off the events of the abstract interpreter."""
from props_a import C04_MODULES, finding, rule_check
from report import Report

# ------------------------------------------------------------------- C23

C23_MODULES = C04_MODULES | {'longest_increasing_subsequence', 'sorted_set'}
# arguments for which None or a false value has a meaning of its own, and
# numbers: (entry, access path)
C23_OPTIONS = {
    ('circle_pack.NormalizePacking', 'k'),          # None: no such circle
    ('circle_pack.InvertAround', 'k'),
    ('circle_pack.testgrid', 'k'),
    ('graphdegeneracy.core', 'k'),                  # None: the degeneracy
    ('medium.BitvectorMedium', 'action.t.k'),       # a bit
    ('medium.BitvectorMedium', 'reverse.t.k'),
    ('medium.BitvectorMedium', '__call__.t.k'),
    ('ordered_sequence.SimpleOrderedSequence', '__getitem__.i'),
    ('ordered_sequence.LogarithmicOrderedSequence', '__getitem__.i'),
    ('sequence.Sequence', '__getitem__.i'),         # a position
    ('sequence.Sequence', '__init__.key'),          # None: compare by ==
    ('ordered_sequence.SimpleOrderedSequence', '__init__.key'),
    ('ordered_sequence.LogarithmicOrderedSequence', '__init__.key'),
    ('sorted_set.SortedSet', '__init__.comparison'),
}


def c23(x, entry):
    if entry.split('.')[0] not in C23_MODULES | {'ex'}:
        return
    known = x.get('evidence', ())
    for e in x['events']:
        if e['rule'] != 'truth':
            continue
        for o in e['tested']:
            if not isinstance(o, dict) or o['kind'] != 'arg' or \
                    'r' in o['path'] or o['label'] in known or \
                    (entry, o['label']) in C23_OPTIONS:
                continue
            yield finding('item tested', e, 'takes the truth value of the '
                          'caller\'s %s, or compares it with None (through '
                          '%s)' % (o['label'], entry))


def check_c23(tier):
    rep = Report()
    r = rule_check(rep, c23, 'c23')
    n = {(e['where'], e['construct']) for x in r['results']
         for e in x['events'] if e['rule'] == 'truth'
         and x['entry'].split('.')[0] in C23_MODULES}
    rep.count('conditions inspected', len(n))
    rep.need('conditions inspected', 100)
    rep.explanation = (
        'Every condition, boolean operator, comparison with None, any(), '
        'all() and filter(None) is recorded with the abstract values it may '
        'test; none may be an item supplied by the caller, that is an '
        'access path of an argument which no operation uses as a '
        'container.')
    rep.samples = ['%s: %s' % k for k in sorted(n)[:10]]
    rep.assumptions = ['the access paths listed as options are not items']
    return rep


# ------------------------------------------------------------------- C24

C24_GRAPHS = ('G', '__init__.G', 'graph', 'graphs.k')
C24_MODULES = {
    'acyclic_reachability', 'bfs', 'biconnectivity', 'bipartite',
    'bipartite_matching', 'cardinality_matching', 'chordal', 'cubic_ham',
    'dfs', 'graphdegeneracy', 'graphs', 'halin', 'lex_bfs', 'medium',
    'minimum_spanning_tree', 'partial_cube', 'partial_order', 'repetitivity',
    'strong_connectivity', 'two_satisfiability', 'xyz_graph',
}
# graphs whose adjacency tables carry labels: G[v][w]
C24_LABELLED = {
    'medium.LabeledGraphMedium', 'minimum_spanning_tree.MinimumSpanningTree',
    'repetitivity.NonrepetitiveGraph', 'xyz_graph.groupByCycles',
}
C24_GRAPH = {'iter', 'getitem', 'in', 'len'}
C24_NEIGHBOURS = {'iter', 'in', 'len'}


def graph_paths(entry, paths):
    """The access paths, among those used, of graphs and of neighbours."""
    for p in paths:
        if p in C24_GRAPHS:
            yield p, C24_GRAPH, 'graph'
        elif p.endswith('.v') and p[:-2] in C24_GRAPHS:
            ok = C24_NEIGHBOURS
            if entry in C24_LABELLED:
                ok = ok | {'getitem'}
            yield p, ok, 'neighbours'


def c24(x, entry):
    if entry.split('.')[0] not in C24_MODULES | {'ex'}:
        return
    for e in x['events']:
        if e['rule'] != 'use':
            continue
        labels = {o['label'] for o in e['used'] if isinstance(o, dict)}
        for p, ok, what in graph_paths(entry, sorted(labels)):
            if e['detail'] not in ok:
                yield finding('more than a graph', e, 'uses the %s %s '
                              'through %s (through %s)' % (
                                  what, p, e['detail'], entry))


def check_c24(tier):
    rep = Report()
    r = rule_check(rep, c24, 'c24')
    n = set()
    graphs = set()
    for x in r['results']:
        if x['entry'].split('.')[0] not in C24_MODULES:
            continue
        for e in x['events']:
            if e['rule'] == 'use':
                labels = {o['label'] for o in e['used']
                          if isinstance(o, dict)}
                for p, _, what in graph_paths(x['entry'], labels):
                    n.add((e['where'], e['construct'], e['detail']))
                    if what == 'graph':
                        graphs.add((x['entry'], p))
    rep.count('graph arguments followed', len(graphs))
    rep.count('uses of graphs inspected', len(n))
    rep.need('graph arguments followed', 40)
    rep.need('uses of graphs inspected', 60)
    rep.explanation = (
        'Every operation applied to a graph argument or to the collection of '
        'neighbours of a vertex (access paths G and G[v], through helpers, '
        'aliases and constructors) is recorded; only iteration, indexing by '
        'a vertex, membership and size are allowed.')
    rep.samples = ['%s: %s (%s)' % k for k in sorted(n)[:10]]
    rep.assumptions = ['graphs with labelled edges are mappings of mappings']
    return rep
