"""C01-C07 and C10: read off the events of the abstract interpreter."""
import ast
import os

import engine
import probes
import entries
from report import Report
from scopes import AnalysisError

HERE = os.path.dirname(os.path.abspath(__file__))
EXAMPLES = os.path.join(HERE, 'examples')


def text_of(ev):
    return ev['detail']


def trace_of(ev):
    return ev['chain']


_cache = {}


def tree(thorough=False):
    """The analysis of the package (shared by the rules of one run)."""
    if 'tree' not in _cache:
        _cache['tree'] = engine.run_all(setup=probes.Probes)
    return _cache['tree']


def examples():
    """The analysis of the positive and negative examples."""
    if 'ex' not in _cache:
        _cache['ex'] = engine.run_examples(EXAMPLES, probes.Probes)
    return _cache['ex']


def rule_check(rep, rule, title):
    """Run a rule on the package and on the examples.  rule(result, entry
    name) -> list of Finding arguments."""
    r = tree()
    rep.count('public operations analysed', r['entries'])
    rep.undecided(r['undecided'])
    rep.count('statements in the package', r['statements'])
    rep.count('statements analysed', r['analysed'])
    if r['analysed'] < 0.9 * r['statements']:
        raise AnalysisError('only %d of %d statements were analysed' % (
            r['analysed'], r['statements']))
    for x in r['results']:
        for f in rule(x, x['entry']):
            rep.add(*f[0], **f[1])
    for e in r['base_events']:
        for f in rule({'events': [e], 'extra': None}, '<module>'):
            rep.add(*f[0], **f[1])
    ex = examples()
    n = 0
    tag = title.lower()
    for x in ex['results']:
        name = x['entry'].split('.')[1].lower()
        if not name.startswith(tag):
            continue
        n += 1
        found = list(rule(x, x['entry']))
        if 'bad' in name and not found:
            raise AnalysisError('the rule no longer recognises its positive '
                                'example ' + x['entry'])
        if 'good' in name and found:
            raise AnalysisError('the rule flags its negative example %s: %s'
                                % (x['entry'], found[0]))
    rep.count('rule examples checked', n)
    rep.need('rule examples checked', 2)
    return r


def finding(rule, e, message, trace=None):
    return ((rule, e['where'], e['construct'], message),
            {'line': e['line'], 'trace': trace or e['chain']})


# ------------------------------------------------------------------- C01

# Operations whose purpose is to change an argument: (entry, parameter)
C01_DOCUMENTED = {
    # D is an automaton, whose reverse() builds a new one
    ('automata._MinimumDFA', '__init__.D'),
    ('partition_refinement.PartitionRefinement', 'add.theset'),
    ('read_undirected_graph.vertex', 'G'),
    ('read_undirected_graph.edge', 'G'),
    ('circle_pack.place', 'placements'),
    ('sudoku.createimplication', 'T'),
    ('sudoku.pseudonishio', 'T'),
    ('sudoku.searchPlacements', 'census'),
}


def c01(x, entry):
    for e in x['events']:
        if e['rule'] != 'argmut':
            continue
        root = e['obj']['root']
        if (entry, root) in C01_DOCUMENTED:
            continue
        if '.' in root and root.split('.')[0] == '__self__':
            continue
        yield finding('argument modified', e, 'modifies the caller\'s %s '
                      '(through %s)' % (e['detail'], entry))
    if x.get('extra'):
        for where, con, label, line, root in x['extra']['augs']:
            if (entry, root) in C01_DOCUMENTED:
                continue
            yield (('argument modified', where, con, 'in-place operator on '
                    'the caller\'s %s (through %s)' % (label, entry)),
                   {'line': line})


def check_c01(tier):
    rep = Report()
    r = rule_check(rep, c01, 'c01')
    rep.count('mutation sites inspected', len({tuple(m) for x in r['results']
                                               for m in
                                               x['extra']['mutations']}))
    rep.need('mutation sites inspected', 100)
    rep.explanation = (
        'Abstract interpretation of every public operation on unknown '
        'arguments; each write to a container or attribute is attributed to '
        'the allocation site or caller-owned access path it reaches.')
    rep.samples = sorted({'%s: %s' % (m[0], m[1]) for x in r['results']
                          for m in x['extra']['mutations']})[:10]
    rep.assumptions = ['a value obtained by calling a caller-supplied '
                       'callback is not part of an argument']
    return rep


# ------------------------------------------------------------------- C02

C02_VIEWS = {
    ('automata.LookupNFA', '__init__.alphabet'),
    ('automata.LookupNFA', '__init__.ttable'),
    ('automata._MinimumDFA', '__init__.D'),
    ('automata.RegularLanguage', '__init__.arg'),
    ('automata.RegExp', '__init__.expr'),             # text
    ('bipartite_matching.imperfections', 'graph'),
    ('medium.ExplicitMedium', '__init__.M'),
    ('partition_refinement.PartitionRefinement', 'add.theset'),
    ('read_undirected_graph.readUndirectedGraph', 'arg'),   # text
    ('strong_connectivity.StronglyConnectedComponents', '__init__.G'),
}


def c02(x, entry):
    if not x.get('extra'):
        return
    for op, label, trace in x['extra']['shared']:
        root = label
        while root and (entry, root) not in C02_VIEWS:
            root = root.rpartition('.')[0]
        if root:
            continue
        yield (('shared storage', entry, '%s holds %s' % (op, label),
                'the result (at %s) is or contains the caller\'s own '
                'container %s' % (trace or 'top level', label)), {})


def check_c02(tier):
    rep = Report()
    r = rule_check(rep, c02, 'c02')
    rep.count('results inspected', sum(x['extra']['nresults']
                                       for x in r['results']))
    rep.need('results inspected', 150)
    rep.explanation = (
        'The abstract heap reachable from every returned value, constructed '
        'object and yielded item is searched for caller-owned containers.')
    rep.samples = [x['entry'] for x in r['results']][:10]
    rep.assumptions = ['keys and vertices are hashable, hence not mutable '
                       'storage']
    return rep


# ------------------------------------------------------------------- C03

C03_BUFFERS = ('permutations.', 'integer_partitions.',
               'lyndon.LengthLimitedLyndonWords',
               'lyndon.LyndonWordsWithLength', 'lyndon.LyndonWords',
               'cubic_ham.hamiltonian_cycles')
# Recursion merges the grid of a branch (handed out) with the grid of its
# parent (changed later); `yield grid` is the last thing a branch does.
C03_MERGED = {
    ('sudoku.all_solutions', 'rules_used'),
    ('sudoku.all_solutions', 'locations'),
}


def c03(x, entry):
    if entry.startswith(C03_BUFFERS):
        return
    for e in x['events']:
        if e['rule'] != 'givenmut':
            continue
        if any(entry == a and b in e['construct'] for a, b in C03_MERGED):
            continue
        yield finding('handed-out item modified', e, '%s changes an object '
                      'already produced by %s' % (e['detail'], entry))


def check_c03(tier):
    rep = Report()
    r = rule_check(rep, c03, 'c03')
    gens = {y for x in r['results'] for y in x['extra']['yields']}
    rep.count('streams followed', len({x['entry'] for x in r['results']
                                       if x['extra']['yields']}))
    rep.need('streams followed', 25)
    rep.explanation = (
        'Every object reachable from an item a generator hands to its '
        'caller changes identity in the abstract heap; any later write to '
        'such an identity is a finding.')
    rep.samples = sorted(x['entry'] for x in r['results']
                         if x['extra']['yields'])[:10]
    return rep


# ------------------------------------------------------------------- C04

C04_MODULES = {
    '_not', 'acyclic_reachability', 'bfs', 'biconnectivity', 'bipartite',
    'bipartite_matching', 'bucketqueue', 'cardinality_matching', 'chordal',
    'circle_pack', 'cubic_ham', 'dfs', 'frequencyestimator',
    'graphdegeneracy', 'graphs', 'halin', 'lcs', 'lex_bfs', 'medium',
    'minimum_spanning_tree', 'ordered_sequence', 'partial_cube',
    'partial_order', 'partition_refinement', 'repetitivity', 'sequence',
    'strong_connectivity', 'two_satisfiability', 'union_find', 'util',
    'xyz_graph',
}
# numbers among the arguments: (entry, access path)
C04_NUMBERS = {
    ('bucketqueue.BucketQueue', '__setitem__.priority'),
    ('graphdegeneracy.core', 'k'),
    ('minimum_spanning_tree.MinimumSpanningTree', 'G.v.v'),
    ('circle_pack.circle_pack', 'external.v'),
    ('circle_pack.circle_pack', 'external.v.r'),
    ('circle_pack.InvertAround', 'packing.v.k'),
    ('circle_pack.InvertAround', 'packing.v.v'),
    ('circle_pack.InvertPacking', 'packing.v.k'),
    ('circle_pack.InvertPacking', 'packing.v.v'),
    ('circle_pack.NormalizePacking', 'packing.v.k'),
    ('circle_pack.NormalizePacking', 'packing.v.v'),
    ('circle_pack.testgrid', 'packing.v.k'),
    ('circle_pack.testgrid', 'packing.v.v'),
    ('circle_pack.testgrid', 'r'),
    ('circle_pack.testgrid', 'g'),
    ('circle_pack.testgrid', 'q'),
}


def c04(x, entry):
    if entry.split('.')[0] not in C04_MODULES | {'ex', '<module>'}:
        return
    for e in x['events']:
        if e['rule'] != 'order':
            continue
        for side in ('left', 'right'):
            for o in e[side]:
                if not isinstance(o, dict):
                    continue
                if o['kind'] == 'arg':
                    if 'r' in o['path'] or (entry, o['label']) in C04_NUMBERS:
                        continue
                    yield finding('items ordered', e, 'compares the '
                                  'caller\'s %s by order (through %s)' % (
                                      o['label'], entry))
                elif o['kind'] == 'unorderedinst':
                    yield finding('items ordered', e, 'compares instances of '
                                  '%s by order' % o['label'])


def check_c04(tier):
    rep = Report()
    r = rule_check(rep, c04, 'c04')
    n = {(e['where'], e['construct']) for x in r['results']
         for e in x['events'] if e['rule'] == 'order'
         and x['entry'].split('.')[0] in C04_MODULES}
    rep.count('order comparisons inspected', len(n))
    rep.need('order comparisons inspected', 20)
    rep.explanation = (
        'Every comparison, minimum, maximum, sort, bisection and heap '
        'operation is recorded with the abstract values it may compare '
        '(tuples flattened); none may be a caller-supplied item.')
    rep.samples = ['%s: %s' % k for k in sorted(n)[:10]]
    rep.assumptions = ['the access paths listed as numbers (priorities, '
                       'edge weights, radii) are numbers']
    return rep


# ------------------------------------------------------------------- C05

C05_MEMO = {        # numeric memo tables: value depends on the index only
    'eratosthenes.moebius_function_values', 'integer_heap.log2_table',
    'lca._logtable',
}
C05_EFFECTS = {     # entries whose purpose is output, input or randomness
    'sudoku.block_permutation', 'sudoku.permute1d', 'sudoku.permute',
    'sudoku.random_puzzle', 'sudoku.html_format', 'sudoku.text_format',
    'sudoku.numeric_format', 'sudoku.svg_format', 'sudoku.read_puzzle',
}
C05_BUILD = {'sudoku.searchPlacements'}     # fills the table at import


def c05(x, entry):
    if entry == '<module>':
        # the command line sections of sudoku run only when executed
        for e in x['events']:
            if e['rule'] in ('effect', 'memoized') and \
                    not e['where'].startswith('pads/sudoku.py'):
                yield finding('hidden effect', e, e['detail'] + ' at import')
        return
    for e in x['events']:
        if e['rule'] == 'globalmut':
            if entry in C05_BUILD:
                continue
            what = e['detail'].rpartition(' ')[0]
            if what in C05_MEMO:
                continue
            yield finding('hidden state', e, 'changes %s, which outlives the '
                          'call (through %s)' % (e['detail'], entry))
        elif e['rule'] == 'effect':
            if entry in C05_EFFECTS:
                continue
            if 'file=' in e['construct']:
                continue
            yield finding('hidden effect', e, '%s (through %s)' % (
                e['detail'], entry))
        elif e['rule'] == 'memoized':
            yield finding('hidden state', e, 'memoised across calls: '
                          + e['detail'])


def check_c05(tier):
    rep = Report()
    r = rule_check(rep, c05, 'c05')
    rep.count('long-lived objects tracked', len(r['A'].base))
    rep.count('mutation sites inspected', len({tuple(m) for x in r['results']
                                               for m in
                                               x['extra']['mutations']}))
    rep.need('mutation sites inspected', 100)
    rep.explanation = (
        'Objects created when modules are imported (globals, class '
        'attributes, default arguments, function attributes) form a base '
        'heap; any write that may reach one of them while a public operation '
        'runs, any use of stdio, randomness, clock or environment, and any '
        'memoising decorator is a finding.')
    rep.samples = sorted(str(v) for v in r['A'].global_names.values())[:10]
    return rep


# ------------------------------------------------------------------- C06

C06_MERGED = {
    # the matrix callback re-enters ConcaveMinima: the recursion merges the
    # candidate stack of one call with the row list of the other
    # (ConcaveMinima is also analysed as an operation of its own)
    ('wrap.wrap', 'pads/smawk.py'),
}


def c06(x, entry):
    for e in x['events']:
        if e['rule'] == 'resized' and \
                (entry, e['where'].split(':')[0]) not in C06_MERGED:
            yield finding('resized while iterated', e, 'the loop continues '
                          'after %s (%s) resized the container it iterates '
                          '(through %s)' % (e['detail'], e['how'], entry))


def check_c06(tier):
    rep = Report()
    r = rule_check(rep, c06, 'c06')
    loops = {tuple(l) for x in r['results'] for l in x['extra']['loops']}
    rep.count('loops inspected', len(loops))
    rep.need('loops inspected', 60)
    rep.explanation = (
        'While a loop over a container is open (in any activation, suspended '
        'generators included) a resizing write that may reach that container '
        'followed by the back edge of the loop is a finding.')
    rep.samples = ['%s: %s' % l for l in sorted(loops)[:10]]
    rep.assumptions = [
        'tables of neighbours are loop-free: T[x] and T[k] differ for x in '
        'T[k]', 'different tables do not share inner containers']
    return rep


# ------------------------------------------------------------------- C07

C07_MODULES = {
    'acyclic_reachability', 'bfs', 'biconnectivity', 'bipartite', 'chordal',
    'dfs', 'graphdegeneracy', 'graphs', 'lex_bfs', 'medium',
    'minimum_spanning_tree', 'partial_cube', 'partial_order',
    'partition_refinement', 'sequence', 'strong_connectivity',
    'two_satisfiability', 'union_find', 'util', '_not', 'bucketqueue',
    'sorted_set', 'ordered_sequence', 'lcs', 'frequencyestimator',
    'longest_increasing_subsequence', 'integerpoints', 'svg', 'halin',
    'xyz_graph', 'graph_examples', 'read_undirected_graph', 'ex',
}


def module_of(where):
    return os.path.basename(where.split(':')[0])[:-3]


def c07(x, entry):
    for e in x['events']:
        if e['rule'] == 'recursion' and module_of(e['where']) in C07_MODULES:
            yield finding('recursion', e, 'calls %s, which is already active '
                          '(through %s): depth grows with the input' % (
                              e['detail'], entry))


def check_c07(tier):
    rep = Report()
    r = rule_check(rep, c07, 'c07')
    calls = {tuple(c) for x in r['results'] for c in x['calls']}
    calls = {c for c in calls if module_of(c[1]) in C07_MODULES}
    rep.count('resolved call edges into the traversal modules', len(calls))
    rep.need('resolved call edges into the traversal modules', 100)
    rep.explanation = (
        'Calls, generator resumptions, operator methods and callbacks are '
        'resolved by the abstract interpreter; a function entered while it '
        'is already active is a recursion.')
    rep.samples = ['%s -> %s' % c for c in sorted(calls)[:10]]
    return rep


# ------------------------------------------------------------------- C10

C10_RULES = {
    'noname': 'name %s is defined nowhere',
    'badimport': '%s cannot be imported',
    'deadmodule': 'importing module %s always fails',
    'arity': '%s',
    'unbound': 'local variable %s is never assigned before this use',
    'noattr': 'attribute %s cannot exist',
    'notcallable': 'calls something that is not callable %s',
    'badraise': 'raises something that is not an exception %s',
    'unpack': 'cannot be unpacked %s',
    'badsubscript': 'cannot be subscripted %s',
    'badstore': 'cannot be assigned to %s',
}


def c10(x, entry):
    if entry in entries.ABSTRACT:
        skip = {'noattr', 'notcallable'}
    else:
        skip = ()
    for e in x['events']:
        if e['rule'] in C10_RULES and e['rule'] not in skip:
            yield finding('not executable', e, (C10_RULES[e['rule']]
                          % e['detail']) + ' (through %s)' % entry)


def check_c10(tier):
    rep = Report()
    r = rule_check(rep, c10, 'c10')
    calls = {tuple(c) for x in r['results'] for c in x['calls']}
    rep.count('resolved call edges', len(calls))
    rep.need('resolved call edges', 300)
    rep.explanation = (
        'Module bodies and all public operations are interpreted abstractly; '
        'a name, attribute, import, call or unassigned local that fails for '
        'every value reaching it is a finding.')
    rep.samples = ['%s -> %s' % c for c in sorted(calls)[:10]]
    return rep
