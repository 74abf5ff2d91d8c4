"""The public operations of the package (frozen: a name that vanishes is an
error of the check, a name that appears is reached through its callers) with
their parameters, and the kinds of argument that replace "anything at all"."""
from domain import *            # noqa
from interp import Dead

ENTRIES = [
    ('_not', 'DoubleNegationError', 'class', {
    }),
    ('_not', 'SymbolicNegation', 'class', {
        '__init__': ('x',),
        'negate': (),
        '__repr__': (),
        '__eq__': ('other',),
        '__hash__': (),
    }),
    ('_not', 'Not', 'func', {
        '': ('x',),
    }),
    ('acyclic_reachability', 'Reachability', 'class', {
        '__init__': ('G',),
        'reachable': ('source', 'destination'),
    }),
    ('automata', 'LanguageError', 'class', {
    }),
    ('automata', 'RegExpError', 'class', {
    }),
    ('automata', 'language', 'func', {
        '': ('A',),
    }),
    ('automata', 'RegularLanguage', 'class', {
        '__init__': ('arg',),
        '__contains__': ('inputsequence',),
        '__eq__': ('other',),
        '__ne__': ('other',),
        '__le__': ('other',),
        '__ge__': ('other',),
        '__lt__': ('other',),
        '__gt__': ('other',),
        '__invert__': (),
        '__and__': ('other',),
        '__or__': ('other',),
        '__xor__': ('other',),
        '__bool__': (),
    }),
    ('automata', 'FiniteAutomaton', 'class', {
        '__len__': (),
        '__call__': ('symbols',),
        'language': (),
        'states': (),
        'pprint': ('output',),
        'minimize': (),
        'reverse': (),
        'renumber': ('offset',),
        'RegExp': (),
        'complement': (),
        'union': ('other',),
        'intersection': ('other',),
        'symmetricDifference': ('other',),
    }),
    ('automata', 'DFA', 'class', {
        'asDFA': (),
        'asNFA': (),
        '__call__': ('symbols',),
        '__eq__': ('other',),
        '__ne__': ('other',),
        '__len__': (),
        'language': (),
        'states': (),
        'pprint': ('output',),
        'minimize': (),
        'reverse': (),
        'renumber': ('offset',),
        'RegExp': (),
        'complement': (),
        'union': ('other',),
        'intersection': ('other',),
        'symmetricDifference': ('other',),
    }),
    ('automata', 'NFA', 'class', {
        'asNFA': (),
        'asDFA': (),
        'states': (),
        'pprint': ('output',),
        'RegExp': (),
        '__len__': (),
        '__call__': ('symbols',),
        'language': (),
        'minimize': (),
        'reverse': (),
        'renumber': ('offset',),
        'complement': (),
        'union': ('other',),
        'intersection': ('other',),
        'symmetricDifference': ('other',),
    }),
    ('automata', 'RegExp', 'class', {
        '__init__': ('expr',),
        'transition': ('state', 'c'),
        'isfinal': ('state',),
        'epsilon': (),
        'newstate': ('expect',),
        'base': (),
        'factor': (),
        'term': (),
        'expression': (),
        'asNFA': (),
        'asDFA': (),
        'states': (),
        'pprint': ('output',),
        'RegExp': (),
        '__len__': (),
        '__call__': ('symbols',),
        'language': (),
        'minimize': (),
        'reverse': (),
        'renumber': ('offset',),
        'complement': (),
        'union': ('other',),
        'intersection': ('other',),
        'symmetricDifference': ('other',),
    }),
    ('automata', 'LookupNFA', 'class', {
        '__init__': ('alphabet', 'initial', 'ttable', 'final'),
        'transition': ('state', 'symbol'),
        'isfinal': ('state',),
        'asNFA': (),
        'asDFA': (),
        'states': (),
        'pprint': ('output',),
        'RegExp': (),
        '__len__': (),
        '__call__': ('symbols',),
        'language': (),
        'minimize': (),
        'reverse': (),
        'renumber': ('offset',),
        'complement': (),
        'union': ('other',),
        'intersection': ('other',),
        'symmetricDifference': ('other',),
    }),
    ('bfs', 'breadth_first_levels', 'func', {
        '': ('G', 'root'),
    }),
    ('biconnectivity', 'BiconnectedComponents', 'class', {
        '__init__': ('G',),
        '__iter__': (),
        'preorder': ('parent', 'child'),
        'backedge': ('source', 'destination'),
        'postorder': ('parent', 'child'),
    }),
    ('biconnectivity', 'NotBiconnected', 'class', {
    }),
    ('biconnectivity', 'BiconnectivityTester', 'class', {
        '__init__': ('G',),
        'preorder': ('parent', 'child'),
        'backedge': ('source', 'destination'),
        'postorder': ('parent', 'child'),
    }),
    ('biconnectivity', 'is_biconnected', 'func', {
        '': ('G',),
    }),
    ('biconnectivity', 'STOrienter', 'class', {
        '__init__': ('G',),
        'preorder': ('parent', 'child'),
        'backedge': ('source', 'destination'),
        'postorder': ('parent', 'child'),
        'add_orientation': ('source', 'dest', 'anchor'),
    }),
    ('biconnectivity', 'st_orientation', 'func', {
        '': ('G',),
    }),
    ('bipartite', 'NonBipartite', 'class', {
    }),
    ('bipartite', 'two_color', 'func', {
        '': ('G',),
    }),
    ('bipartite', 'bipartition', 'func', {
        '': ('G',),
    }),
    ('bipartite', 'is_bipartite', 'func', {
        '': ('G',),
    }),
    ('bipartite', 'bipartite_orientation', 'func', {
        '': ('G', 'adjacency_list_type'),
    }),
    ('bipartite', 'odd_core', 'func', {
        '': ('G',),
    }),
    ('bipartite_matching', 'matching', 'func', {
        '': ('graph',),
    }),
    ('bipartite_matching', 'imperfections', 'func', {
        '': ('graph',),
    }),
    ('bucketqueue', 'BucketQueue', 'class', {
        '__init__': (),
        '__getitem__': ('item',),
        '__delitem__': ('item',),
        '__setitem__': ('item', 'priority'),
        '__iter__': (),
        'items': (),
        '__contains__': ('item',),
        '__len__': (),
    }),
    ('cardinality_matching', 'matching', 'func', {
        '': ('G', 'initial_matching'),
    }),
    ('cardinality_matching', 'greedy_matching', 'func', {
        '': ('G', 'initial_matching'),
    }),
    ('chordal', 'perfect_elimination_ordering', 'func', {
        '': ('G',),
    }),
    ('chordal', 'is_chordal', 'func', {
        '': ('G',),
    }),
    ('circle_pack', 'circle_pack', 'func', {
        '': ('internal', 'external'),
    }),
    ('circle_pack', 'InvertPacking', 'func', {
        '': ('packing', 'center'),
    }),
    ('circle_pack', 'NormalizePacking', 'func', {
        '': ('packing', 'k', 'target'),
    }),
    ('circle_pack', 'InvertAround', 'func', {
        '': ('packing', 'k', 'smallCircles'),
    }),
    ('circle_pack', 'acxyz', 'func', {
        '': ('x', 'y', 'z'),
    }),
    ('circle_pack', 'flower', 'func', {
        '': ('radius', 'center', 'cycle'),
    }),
    ('circle_pack', 'place', 'func', {
        '': ('placements', 'radii', 'internal', 'center'),
    }),
    ('circle_pack', 'testgrid', 'func', {
        '': ('packing', 'k', 'z', 'r', 'q', 'g'),
    }),
    ('cubic_ham', 'hamiltonian_cycles', 'func', {
        '': ('G',),
    }),
    ('dfs', 'search', 'func', {
        '': ('G', 'initial_vertex'),
    }),
    ('dfs', 'preorder', 'func', {
        '': ('G', 'initial_vertex'),
    }),
    ('dfs', 'postorder', 'func', {
        '': ('G', 'initial_vertex'),
    }),
    ('dfs', 'reachable', 'func', {
        '': ('G', 'v', 'w'),
    }),
    ('dfs', 'Searcher', 'class', {
        'preorder': ('parent', 'child'),
        'postorder': ('parent', 'child'),
        'backedge': ('source', 'destination'),
        '__init__': ('G',),
    }),
    ('eratosthenes', 'primes', 'func', {
        '': (),
    }),
    ('eratosthenes', 'factored_integers', 'func', {
        '': (),
    }),
    ('eratosthenes', 'moebius_sequence', 'func', {
        '': (),
    }),
    ('eratosthenes', 'moebius_function', 'func', {
        '': ('n',),
    }),
    ('eratosthenes', 'is_practical_factorization', 'func', {
        '': ('f',),
    }),
    ('eratosthenes', 'practical_numbers', 'func', {
        '': (),
    }),
    ('frequencyestimator', 'FrequencyEstimator', 'class', {
        '__init__': ('accuracy',),
        '__iadd__': ('key',),
        '__iter__': (),
        '__getitem__': ('key',),
    }),
    ('graph_examples', 'GeneralizedPetersenGraph', 'func', {
        '': ('n', 'k'),
    }),
    ('graph_examples', 'GeneralizedCoxeterGraph', 'func', {
        '': ('n', 'a', 'b'),
    }),
    ('graph_examples', 'CubeConnectedCycles', 'func', {
        '': ('n',),
    }),
    ('graph_examples', 'LCFNotation', 'func', {
        '': ('L', 'n'),
    }),
    ('graphdegeneracy', 'degeneracySequence', 'func', {
        '': ('G',),
    }),
    ('graphdegeneracy', 'degeneracy', 'func', {
        '': ('G',),
    }),
    ('graphdegeneracy', 'degeneracyOrientation', 'func', {
        '': ('G',),
    }),
    ('graphdegeneracy', 'core', 'func', {
        '': ('G', 'k'),
    }),
    ('graphdegeneracy', 'triangles', 'func', {
        '': ('G',),
    }),
    ('graphs', 'is_undirected', 'func', {
        '': ('G',),
    }),
    ('graphs', 'max_degree', 'func', {
        '': ('G',),
    }),
    ('graphs', 'min_degree', 'func', {
        '': ('G',),
    }),
    ('graphs', 'copy_graph', 'func', {
        '': ('G', 'adjacency_list_type'),
    }),
    ('graphs', 'induced_subgraph', 'func', {
        '': ('V', 'G', 'adjacency_list_type'),
    }),
    ('graphs', 'union', 'func', {
        '': (),
    }),
    ('graphs', 'is_independent_set', 'func', {
        '': ('V', 'G'),
    }),
    ('halin', 'is_K4', 'func', {
        '': ('G',),
    }),
    ('halin', 'is_D3_reducible', 'func', {
        '': ('G', 'triangleHooks', 'pathHooks', 'finalize'),
    }),
    ('halin', 'reconstruct_D3', 'func', {
        '': ('G', 'initialize', 'triangle', 'path', 'recognizer'),
    }),
    ('halin', 'is_outer_K4', 'func', {
        '': ('G', 'outer'),
    }),
    ('halin', 'is_halin', 'func', {
        '': ('G', 'triangleHooks', 'pathHooks', 'finalize'),
    }),
    ('halin', 'halin_leaf_vertices', 'func', {
        '': ('G',),
    }),
    ('halin', 'hamiltonian_cycle_D3', 'func', {
        '': ('G',),
    }),
    ('halin', 'is_dual_3_tree', 'func', {
        '': ('G', 'triangleHooks', 'pathHooks', 'finalize'),
    }),
    ('halin', 'is_wheel', 'func', {
        '': ('G', 'triangleHooks', 'pathHooks', 'finalize'),
    }),
    ('integer_heap', 'IntegerHeap', 'func', {
        '': ('i',),
    }),
    ('integer_heap', 'log2', 'func', {
        '': ('b',),
    }),
    ('integer_heap', 'BitVectorHeap', 'class', {
        '__init__': (),
        '__nonzero__': (),
        '__bool__': (),
        'add': ('x',),
        'remove': ('x',),
        'min': (),
    }),
    ('integer_heap', 'FlatHeap', 'class', {
        '__init__': ('i',),
        '__nonzero__': (),
        '__bool__': (),
        'min': (),
        'add': ('x',),
        'remove': ('x',),
    }),
    ('integer_heap', 'LinearHeap', 'class', {
        '__init__': (),
        '__nonzero__': (),
        '__bool__': (),
        'add': ('x',),
        'remove': ('x',),
        'min': (),
    }),
    ('integer_partitions', 'mckay', 'func', {
        '': ('n',),
    }),
    ('integer_partitions', 'revlex_partitions', 'func', {
        '': ('n',),
    }),
    ('integer_partitions', 'lex_partitions', 'func', {
        '': ('n',),
    }),
    ('integer_partitions', 'binary_partitions', 'func', {
        '': ('n',),
    }),
    ('integer_partitions', 'fixed_length_partitions', 'func', {
        '': ('n', 'L'),
    }),
    ('integer_partitions', 'conjugate', 'func', {
        '': ('p',),
    }),
    ('integerpoints', 'IntegerPointsByDistance', 'func', {
        '': (),
    }),
    ('lca', 'RangeMin', 'class', {
        '__init__': ('X',),
        '__getitem__': ('it',),
        '__len__': (),
    }),
    ('lca', 'RestrictedRangeMin', 'class', {
        '__init__': ('X',),
        '__len__': (),
        '__getitem__': ('it',),
    }),
    ('lca', 'PrecomputedRangeMin', 'class', {
        '__init__': ('X',),
        '__getitem__': ('it',),
        '__len__': (),
    }),
    ('lca', 'LogarithmicRangeMin', 'class', {
        '__init__': ('X',),
        '__getitem__': ('it',),
        '__len__': (),
    }),
    ('lca', 'LCA', 'class', {
        '__init__': ('parent', 'RangeMinFactory'),
        '__call__': (),
    }),
    ('lca', 'OfflineLCA', 'class', {
        '__init__': ('parent', 'pairs'),
        'traverse': ('node',),
    }),
    ('lca', 'PrefixMinima', 'func', {
        '': ('X', 'reversed'),
    }),
    ('lcs', 'longest_common_subsequence', 'func', {
        '': ('A', 'B'),
    }),
    ('lex_bfs', 'lex_bfs', 'func', {
        '': ('G',),
    }),
    ('longest_increasing_subsequence', 'longest_increasing_subsequence', 'func', {
        '': ('S',),
    }),
    ('lyndon', 'LengthLimitedLyndonWords', 'func', {
        '': ('s', 'n'),
    }),
    ('lyndon', 'LyndonWordsWithLength', 'func', {
        '': ('s', 'n'),
    }),
    ('lyndon', 'LyndonWords', 'func', {
        '': ('s',),
    }),
    ('lyndon', 'DeBruijnSequence', 'func', {
        '': ('s', 'n'),
    }),
    ('lyndon', 'CountLyndonWords', 'func', {
        '': ('s', 'n'),
    }),
    ('lyndon', 'ChenFoxLyndonBreakpoints', 'func', {
        '': ('s',),
    }),
    ('lyndon', 'ChenFoxLyndon', 'func', {
        '': ('s',),
    }),
    ('lyndon', 'SmallestSuffix', 'func', {
        '': ('s',),
    }),
    ('lyndon', 'SmallestRotation', 'func', {
        '': ('s',),
    }),
    ('lyndon', 'isLyndonWord', 'func', {
        '': ('s',),
    }),
    ('medium', 'MediumError', 'class', {
    }),
    ('medium', 'Medium', 'class', {
        '__iter__': (),
        '__len__': (),
        '__getitem__': ('S',),
        '__call__': ('S', 't'),
    }),
    ('medium', 'ExplicitMedium', 'class', {
        '__init__': ('M',),
        'states': (),
        'tokens': (),
        'reverse': ('t',),
        'action': ('S', 't'),
        '__len__': (),
        '__getitem__': ('S',),
        '__iter__': (),
        '__call__': ('S', 't'),
    }),
    ('medium', 'BitvectorMedium', 'class', {
        '__init__': ('states', 'L'),
        'states': (),
        'tokens': (),
        'reverse': ('t',),
        'action': ('S', 't'),
        '__iter__': (),
        '__len__': (),
        '__getitem__': ('S',),
        '__call__': ('S', 't'),
    }),
    ('medium', 'StateTransitionGraph', 'func', {
        '': ('M',),
    }),
    ('medium', 'LabeledGraphMedium', 'class', {
        '__init__': ('G',),
        'states': (),
        'tokens': (),
        'reverse': ('t',),
        'action': ('S', 't'),
        '__len__': (),
        '__iter__': (),
        '__getitem__': ('S',),
        '__call__': ('S', 't'),
    }),
    ('medium', 'RoutingTable', 'func', {
        '': ('M',),
    }),
    ('medium', 'HypercubeEmbedding', 'func', {
        '': ('M',),
    }),
    ('minimum_spanning_tree', 'MinimumSpanningTree', 'func', {
        '': ('G',),
    }),
    ('ordered_sequence', 'SimpleOrderedSequence', 'class', {
        '__init__': ('iterable', 'key'),
        'cmp': ('x', 'y'),
        'append': ('x',),
        'insertAfter': ('x', 'y'),
        'insertBefore': ('x', 'y'),
        'rebalance': ('x',),
        '__iter__': (),
        '__getitem__': ('i',),
        '__len__': (),
        '__repr__': (),
        'key': ('x',),
        'remove': ('x',),
        'predecessor': ('x',),
        'successor': ('x',),
    }),
    ('ordered_sequence', 'LogarithmicOrderedSequence', 'class', {
        'rebalance': ('x',),
        '__init__': ('iterable', 'key'),
        'cmp': ('x', 'y'),
        'append': ('x',),
        'insertAfter': ('x', 'y'),
        'insertBefore': ('x', 'y'),
        '__iter__': (),
        '__getitem__': ('i',),
        '__len__': (),
        '__repr__': (),
        'key': ('x',),
        'remove': ('x',),
        'predecessor': ('x',),
        'successor': ('x',),
    }),
    ('partial_cube', 'PartialCubeEdgeLabeling', 'func', {
        '': ('G',),
    }),
    ('partial_cube', 'MediumForPartialCube', 'func', {
        '': ('G',),
    }),
    ('partial_cube', 'PartialCubeLabeling', 'func', {
        '': ('G',),
    }),
    ('partial_cube', 'isPartialCube', 'func', {
        '': ('G',),
    }),
    ('partial_order', 'isTopologicalOrder', 'func', {
        '': ('G', 'L'),
    }),
    ('partial_order', 'TopologicalOrder', 'func', {
        '': ('G',),
    }),
    ('partial_order', 'isAcyclic', 'func', {
        '': ('G',),
    }),
    ('partial_order', 'TransitiveClosure', 'func', {
        '': ('G',),
    }),
    ('partial_order', 'TracePaths', 'func', {
        '': ('G',),
    }),
    ('partial_order', 'MinimumPathDecomposition', 'func', {
        '': ('G',),
    }),
    ('partial_order', 'MinimumChainDecomposition', 'func', {
        '': ('G',),
    }),
    ('partial_order', 'MaximumAntichain', 'func', {
        '': ('G',),
    }),
    ('partition_refinement', 'PartitionError', 'class', {
    }),
    ('partition_refinement', 'PartitionRefinement', 'class', {
        '__init__': ('items',),
        '__getitem__': ('element',),
        '__iter__': (),
        '__len__': (),
        'add': ('element', 'theset'),
        'remove': ('element',),
        'refine': ('S',),
        'freeze': (),
    }),
    ('permutations', 'PlainChanges', 'func', {
        '': ('n',),
    }),
    ('permutations', 'SteinhausJohnsonTrotter', 'func', {
        '': ('x',),
    }),
    ('permutations', 'DoublePlainChanges', 'func', {
        '': ('n',),
    }),
    ('permutations', 'DoubleSteinhausJohnsonTrotter', 'func', {
        '': ('n',),
    }),
    ('permutations', 'StirlingChanges', 'func', {
        '': ('n',),
    }),
    ('permutations', 'StirlingPermutations', 'func', {
        '': ('n',),
    }),
    ('permutations', 'InvolutionChanges', 'func', {
        '': ('n',),
    }),
    ('permutations', 'Involutions', 'func', {
        '': ('n',),
    }),
    ('read_undirected_graph', 'GraphFormatError', 'class', {
    }),
    ('read_undirected_graph', 'graphNum', 'func', {
        '': ('s',),
    }),
    ('read_undirected_graph', 'graph', 'func', {
        '': (),
    }),
    ('read_undirected_graph', 'vertex', 'func', {
        '': ('G', 'v'),
    }),
    ('read_undirected_graph', 'edge', 'func', {
        '': ('G', 'u', 'v', 'e'),
    }),
    ('read_undirected_graph', 'readMALF', 'func', {
        '': ('lines',),
    }),
    ('read_undirected_graph', 'readEdgeList', 'func', {
        '': ('lines',),
    }),
    ('read_undirected_graph', 'readNodeEdgeList', 'func', {
        '': ('lines',),
    }),
    ('read_undirected_graph', 'readGraphML', 'func', {
        '': ('lines',),
    }),
    ('read_undirected_graph', 'graph6data', 'func', {
        '': ('str',),
    }),
    ('read_undirected_graph', 'graph6n', 'func', {
        '': ('data',),
    }),
    ('read_undirected_graph', 'readGraph6', 'func', {
        '': ('str',),
    }),
    ('read_undirected_graph', 'readSparse6', 'func', {
        '': ('str',),
    }),
    ('read_undirected_graph', 'ledaLines', 'func', {
        '': ('lines',),
    }),
    ('read_undirected_graph', 'readLeda', 'func', {
        '': ('lines',),
    }),
    ('read_undirected_graph', 'readUndirectedGraph', 'func', {
        '': ('arg',),
    }),
    ('repetitivity', 'NonrepetitiveGraph', 'class', {
        '__init__': ('G',),
        '__getitem__': ('v',),
        '__contains__': ('v',),
        '__iter__': (),
        'cyclic': (),
        'reachable': ('v', 'L'),
        'shortest': ('v', 'L', 'w', 'LL'),
    }),
    ('sequence', 'SequenceError', 'class', {
    }),
    ('sequence', 'Sequence', 'class', {
        '__init__': ('iterable', 'key'),
        '__iter__': (),
        '__getitem__': ('i',),
        '__len__': (),
        '__repr__': (),
        'key': ('x',),
        'append': ('x',),
        'remove': ('x',),
        'insertAfter': ('x', 'y'),
        'insertBefore': ('x', 'y'),
        'predecessor': ('x',),
        'successor': ('x',),
    }),
    ('smawk', 'ConcaveMinima', 'func', {
        '': ('RowIndices', 'ColIndices', 'Matrix'),
    }),
    ('smawk', 'OnlineConcaveMinima', 'class', {
        '__init__': ('Matrix', 'initial'),
        '__iter__': (),
        'value': ('j',),
        'index': ('j',),
    }),
    ('sorted_set', 'SortedSet', 'class', {
        '__init__': ('iterable', 'comparison'),
        '__len__': (),
        'add': ('item',),
        'remove': ('item',),
        'update': ('item',),
        '__iter__': (),
    }),
    ('strong_connectivity', 'StronglyConnectedComponents', 'class', {
        '__init__': ('G',),
        '__iter__': (),
        '__len__': (),
        'preorder': ('parent', 'child'),
        'backedge': ('source', 'destination'),
        'postorder': ('parent', 'child'),
    }),
    ('strong_connectivity', 'Condensation', 'func', {
        '': ('G',),
    }),
    ('sudoku', 'BadSudoku', 'class', {
    }),
    ('sudoku', 'group', 'class', {
        '__init__': ('i', 'j', 'x', 'y', 'name'),
    }),
    ('sudoku', 'searchPlacements', 'func', {
        '': ('node', 'census'),
    }),
    ('sudoku', 'andlist', 'func', {
        '': ('list', 'conjunction'),
    }),
    ('sudoku', 'namecells', 'func', {
        '': ('mask', 'conjunction'),
    }),
    ('sudoku', 'pathname', 'func', {
        '': ('cells',),
    }),
    ('sudoku', 'plural', 'func', {
        '': ('howmany', 'objectname'),
    }),
    ('sudoku', 'Sudoku', 'class', {
        '__init__': ('initial_placements',),
        '__iter__': (),
        'mark_progress': (),
        'log': ('items', 'explanation'),
        'place': ('digit', 'cell', 'explanation'),
        'unplace': ('digit', 'mask', 'explanation', 'log'),
        'choices': ('cell',),
        'complete': (),
    }),
    ('sudoku', 'locate', 'func', {
        '': ('grid',),
    }),
    ('sudoku', 'eliminate', 'func', {
        '': ('grid',),
    }),
    ('sudoku', 'align', 'func', {
        '': ('grid',),
    }),
    ('sudoku', 'explain_pair', 'func', {
        '': ('grid', 'digs', 'locs'),
    }),
    ('sudoku', 'pair', 'func', {
        '': ('grid',),
    }),
    ('sudoku', 'triad', 'func', {
        '': ('grid',),
    }),
    ('sudoku', 'nishio', 'func', {
        '': ('grid',),
    }),
    ('sudoku', 'rectangles', 'func', {
        '': (),
    }),
    ('sudoku', 'rectangle', 'func', {
        '': ('grid',),
    }),
    ('sudoku', 'trapezoid', 'func', {
        '': ('grid',),
    }),
    ('sudoku', 'subproblem', 'func', {
        '': ('grid',),
    }),
    ('sudoku', 'bilocal', 'func', {
        '': ('grid',),
    }),
    ('sudoku', 'bivalue', 'func', {
        '': ('grid',),
    }),
    ('sudoku', 'repeat', 'func', {
        '': ('grid',),
    }),
    ('sudoku', 'path', 'func', {
        '': ('grid',),
    }),
    ('sudoku', 'explain_conflict_path', 'func', {
        '': ('grid', 'cell', 'd', 'why', 'reached', 'dd'),
    }),
    ('sudoku', 'explain_conflict', 'func', {
        '': ('grid', 'cell', 'd', 'why', 'reached', 'dd'),
    }),
    ('sudoku', 'explain_conflict_group', 'func', {
        '': ('grid', 'cell', 'd', 'why', 'g', 'dd'),
    }),
    ('sudoku', 'conflict', 'func', {
        '': ('grid',),
    }),
    ('sudoku', 'createimplication', 'func', {
        '': ('mask', 'pos', 'digit', 'T'),
    }),
    ('sudoku', 'pseudonishio', 'func', {
        '': ('g1', 'g2', 'grid', 'T'),
    }),
    ('sudoku', 'twosat', 'func', {
        '': ('grid',),
    }),
    ('sudoku', 'step', 'func', {
        '': ('grid', 'quick_and_dirty'),
    }),
    ('sudoku', 'block_permutation', 'func', {
        '': ('preserve_symmetry',),
    }),
    ('sudoku', 'permute1d', 'func', {
        '': ('preserve_symmetry',),
    }),
    ('sudoku', 'permute', 'func', {
        '': ('grid', 'preserve_symmetry'),
    }),
    ('sudoku', 'text_format', 'func', {
        '': ('grid',),
    }),
    ('sudoku', 'numeric_format', 'func', {
        '': ('grid',),
    }),
    ('sudoku', 'html_format', 'func', {
        '': ('grid',),
    }),
    ('sudoku', 'svg_format', 'func', {
        '': ('grid',),
    }),
    ('sudoku', 'all_solutions', 'func', {
        '': ('grid', 'fastrules'),
    }),
    ('sudoku', 'unisolvent', 'func', {
        '': ('grid',),
    }),
    ('sudoku', 'random_puzzle', 'func', {
        '': ('generate_symmetric',),
    }),
    ('sudoku', 'read_puzzle', 'func', {
        '': ('empty',),
    }),
    ('svg', 'SVG', 'class', {
        '__init__': ('bbox', 'stream', 'standalone', 'prefix', 'indentation'),
        'close': (),
        'element': ('e', 'delta', 'unspaced', 'style'),
        'group': ('style',),
        'ungroup': (),
        'circle': ('center', 'radius', 'style'),
        'rectangle': ('p', 'q', 'style'),
        'polygon': ('points', 'style'),
        'segment': ('p', 'q', 'style'),
        'arc': ('p', 'q', 'r', 'large', 'style'),
        'text': ('label', 'location', 'style'),
    }),
    ('svg', 'colors', 'class', {
    }),
    ('two_satisfiability', 'Symmetrize', 'func', {
        '': ('G',),
    }),
    ('two_satisfiability', 'Satisfiable', 'func', {
        '': ('G',),
    }),
    ('two_satisfiability', 'Forced', 'func', {
        '': ('G',),
    }),
    ('union_find', 'UnionFind', 'class', {
        '__init__': (),
        '__getitem__': ('object',),
        '__iter__': (),
        'union': (),
    }),
    ('util', 'arbitrary_item', 'func', {
        '': ('S',),
    }),
    ('util', 'map_to_constant', 'func', {
        '': ('constant',),
    }),
    ('wrap', 'wrap', 'func', {
        '': ('text', 'target', 'longlast', 'frenchspacing', 'measure', 'overpenalty', 'nlinepenalty', 'onewordpenalty', 'hyphenpenalty'),
    }),
    ('xyz_graph', 'CubicMatchPartitions', 'func', {
        '': ('G',),
    }),
    ('xyz_graph', 'groupByCycles', 'func', {
        '': ('G', 'i', 'j'),
    }),
    ('xyz_graph', 'isxyz', 'func', {
        '': ('points',),
    }),
    ('xyz_graph', 'xyzEmbeddings', 'func', {
        '': ('G',),
    }),
]


def sudoku_grid(c, p):
    """A puzzle: an instance of the package's own class, with every option
    the caller may set."""
    A = c.A
    m = A.base[A.module_objs['sudoku']]
    g = A.call_value(m['Sudoku'], [V(arg('puzzle'))], {}, c.node('Sudoku'))
    A.setvar('#grid', g)
    n = c.node('set options')
    A.set_attr(g, 'logstream', vjoin(V(arg('logstream')), FALSE), n)
    A.set_attr(g, 'assume_unique', BOOL, n)
    A.set_attr(g, 'twosat', BOOL, n)
    return A.env()['#grid']


def prepared_grid(c, p):
    """A puzzle on which the preparing rules have run."""
    A = c.A
    A.setvar('#grid', sudoku_grid(c, p))
    m = A.base[A.module_objs['sudoku']]
    for rule in ('pair', 'bilocal', 'bivalue'):
        before = A.st.copy()
        try:
            A.call_value(m[rule], [A.env()['#grid']], {}, c.node(rule))
        except Dead:            # the rule fails whatever the grid
            A.st = before
    return A.env()['#grid']


# (module, function or '*') -> {parameter: maker}
PARAMS = {
    ('sudoku', '*'): {'grid': sudoku_grid},
    ('sudoku', 'explain_conflict'): {'grid': prepared_grid},
    ('sudoku', 'explain_conflict_path'): {'grid': prepared_grid},
    ('sudoku', 'explain_conflict_group'): {'grid': prepared_grid},
    ('sudoku', 'conflict'): {'grid': prepared_grid},
    ('sudoku', 'repeat'): {'grid': prepared_grid},
    ('sudoku', 'path'): {'grid': prepared_grid},
}

# Callbacks that only the package's own search loop calls, while the
# constructor runs.
SKIP = {
    ('biconnectivity', 'BiconnectedComponents'),
    ('biconnectivity', 'STOrienter'),
    ('strong_connectivity', 'StronglyConnectedComponents'),
}
CALLBACKS = ('preorder', 'postorder', 'backedge', 'add_orientation')

# Base classes that leave operations to their subclasses.
ABSTRACT = {'automata.FiniteAutomaton', 'automata.DFA', 'automata.NFA',
            'medium.Medium'}

# Private classes analysed on their own while they exist.
OPTIONAL = [
    ('automata', n, 'class', {'__call__': ('symbols',), 'states': (),
                              'transition': ('state', 'symbol'),
                              'isfinal': ('state',)})
    for n in ('_ComplementDFA', '_ProductDFA', '_MinimumDFA', '_DFAfromNFA',
              '_NFAfromDFA')
]
