"""Regenerate /verif/properties.jsonl from the table below.

Run by hand when a property changes:  python3 tools/gen_properties.py
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism,
         observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=['pads/%s.py' % f for f in files],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe))))


prop('C01', 'Library calls never modify the arguments the caller passes in',
     'Calling any public function, constructor or method leaves every graph, '
     'sequence, set, mapping or automaton passed as an argument (and every '
     'container inside it) exactly as it was. The only exceptions are '
     'operations documented to change their argument: adding an element to a '
     'given block of a partition, the vertex/edge insertion helpers of the '
     'graph reader, circle placement, and the Sudoku solver rules, which '
     'work on the grid they are given.',
     ['inputs', 'histories'],
     'every public entry point, every argument, every execution path '
     '(including error paths and partially consumed generators)',
     'The tests compare outputs on small fixed inputs and almost never look '
     'at the input again after the call; a mutation that happens only on a '
     'rare branch is invisible to them.',
     ['graphs', 'dfs', 'bfs', 'biconnectivity', 'bipartite_matching',
      'cardinality_matching', 'cubic_ham', 'halin', 'partial_cube', 'medium',
      'automata', 'lca', 'two_satisfiability', 'partition_refinement'],
     [('copy_graph / comprehension copies before destructive algorithms',
       'pads/cubic_ham.py, pads/halin.py, pads/two_satisfiability.py'),
      ('list()/dict()/set() copies of parameters', 'throughout pads/')],
     ['caller-held argument objects after the call'])

prop('C02', 'Returned and constructed graphs share no storage with the inputs',
     'Graphs, matchings, orders, partitions and labelings returned by the '
     'library, and the data structures it constructs, hold no reference to a '
     "mutable container of the caller's input, so the caller may change the "
     'input or the result afterwards without affecting the other. Structures '
     'documented as views (strongly connected components during traversal, '
     'explicit automata over a caller-supplied table, media built on another '
     'medium, and the all-imperfect answer of the imperfections query) are '
     'exempt.',
     ['inputs', 'histories'],
     'every public entry point and every later modification of input or '
     'result by the caller',
     'Aliasing is only observable by modifying one object and re-reading the '
     'other, which no test does.',
     ['graphs', 'bipartite', 'biconnectivity', 'two_satisfiability',
      'partition_refinement', 'medium', 'sorted_set', 'lcs', 'lca',
      'partial_order', 'cardinality_matching', 'bipartite_matching'],
     [('fresh sets/dicts built per vertex', 'pads/graphs.py copy_graph, union, '
       'induced_subgraph')])

prop('C03', 'Items already produced by a stream are never changed afterwards',
     'An object handed out by a library generator (levels, edges, triangles, '
     'factorizations, solutions, paths) is never modified by the library '
     'after it was produced, so collecting a stream into a list gives the '
     'same items as consuming them one at a time. The only exceptions are the '
     'generators that document that they reuse one buffer: permutations, '
     'integer partitions, Lyndon words and Hamiltonian cycles.',
     ['inputs', 'histories'],
     'every generator, every prefix of its output, every consumption pattern',
     'Tests consume streams element by element or compare scalars; a later '
     'in-place update of an earlier item is not looked at.',
     ['bfs', 'eratosthenes', 'partial_order', 'graphdegeneracy', 'xyz_graph',
      'strong_connectivity', 'biconnectivity', 'lyndon', 'smawk'],
     [('fresh container per yielded item', 'pads/bfs.py, pads/partial_order.py')])

prop('C04', 'Vertices and items need only be hashable, never orderable',
     'Graph algorithms, matchings, union-find, partition refinement, linked '
     'sequences, bucket queues, media and 2-satisfiability accept arbitrary '
     'hashable vertices or items: no operation ever compares two caller '
     'supplied items with <, >, min, max or sorting. Only the structures '
     'whose subject is an ordering (sorted sets, range minima, increasing '
     'subsequences, Lyndon words, matrix minima) compare items.',
     ['inputs'],
     'all vertex/item types with equality and hash but no order, all graphs '
     'including ones with ties in weights and degrees',
     'The tests use integer and string vertices, which happen to be '
     'orderable, so a stray comparison never fails there.',
     ['union_find', 'minimum_spanning_tree', 'partial_cube', 'medium',
      'graphdegeneracy', 'bipartite_matching', 'cardinality_matching',
      'dfs', 'strong_connectivity', 'biconnectivity', 'chordal', 'lex_bfs'],
     [('key functions on weight/degree', 'pads/union_find.py, '
       'pads/minimum_spanning_tree.py, pads/partial_cube.py')])

prop('C05', 'Results depend only on the arguments: no hidden state or effects',
     'No library call leaves behind state that another call can observe: '
     'module-level and class-level data and default argument values are never '
     'modified (apart from the purely numeric memo tables), nothing is '
     'printed, read, written or drawn at random except through a stream or '
     'command-line entry point that the caller names. Two independent objects '
     'or calls therefore never influence each other.',
     ['histories', 'inputs'],
     'every sequence of library calls in one process',
     'Each test starts from fresh objects and looks at one call; leakage '
     'between calls needs a particular history.',
     ['sequence', 'sorted_set', 'halin', 'svg', 'eratosthenes',
      'integer_heap', 'lca', 'automata', 'graph_examples'],
     [('instance attributes assigned in __init__', 'all classes'),
      ('default arguments only read', 'pads/sequence.py, pads/halin.py, '
       'pads/svg.py')])

prop('C06', 'No dictionary or set changes size while it is being iterated',
     'On no execution path does the library add keys to, or remove keys '
     'from, a dictionary or set (or remove elements from a list) while a loop '
     'over that same container will continue.',
     ['inputs'],
     'every loop over a container, every path through its body including '
     'called helpers',
     'The interpreter raises only when the size actually changed at the '
     'moment of the next step, which depends on hash order and on inputs the '
     'tests do not use; lists silently skip elements.',
     ['cubic_ham', 'cardinality_matching', 'partition_refinement',
      'frequencyestimator', 'eratosthenes', 'bipartite_matching'],
     [('list(...) snapshots before mutating loops', 'pads/cubic_ham.py, '
       'pads/partition_refinement.py')])

prop('C07', 'Deep inputs never exhaust the call stack in graph traversals',
     'Graph traversal and everything built on it (search orders, strong and '
     'biconnected components, orientation, two-colouring, topological order, '
     'closure, reachability, 2-satisfiability, degeneracy, minimum spanning '
     'trees, union-find, chordality, media) runs in a call depth independent '
     'of the size of its input.',
     ['inputs'],
     'graphs and sequences of any size and depth',
     'The tests use graphs of a dozen vertices, far below the recursion '
     'limit.',
     ['dfs', 'bfs', 'strong_connectivity', 'biconnectivity', 'bipartite',
      'partial_order', 'acyclic_reachability', 'union_find', 'medium',
      'graphdegeneracy', 'minimum_spanning_tree', 'two_satisfiability'],
     [('explicit stack of iterators', 'pads/dfs.py search'),
      ('iterative path compression', 'pads/union_find.py')])

prop('C08', 'Invalid graphs are rejected before any result is produced',
     'Operations that require an undirected (or cubic, connected, symmetric '
     'weight, same-alphabet) input raise their documented error for an input '
     'that is not, and never return or yield a result for it; the undirected '
     'test itself accepts exactly the loop-free symmetric graphs.',
     ['inputs'],
     'all malformed inputs',
     'Only one or two malformed graphs are tried for a few of the functions.',
     ['graphs', 'biconnectivity', 'chordal', 'graphdegeneracy', 'halin',
      'minimum_spanning_tree', 'medium', 'partial_cube', 'cubic_ham',
      'xyz_graph', 'automata', 'partial_order', 'lca'],
     [('is_undirected guard', 'first statement of each operation')])

prop('C09', 'Recognizers answer True or False and hide no unrelated error',
     'Each yes/no recognizer (bipartite, biconnected, chordal, independent '
     'set, acyclic, partial cube, Halin) turns exactly the signal that its '
     'own test raises into False: that signal never escapes to the caller, '
     'and any other exception (for instance one raised by a malformed or '
     'user-defined graph object) is never swallowed.',
     ['inputs', 'fault_sequences'],
     'all inputs, including graph objects whose methods raise',
     'Tests only call recognizers on well-formed yes/no instances.',
     ['bipartite', 'biconnectivity', 'chordal', 'graphs', 'partial_cube',
      'permutations', 'read_undirected_graph', 'util'],
     [('try/except around the constructive algorithm',
       'is_bipartite, is_biconnected, is_chordal, is_independent_set, '
       'isPartialCube')])

prop('C10', 'Every operation is executable: no dangling name, attribute, arity',
     'Every module of the library can be imported on Python 3 and no '
     'reachable statement refers to a name, attribute, method or module that '
     'cannot exist there, uses a local variable that no path has assigned, or '
     'calls a function with an impossible number of arguments.',
     ['inputs', 'programs'],
     'every statement of every module reachable from the public API',
     'Whole modules (wrap, sudoku, svg, circle_pack, ordered_sequence, smawk, '
     'read_undirected_graph) are never imported or executed by the tests.',
     ['wrap', 'sudoku', 'svg', 'circle_pack', 'ordered_sequence', 'smawk',
      'read_undirected_graph', 'automata', 'biconnectivity'],
     [('definitions and imports agree with uses', 'all modules')])

prop('C11', 'Parsed graphs are simple and symmetric, or parsing fails',
     'No graph returned by a reader of read_undirected_graph has a self-loop '
     'or mentions an undeclared vertex, and every edge is stored under both '
     'endpoints with the same label.  Declaring a vertex twice, an edge from '
     'a vertex to itself and an edge with an undeclared endpoint are rejected '
     'by vertex() and edge() with GraphFormatError; no reader swallows that '
     'error or goes around these functions.',
     ['inputs'],
     'all input texts in all supported formats',
     'The reader module has no tests at all.',
     ['read_undirected_graph'],
     [('vertex() and edge() guards', 'pads/read_undirected_graph.py')])

prop('C12', 'Undirected results list every edge under both endpoints',
     'A matching built by cardinality_matching, a component made by '
     'BiconnectedComponents, the table of OfflineLCA, the Hamiltonian cycle '
     'and the reduced graph of the D3 reductions, the graphs kept by '
     'hamiltonian_cycles and the graphs of graph_examples are symmetric: '
     'whenever one records v under u it records u under v with the same '
     'label.  Edges are recorded and removed in both directions, under the '
     'same conditions.',
     ['inputs'],
     'all inputs; every statement that records or removes an edge',
     'Symmetry tests exist for a few sample graphs only.',
     ['biconnectivity', 'cardinality_matching', 'cubic_ham', 'halin',
      'partial_cube', 'lca', 'graph_examples'],
     [('paired updates', 'add_match, alternate, _component, remove, '
       'force, contract, path, triangle')])

prop('C13', 'Linked sequences stay doubly linked under every operation',
     'After any history of append, insert and remove operations, successor '
     'and predecessor of a linked sequence are inverse bijections on exactly '
     'the items it contains, and the designated first item is one of them.',
     ['histories'],
     'all operation sequences, including removal of the first or only item',
     'Tests run one short script.',
     ['sequence', 'ordered_sequence'],
     [('paired _next/_prev updates', 'pads/sequence.py')])

prop('C14', 'Redundant indexes of a data structure stay in agreement',
     'Data structures that store the same fact twice keep the copies equal '
     'after every operation: a bucket queue\'s priorities and buckets, a '
     'partition\'s element map and block table, a sorted set\'s pending '
     'additions/removals and its membership, an ordered sequence\'s position '
     'tags and its items, an integer heap\'s summary and its clusters, union-find '
     'parents and weights.',
     ['histories'],
     'all sequences of operations on the structure',
     'Tests perform a few operations and look at one of the two copies.',
     ['bucketqueue', 'partition_refinement', 'sorted_set', 'ordered_sequence',
      'integer_heap', 'union_find'],
     [('paired updates inside one method', 'each class')])

prop('C15', 'Bit-vector operations touch exactly the addressed element',
     'Adding or removing an element of a BitVectorHeap sets or clears the '
     'bit of that element, and a BitvectorMedium token gives its own bit its '
     'value, whatever the other bits and the old one are. '
     'Reachability.reachable reads exactly the bit of the destination in the '
     'set of the source, which holds its own bit and the sets of its '
     'successors. Sudoku.place, unplace and choices clear or read exactly '
     'the addressed candidates.',
     ['inputs', 'histories'],
     'all element positions and all prior contents',
     'Tests use few positions; masks that also disturb other bits often go '
     'unnoticed.',
     ['integer_heap', 'medium', 'acyclic_reachability', 'sudoku'],
     [('1 << i masks', 'BitVectorHeap, BitvectorMedium, Reachability, Sudoku')])

prop('C16', 'Backtracking search restores its state exactly',
     'The Hamiltonian cycle search undoes, for every change it makes to its '
     'working graph, exactly that change, in reverse order, before exploring '
     'an alternative.',
     ['inputs', 'histories'],
     'all graphs and all search branches',
     'Only branches reached on the sample graphs are exercised.',
     ['cubic_ham'],
     [('undo closures pushed on an action stack', 'pads/cubic_ham.py')])

prop('C17', 'Sudoku grids change only through place and unplace',
     'Solver rules change the cells and candidate sets of a puzzle only '
     'through its placement and elimination operations, and candidate sets '
     'only ever shrink. Every change sets the progress flag and discards the '
     'cached pairs. A digit is placed only in an empty cell in which it is '
     'still a candidate.',
     ['inputs', 'histories'],
     'all puzzles and all rule sequences',
     'The Sudoku module has no tests.',
     ['sudoku'],
     [('place / unplace / mark_progress', 'pads/sudoku.py class Sudoku')])

prop('C18', 'Uniqueness and 2-SAT deductions run only when enabled',
     'The deductions that are valid only for puzzles with a unique solution '
     '(ambiguous rectangles, trapezoids) and the 2-satisfiability rule '
     'change a puzzle only when the corresponding option of that puzzle is '
     'set, and the options are off unless they are asked for.',
     ['inputs', 'configurations'],
     'all grids with the option off',
     'The Sudoku module has no tests.',
     ['sudoku'],
     [('assume_unique / twosat guards', 'rectangle, trapezoid, twosat')])

prop('C19', 'SVG output is well formed and coordinates go where they belong',
     'Drawing calls emit balanced elements whose attributes carry the '
     'corresponding coordinate of the corresponding argument (horizontal '
     'attributes from real parts, vertical ones from imaginary parts), to '
     'four decimals, and the given styles.',
     ['inputs'],
     'all drawing call sequences and coordinates',
     'The SVG module has no tests.',
     ['svg'],
     [('element()', 'pads/svg.py')])

prop('C20', 'Negation and token reversal are involutions compatible with equality',
     'Not(Not(x)) gives back x for every plain value x, two negations are '
     'equal exactly when what they negate is equal, and equal negations have '
     'equal hashes. Reversing a token of a BitvectorMedium or '
     'LabeledGraphMedium twice gives the token back. The symmetric form of '
     'an implication graph holds, besides the given implications, exactly '
     'their contrapositives.',
     ['inputs'],
     'all terms and tokens',
     'Only a few samples are tried.',
     ['_not', 'medium', 'two_satisfiability'],
     [('SymbolicNegation / Not', 'pads/_not.py'),
      ('reverse', 'pads/medium.py')])

prop('C21', 'Regular-language operators are the Boolean set operations',
     'Complement, union, intersection and symmetric difference of regular '
     'languages or automata accept exactly the words that the corresponding '
     'set operations give. The operators <=, >=, <, > and != are inclusion, '
     'strict inclusion and inequality, derived from those operations. '
     'Seeing a DFA as an NFA or an NFA as a DFA changes no accepted word.',
     ['inputs'],
     'all pairs of automata over a common alphabet and all words',
     'Tests check a few expressions.',
     ['automata'],
     [('product automaton and complement', 'pads/automata.py')])

prop('C22', 'A failed update leaves the data structure unchanged',
     'When an update operation of a data structure raises an error for its '
     'argument, the structure is exactly as it was before the call.',
     ['histories', 'fault_sequences'],
     'all error-raising updates at every point of a history',
     'Tests stop at the exception and do not look at the structure again.',
     ['bucketqueue', 'sequence', 'partition_refinement', 'integer_heap',
      'sorted_set', 'read_undirected_graph'],
     [('validate before update', 'each update method')])

prop('C23', 'False and missing-looking items are items like any other',
     'Vertices, items and elements supplied by the caller may be any hashable '
     'value, including 0, False, the empty string, the empty tuple and None: '
     'no operation takes the truth value of a caller supplied item or '
     'compares it with None. Parameters whose own meaning is a number, a '
     'flag or "not given" are not items.',
     ['inputs'],
     'all graphs, sequences, sets and queues holding false values or None',
     'The tests rarely use 0 and never None or empty strings as the item '
     'that decides a branch.',
     ['union_find', 'bipartite_matching', 'cardinality_matching', 'dfs',
      'sequence', 'bucketqueue', 'partition_refinement', 'partial_order',
      'strong_connectivity', 'biconnectivity', 'medium', 'lcs',
      'longest_increasing_subsequence', 'sorted_set'],
     [('membership tests and sentinels instead of truth values',
       'conditions on vertices and items')])

prop('C24', 'Graphs need only iteration, indexing, membership and size',
     'A graph argument may be any object that lists its vertices when '
     'iterated and gives a collection of neighbours as G[v], such as a dict '
     'of sets, of lists, of tuples or of dicts: graph algorithms use the '
     'graph only through iteration, G[v], "in" and len, and the neighbour '
     'collections only through iteration, "in" and len. They call no method '
     'of either, apply no set operator or comparison to them and, except '
     'where edges carry labels, do not index the neighbours.',
     ['inputs'],
     'all representations of graphs, all operations taking a graph',
     'The tests pass dicts of sets or dicts of lists, whichever the '
     'operation happens to support.',
     ['graphs', 'dfs', 'bfs', 'biconnectivity', 'bipartite',
      'bipartite_matching', 'cardinality_matching', 'chordal', 'cubic_ham',
      'graphdegeneracy', 'halin', 'lex_bfs', 'minimum_spanning_tree',
      'partial_cube', 'partial_order', 'strong_connectivity',
      'two_satisfiability', 'xyz_graph'],
     [('documented graph representation', 'module docstrings, G and G[v]')])

prop('C25', 'Iterable arguments are read in a single pass',
     'The sequences given to longest_common_subsequence, '
     'longest_increasing_subsequence, the constructors of Sequence, the '
     'ordered sequences, SortedSet, PartitionRefinement, BitvectorMedium, '
     'OfflineLCA (pairs) and Sudoku, to refine, SteinhausJohnsonTrotter, '
     'SVG.polygon, the graph file readers, and the words tested by automata '
     'and languages may be iterators or generators as well as lists. Each '
     'is read at most once from start to end, and never measured with len, '
     'indexed or searched with "in".',
     ['inputs'],
     'all iterables given to these operations, all paths through them',
     'The tests pass lists and strings, which can be read any number of '
     'times.',
     ['automata', 'lca', 'lcs', 'longest_increasing_subsequence', 'medium',
      'ordered_sequence', 'partition_refinement', 'permutations',
      'read_undirected_graph', 'sequence', 'sorted_set', 'sudoku', 'svg'],
     [('iterable parameters', 'docstrings of the operations listed')])

prop('C26', 'Questions leave a data structure unchanged',
     'Asking a data structure about its contents changes nothing in it: '
     'length, lookup, membership, iteration, minimum, predecessor, '
     'successor, comparison, printing and acceptance, of sequences, '
     'partitions, bucket queues, integer heaps, frequency estimators, range '
     'minima and ancestor structures, media, reachability and component '
     'structures, nonrepetitive graphs, automata, languages and Sudoku grids '
     'add, remove, replace or reorder no part of it, whether or not the '
     'question fails. Not covered are the operations that are documented to '
     'reorganise: lookup in UnionFind, iteration over BucketQueue, the '
     'sorted cache of SortedSet and the lazily computed '
     'OnlineConcaveMinima.',
     ['histories'],
     'all sequences of operations on one structure, all questions',
     'A test sees a change only if it asks again afterwards in a way that '
     'depends on it.',
     ['_not', 'acyclic_reachability', 'automata', 'biconnectivity',
      'bucketqueue', 'frequencyestimator', 'integer_heap', 'lca', 'medium',
      'ordered_sequence', 'partition_refinement', 'repetitivity', 'sequence',
      'sorted_set', 'strong_connectivity', 'sudoku', 'union_find'],
     [('query methods', 'the methods without documented effects')])
prop('C27', 'Integer algorithms are exact',
     'Outside circle packing, frequency estimation and drawing, no operation '
     'computes with floating point numbers: there is no true division, real '
     'constant, float(), square root, logarithm or fractional or negative '
     'power, so results are exact for integers of any size. The tags of '
     'ordered sequences are integers computed from integers only.',
     ['inputs'],
     'all integer inputs, of any size',
     'Below 2**53 rounding does not show; the tests use small numbers.',
     ['eratosthenes', 'integer_heap', 'integer_partitions', 'integerpoints',
      'lca', 'lyndon', 'ordered_sequence', 'permutations', 'smawk',
      'acyclic_reachability', 'graph_examples', 'read_undirected_graph'],
     [('integer arithmetic', 'use of //, >>, & and integer tables')])
prop('C28', 'Constant-time operations do not walk the structure',
     'The operations described as constant time, or as proportional to their '
     'argument, never go through the whole structure or one of its tables: '
     'the updates, neighbours and length of Sequence, cmp and remove of '
     'ordered sequences, lookup, add, remove, refine and length of '
     'PartitionRefinement, the updates, lookups and length of BucketQueue, '
     'updates and length of SortedSet, queries of Reachability, range minima '
     'and LCA, add, remove and min of FlatHeap, and the actions of media. '
     'They contain, also through helpers, no loop, copy, list search, list '
     'shift or eager built-in over the contents.',
     ['histories'],
     'all contents of the structures, all paths through these operations',
     'Results are the same; only the time taken differs, and tests use small '
     'structures.',
     ['sequence', 'ordered_sequence', 'partition_refinement', 'bucketqueue',
      'sorted_set', 'acyclic_reachability', 'lca', 'frequencyestimator',
      'integer_heap', 'medium', 'strong_connectivity'],
     [('documented running times', 'module and class docstrings')])

# ---- listed, not claimed -------------------------------------------------
prop('C29', "Errors of the caller's functions and iterables get through",
     'An error raised by a function the caller supplied (a key, comparison, '
     'measure, matrix or list type), or while an iterable argument is read, '
     'reaches the caller or is replaced by another error. No operation goes '
     'on, or returns a result, after such an error.',
     ['inputs', 'fault_sequences'],
     'every supplied function or iterable, failing at any call with any error',
     'Tests supply functions and iterables that do not fail.',
     ['sequence', 'sorted_set', 'wrap', 'smawk', 'partition_refinement',
      'union_find', 'ordered_sequence', 'lyndon', 'lca'],
     [('calls of supplied functions outside handlers', 'named modules')])
prop('C30', 'Size, iteration, membership and truth of containers agree',
     'The length, iteration, membership test, lookup and truth value of a '
     'container describe one collection: the length counts exactly what is '
     'kept, iteration goes through all of it and nothing else, membership and '
     'lookup consult it, lookup of something missing fails, and a container '
     'is true exactly when it is not empty. This holds for BucketQueue, '
     'PartitionRefinement, Sequence, SortedSet, UnionFind, the media, the '
     'component and range minimum structures, NonrepetitiveGraph, the keys of '
     'FrequencyEstimator, automata and the integer heaps.',
     ['inputs', 'histories'],
     'every history of operations and every contents, also false items, equal '
     'entries, single items and empty containers',
     'Tests ask few questions of few contents and rarely compare two answers.',
     ['bucketqueue', 'partition_refinement', 'sequence', 'sorted_set',
      'union_find', 'medium', 'strong_connectivity', 'biconnectivity',
      'frequencyestimator', 'repetitivity', 'lca', 'automata',
      'integer_heap'],
     [('protocol methods and the tables behind them', 'named modules')])
prop('C31', 'Enumerations hand items out one at a time and keep no record',
     'The enumerations of permutations and their changes, integer partitions, '
     'Lyndon words, primes, factored integers, Moebius values, practical '
     'numbers, integer points, Hamiltonian cycles, Sudoku solutions and xyz '
     'embeddings hand items out as they are found: none first runs an '
     'enumeration, its own or one it builds on, to its end. While running '
     'they keep no growing record of the items already handed out. The sieves '
     'behind primes and factored integers drop the entry of each number '
     'before going on to the next.',
     ['inputs', 'histories'],
     'every argument and every number of items taken, also from endless or '
     'exponentially long enumerations',
     'Tests run short enumerations to their end, where collecting first gives '
     'the same items.',
     ['permutations', 'integer_partitions', 'lyndon', 'eratosthenes',
      'integerpoints', 'cubic_ham', 'sudoku', 'xyz_graph'],
     [('generators built on generators', 'named modules')])
prop('C32', 'No argument is ignored and options are handed on',
     'Every argument of a function or method matters: its value can reach a '
     'result, an effect or a decision, directly or through an operation it is '
     'passed to for which it matters, and of a list of arguments all are '
     'looked at. Exceptions are the hooks of a searcher that do nothing, the '
     'path hooks of is_dual_3_tree, the triangle hooks of is_wheel and the '
     'item given to rebalance of SimpleOrderedSequence. An operation that '
     'hands an option of its own on to another operation or to itself '
     '(choice of rules, symmetry, hooks, list type, initial vertex or '
     'matching, styles, key, stream, explanation) does so at each such call.',
     ['inputs', 'configurations'],
     'every argument of 318 functions and methods, every value given for it',
     'Tests mostly leave options at their defaults.',
     ['automata', 'bipartite', 'cardinality_matching', 'circle_pack', 'dfs',
      'graphdegeneracy', 'graphs', 'halin', 'lca', 'ordered_sequence',
      'sequence', 'sorted_set', 'sudoku', 'svg', 'union_find', 'wrap'],
     [('parameters of public operations', 'all modules')])
prop('C33', 'Results and stored sequences can be read more than once',
     'An operation that does not stream its results never returns a generator, '
     'map, zip, filter, reversed or other iterator that is used up by reading, '
     'and the dictionaries and lists it builds hold no such iterators as '
     'entries, so a result can be read any number of times. Objects and '
     'modules keep no such iterator in a field that is read by looping. An '
     'iterator made inside an operation is not looped over or searched '
     'a second time, measured, indexed or tested for emptiness.',
     ['inputs', 'histories'],
     'every result of 194 functions and methods, every number of times it is '
     'read; every iterator bound to a name, field or entry in all functions',
     'Tests read each result once, where an iterator looks like a list.',
     ['automata', 'chordal', 'cubic_ham', 'graph_examples', 'graphs', 'lca',
      'lcs', 'medium', 'partial_order', 'sorted_set', 'sudoku', 'union_find',
      'wrap', 'xyz_graph'],
     [('results of operations that do not stream', 'all modules')])
prop('C34', 'Every way out of an operation gives its answer',
     'A function or method that answers with a value does so on every way out: '
     'none falls off its end, ends with an empty return, or passes on the '
     'nothing that a procedure such as sort, append or shuffle gives; '
     'exceptions are comparison of a language with something else, the minimum '
     'of an empty range, graph6 data that is not there, and Forced of an '
     'unsatisfiable instance, which answer None on purpose. The value of such '
     'a procedure is not used elsewhere either. No work is thrown away: a '
     'generator, map, filter, zip, reversed or sorted sequence is never made '
     'only to be dropped, and no method is named without being called.',
     ['inputs', 'programs'],
     'every way out of 282 functions and methods, every statement of all '
     'functions',
     'The ways without an answer are taken for degenerate inputs (empty, '
     'single, absent) that tests leave out.',
     ['automata', 'bipartite', 'chordal', 'graphs', 'lca',
      'longest_increasing_subsequence', 'medium', 'partial_cube',
      'partial_order', 'sequence', 'sudoku', 'wrap'],
     [('ends of functions and return statements', 'all modules')])
prop('C35', 'No loop goes round with nothing changed',
     'On every way through a while loop back to its test something is done '
     'that can make the next round go differently: a variable or field that '
     'the tests of the loop depend on gets a new value, data they look at are '
     'changed or something is called that can change them, or, in a loop '
     'meant to run for ever, an item is handed out. So no input (repeated, '
     'absent, isolated, empty or last items) makes an operation repeat one '
     'and the same round for ever.',
     ['inputs'],
     'every way through each of 96 while loops, whatever the data',
     'A round that changes nothing shows up as a hang for particular items '
     'only, and tests contain no such items.',
     ['automata', 'bipartite_matching', 'cardinality_matching', 'eratosthenes',
      'frequencyestimator', 'halin', 'integer_partitions', 'lca', 'lcs',
      'lex_bfs', 'longest_increasing_subsequence', 'lyndon', 'medium',
      'ordered_sequence', 'smawk', 'sudoku', 'union_find', 'wrap'],
     [('while loops', 'all modules')])
prop('C50', 'Matchings are maximum', 'The bipartite and general matching '
     'functions return matchings of maximum cardinality.', ['inputs'],
     'all graphs', 'Tests check a handful of graphs.',
     ['bipartite_matching', 'cardinality_matching'],
     [('augmenting paths', 'pads/bipartite_matching.py')])
prop('C51', 'Components, orders and ancestors are the mathematical ones',
     'Strongly connected and biconnected components, lowest common ancestors '
     'and range minima equal their mathematical definitions.', ['inputs'],
     'all graphs and sequences', 'Tests check samples.',
     ['strong_connectivity', 'biconnectivity', 'lca'],
     [('DFS low numbers', 'pads/strong_connectivity.py')])
prop('C52', 'Enumerations are complete and duplicate free',
     'Permutation, partition, Lyndon word, prime and lattice point generators '
     'produce every object of their class exactly once, in the documented '
     'order.', ['inputs'], 'all parameters', 'Tests check small parameters.',
     ['permutations', 'integer_partitions', 'lyndon', 'eratosthenes',
      'integerpoints'], [('generators', 'named modules')])
prop('C53', 'Minimization yields the smallest equivalent automaton',
     'The minimized automaton accepts the same language with the fewest '
     'states.', ['inputs'], 'all automata', 'Tests check samples.',
     ['automata'], [('partition refinement', 'pads/automata.py')])
prop('C54', 'Graph class recognizers accept exactly their class',
     'Partial cube, Halin, chordal and xyz-graph recognizers accept exactly '
     'the graphs of their class.', ['inputs'], 'all graphs',
     'Tests check samples.', ['partial_cube', 'halin', 'chordal', 'xyz_graph'],
     [('reductions', 'named modules')])
prop('C55', 'Sudoku solutions are sound and complete',
     'The solver never eliminates a candidate that belongs to a solution and '
     'backtracking reports every solution once.', ['inputs'], 'all puzzles',
     'No tests.', ['sudoku'], [('rules', 'pads/sudoku.py')])
prop('C56', 'Circle packings are tangent as prescribed',
     'Computed radii and centres realise the prescribed tangencies up to '
     'tolerance.', ['inputs'], 'all triangulations', 'No tests.',
     ['circle_pack'], [('relaxation', 'pads/circle_pack.py')])
prop('C57', 'Matrix minima and line breaks are optimal',
     'Monotone matrix minima are the true column minima and text is broken '
     'with minimum total penalty.', ['inputs'], 'all matrices and texts',
     'No tests.', ['smawk', 'wrap'], [('SMAWK', 'pads/smawk.py')])
prop('C58', 'Frequency estimates stay within the promised accuracy',
     'Estimated frequencies differ from the true ones by at most the '
     'configured accuracy.', ['histories'], 'all input streams', 'No tests.',
     ['frequencyestimator'], [('counters', 'pads/frequencyestimator.py')])

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
