# -*- coding: utf-8 -*-
META = [
 dict(id='P01', title='Python sorts put exactly the given values of the range in order',
  statement='Every sorting routine with a Python backend leaves the requested range of the container ordered under the given comparator, holding exactly the values it held before (each empty slot included), and leaves everything outside the range untouched. It ends for every input, including empty ranges, all-equal values, empty slots, custom pivots and any number of worker threads. counting_sort returns a sorted copy and keeps its input.',
  over=['inputs', 'configurations', 'schedules'],
  quant='all contents, element types, ranges, comparators, pivot choices, thread counts, fixed and dynamic arrays',
  why='The tests sort a few random integer arrays with the default comparator; equal elements, holes, sub-ranges, pivots and thread counts are quantified over and hardly sampled.',
  files=['linear_data_structures/algorithms.py'],
  mech=[('sort implementations', 'pydatastructs/linear_data_structures/algorithms.py')],
  design='''Generated arrays of nine shapes and six value types go through every sort; a comparator wrapper records each
  (a, b) judgement so the monitor checks order under that comparator, multiset conservation by identity, the untouched
  outside of the range, dynamic array bookkeeping and a logical step budget (loop iterations of the package, counted with
  sys.monitoring) as termination oracle. Tests use one shape and default arguments.'''),
 dict(id='P02', title='Compiled sorts agree with sorting and are memory safe',
  statement='The sorts of the C++ and LLVM backends order the requested range under the comparator, conserve its values, leave the rest alone and return normally for every input the backend accepts, wherever the program was started. They never read or write outside the container.',
  over=['inputs', 'configurations'],
  quant='all contents and ranges for the compiled quick, bubble, selection and insertion sorts on fixed and dynamic arrays; LLVM kernels for every element type they accept',
  why='Tests run each compiled sort once or twice on a short list; pivots, empty arrays, sub-ranges, floats and memory errors are out of their reach.',
  files=['linear_data_structures/_backend/cpp', 'linear_data_structures/_backend/algorithms'],
  mech=[('C++ sorts', 'linear_data_structures/_backend/cpp/algorithms'), ('LLVM kernels', 'linear_data_structures/_backend/algorithms/llvm')],
  tech='runtime monitoring: model oracle plus AddressSanitizer/UBSan on the compiled backends',
  design='''Same oracles as P01 against the compiled backends, run twice: the ordinary build under a CPU-time limit
  (termination) and an ASan+UBSan build of the extension (memory). Workers start in an empty directory.'''),
 dict(id='P03', title='Searches, bounds and order tests answer for every array',
  statement='linear, binary and jump search return an index inside the range holding the key exactly when the range holds it, and None otherwise; lower_bound and upper_bound return the partition points of the ordered range under the comparator; is_ordered says true exactly when no neighbouring pair of the range is out of order. Cells without a value are passed over by the linear search and equal to no key. None of them changes the array.',
  quant='all arrays, ranges, keys (present, absent, below, above, duplicated), comparators and backends',
  why='Tests look up a handful of keys; block boundaries, sub-ranges, duplicates and reversed comparators are quantified over.',
  files=['linear_data_structures/algorithms.py', 'linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp'],
  mech=[('searches', 'linear_data_structures/algorithms.py')],
  design='''Each generated array is queried with every distinct key and its neighbours; results are judged by definition
  (membership, partition point), on both backends.'''),
 dict(id='P04', title='Subsequence and permutation routines are exact',
  statement='longest_common_subsequence and longest_increasing_subsequence return a subsequence of the required kind with the maximum possible length. next_permutation and prev_permutation step to the adjacent distinct arrangement of the range under the comparator and report whether there was one, so that a cycle visits every arrangement exactly once. All return new arrays of the input element type and keep their inputs.',
  quant='all arrays of integers, floats or strings, with repeats; all ranges and both comparators',
  why='Tests compare a few literal examples without repeats or non-integer types.',
  files=['linear_data_structures/algorithms.py'],
  mech=[('dynamic programming and permutation code', 'linear_data_structures/algorithms.py')],
  design='''Independent oracles: subsequence test plus optimal length (patience / quadratic DP), reference successor,
  next/prev inverse law and whole-cycle enumeration against itertools.'''),
 dict(id='P05', title='Parallel matrix multiplication equals the matrix product',
  statement='matrix_multiply_parallel returns the exact product for every pair of conformable matrices and every number of threads, and rejects matrices that do not conform.',
  over=['inputs', 'schedules'],
  quant='all shapes (square or not), integer values and thread counts',
  why='Tests multiply two square matrices once; shapes and thread counts are quantified over.',
  files=['linear_data_structures/algorithms.py'],
  mech=[('row/column tasks in a thread pool', 'linear_data_structures/algorithms.py')],
  design='''Random shapes and thread counts under a short interpreter switch interval; compared with the definition of
  the product.'''),
 dict(id='P06', title='Fixed and multi-dimensional arrays are faithful typed sequences',
  statement='A one-dimensional array of either backend and a multi-dimensional array return at every index the value last stored there (converted to the element type or None), accept exactly the indices of their shape and reject all others with IndexError, keep their length, and never share storage with the list they were made from. Rejected calls change nothing.',
  quant='all shapes, element types, contents, valid and invalid indices, assignment histories; both backends',
  why='Tests read a few cells; aliasing, negative and boundary indices, conversions and multi-dimensional addressing are quantified over.',
  files=['linear_data_structures/arrays.py', 'linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp'],
  mech=[('array classes', 'pydatastructs/linear_data_structures/arrays.py'), ('C++ array', 'linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp')],
  design='Random assignment histories against a list or dict model, every cell compared after every step; the C++ part again under ASan/UBSan.'),
 dict(id='P07', title='Dynamic arrays behave as sequences with holes that grow and compact safely',
  statement='DynamicOneDimensionalArray of both backends conserves the live elements and their order over every history of append, delete, fill and assignment to live cells; its length, count of live cells, last position and printed form agree with its cells; after compaction the live elements are packed; an element of another type is refused (or converted by the Python backend) without effect. ArrayForTrees additionally keeps all parent and child links of stored nodes pointing at the same nodes and reports the moves it made.',
  over=['inputs', 'histories'],
  quant='all histories of append, delete, fill and assignment to live cells, load factors and initial contents; both backends',
  why='Growth and compaction happen at particular counts of a history; tests run one or two short histories.',
  files=['linear_data_structures/arrays.py', 'linear_data_structures/_backend/cpp/arrays'],
  mech=[('_modify, append, delete', 'linear_data_structures/arrays.py'), ('C++ dynamic arrays', 'linear_data_structures/_backend/cpp/arrays')],
  design='Model of live elements in order; the invariants on _num, _last_pos_filled, size and print are checked after every step in four history shapes, with load factors from 0 to 0.9; C++ again under ASan/UBSan.'),
 dict(id='P08', title='Linked lists of all four kinds are faithful sequences',
  statement='Every history of insertions, extractions, searches and indexed access on singly and doubly, linear and circular linked lists gives the results of a plain sequence; links, ends, size and circularity are consistent after each step; bad positions are rejected without effect.',
  over=['inputs', 'histories'], quant='all operation histories, positions (negative ones too), keys and data',
  why='Link surgery goes wrong at ends and in one or two element lists reached through particular histories.',
  files=['linear_data_structures/linked_lists.py'], mech=[('four list classes', 'linear_data_structures/linked_lists.py')],
  design='List model; after every step the monitor walks the links both ways (bounded), and compares keys, data, head, tail, len and print.'),
 dict(id='P09', title='Skip lists hold exactly the inserted keys in order on every level',
  statement='A SkipList answers search, insert, extract and size like an ordered map for every history and every outcome of its random level choices, each level is a subsequence of the level below, and empty top levels are removed consistently.',
  over=['inputs', 'histories', 'configurations'], quant='all histories and coin flips', why='Level structure depends on random draws tests do not control.',
  files=['linear_data_structures/linked_lists.py'], mech=[('SkipList', 'linear_data_structures/linked_lists.py')],
  design='Ordered-map model; coin flips are steered (seeded, all heads, all tails, alternating); every level is walked after each step.'),
 dict(id='P10', title='Stacks are last-in first-out in every implementation',
  statement='Array, linked-list and C++ stacks return pushed values in reverse order, peek without removing, report emptiness, size and print consistently, and reject pop on an empty stack, for every history, element type and initial content. Elements come back as the very objects that went in; array stacks (C++ ones too) hold one element type, refusing others without effect, and one that was emptied may take another.',
  over=['inputs', 'histories'], quant='all histories over every implementation and backend',
  why='Growth, compaction and reuse after emptying are history dependent.',
  files=['miscellaneous_data_structures/stack.py', 'miscellaneous_data_structures/_backend/cpp/stack'],
  mech=[('stacks', 'miscellaneous_data_structures/stack.py'), ('C++ stack', 'miscellaneous_data_structures/_backend/cpp/stack')],
  design='List model in lock step, waves of growth and drain; C++ again under ASan/UBSan.'),
 dict(id='P11', title='Queues and deques keep first-in first-out order at both ends',
  statement='Array and linked-list queues deliver elements in order of arrival, double-ended queues at both ends, with consistent front, rear, size, iteration and print, and reject removal from an empty queue, for every history. Elements come back as the very objects that went in; array queues hold one element type, and one that was emptied may take another.',
  over=['inputs', 'histories'], quant='all histories over every implementation, plain and double-ended',
  why='The moving front index, compaction and re-filling are history dependent.',
  files=['miscellaneous_data_structures/queue.py'],
  mech=[('queues', 'miscellaneous_data_structures/queue.py')],
  design='Deque model in lock step with waves; front, rear, len and print judged after every step.'),
 dict(id='P12', title='Priority queues always deliver a best element and lose none',
  statement='PriorityQueue in its linked-list, binomial-heap and binary-heap implementations pops an element that no remaining element precedes under its comparator, conserves all pushed elements, announces by peek the element the next pop returns without removing it, and rejects pop when empty.',
  over=['inputs', 'histories'], quant='all push/pop histories, priorities with ties, comparators, implementations', why='Tie handling and heap states arise only in particular histories.',
  files=['miscellaneous_data_structures/queue.py', 'trees/heaps.py'], mech=[('priority queues', 'miscellaneous_data_structures/queue.py')],
  design='Multiset model with priorities; each pop is judged minimal under the comparator and present.'),
 dict(id='P13', title='D-ary heaps keep heap order and extract in priority order',
  statement='DHeap, BinaryHeap and TernaryHeap keep the heap property at every node after every operation, hold exactly the inserted elements, extract an extreme element each time, print the true children, and reject extraction when empty; for every arity, min or max order and starting content.',
  over=['inputs', 'histories'], quant='arity 1 to 9, all histories, key types, starting arrays', why='Sift paths depend on arity and shape; tests use arity 2, 3 and 4 on one history.',
  files=['trees/heaps.py'], mech=[('DHeap', 'trees/heaps.py')], design='Monitor re-reads the heap array after every operation and checks order, conservation and print.'),
 dict(id='P14', title='Binomial heaps and trees keep their shape and order',
  statement='BinomialHeap answers insert, find_minimum, delete_minimum, decrease_key, delete and merge like a multiset of keys; after every operation its trees are binomial trees of distinct orders, heap ordered, with right parent links and no lost node. Heaps made of given trees are heaps of their nodes, keys may be of any ordered type, and data stay with their keys. BinomialTree.add_sub_tree joins equal orders only.',
  over=['inputs', 'histories'], quant='all histories including merges of heaps', why='Carry chains in merges arise at particular sizes.',
  files=['trees/heaps.py', 'miscellaneous_data_structures/binomial_trees.py'], mech=[('BinomialHeap', 'trees/heaps.py'), ('BinomialTree', 'miscellaneous_data_structures/binomial_trees.py')],
  design='Multiset model; structural walk of all trees after every operation.'),
 dict(id='P15', title='Disjoint sets always equal the partition generated by the unions',
  statement='DisjointSetForest relates two keys exactly when unions connect them; one member of each set represents it, make_root makes a chosen member the representative, find_size and disjoint_sets give the sizes and members of that partition, repeated make_set changes nothing, and unknown keys raise KeyError.',
  over=['inputs', 'histories'], quant='all histories of make_set, union, find_root, find_size, make_root, disjoint_sets',
  why='Sizes and roots after rerooting depend on the whole tree shape built by earlier unions.',
  files=['miscellaneous_data_structures/disjoint_set.py'], mech=[('forest', 'miscellaneous_data_structures/disjoint_set.py')],
  design='Partition model, judged pairwise after every step and completely at random points.'),
 dict(id='P16', title='Multisets count every element and keep order bounds',
  statement='Multiset agrees with a counter after every history of add and remove (removing an absent element changes nothing): count, len, membership, lower_bound and upper_bound.',
  over=['inputs', 'histories'], quant='all histories and element types', why='The backing red black tree is reshaped by histories tests do not run.',
  files=['miscellaneous_data_structures/multiset.py', 'trees/binary_trees.py'], mech=[('Multiset', 'miscellaneous_data_structures/multiset.py'), ('RedBlackTree', 'trees/binary_trees.py')],
  design='Counter model in lock step; bounds judged by definition for present and absent probes after each step.'),
 dict(id='P17', title='Range queries equal the fold of the current range',
  statement='RangeQueryStatic, RangeQueryDynamic, SparseTable, ArraySegmentTree and BinaryIndexedTree (both backends) return for every valid range the left-to-right combination of the current values of the range, after any sequence of point updates; whatever values (numbers of any kind and size, text, tuples) the function combines; empty ranges raise ValueError, out-of-bounds ones IndexError, and rejected calls change nothing.',
  over=['inputs', 'histories'], quant='all arrays, ranges, associative functions (non-commutative ones too) and update histories',
  why='Tests use minimum and sum on a few ranges; block sizes, orders of combination and updates are quantified over.',
  files=['miscellaneous_data_structures/algorithms.py', 'miscellaneous_data_structures/sparse_table.py', 'miscellaneous_data_structures/segment_tree.py', 'trees/binary_trees.py', 'trees/_backend/cpp/BinaryIndexedTree.hpp'],
  mech=[('range queries', 'miscellaneous_data_structures/algorithms.py'), ('sparse table', 'miscellaneous_data_structures/sparse_table.py'), ('segment tree', 'miscellaneous_data_structures/segment_tree.py'), ('Fenwick tree', 'trees/binary_trees.py')],
  design='Fold oracle over all or many ranges with eight associative functions, three of them not commutative; C++ again under ASan/UBSan.'),
 dict(id='P18', title='Interval trees report exactly the segments containing a point',
  statement='OneDimensionalSegmentTree.query(x) returns exactly the given closed segments that contain x, once per given segment, for every set of segments (none, duplicates, points, nested, touching, infinite, integers and floats of any size) and every x; the given collection is not changed and malformed segments are rejected.',
  quant='all finite sets of segments, all query points', why='Errors sit at shared endpoints and between them.',
  files=['trees/space_partitioning_trees.py'], mech=[('OneDimensionalSegmentTree', 'trees/space_partitioning_trees.py')],
  design='Every endpoint, every midpoint between endpoints and points outside are queried and compared with the definition.'),
 dict(id='P19', title='Tries store exactly the inserted strings',
  statement='After any history of insert and delete, is_inserted, is_present and strings_with_prefix answer as the set of live strings does, delete reports whether the string was there, and no branch of a deleted string remains.',
  over=['inputs', 'histories'], quant='all strings (empty, unicode, prefixes of each other) and histories', why='Deleting prefixes and extensions of other strings is order dependent.',
  files=['strings/trie.py'], mech=[('Trie', 'strings/trie.py')], design='Set model; queries and a full walk of the nodes after every step.'),
 dict(id='P20', title='Every string search finds exactly the occurrences',
  statement='find returns, for kmp, rabin_karp, boyer_moore and z_function alike, the ascending array of exactly the positions where the query occurs in the text (overlaps included), and an empty array for an empty text or query.',
  quant='all texts and queries over any characters', why='Failure tables, shifts, hash collisions and separators matter only for special strings.',
  files=['strings/algorithms.py'], mech=[('search algorithms', 'strings/algorithms.py')],
  design='Naive oracle over random, periodic, Fibonacci, colliding and separator-bearing texts.'),
 dict(id='P21', title='Python search trees are ordered maps with consistent links',
  statement='BinarySearchTree, AVLTree, RedBlackTree, SplayTree, CartesianTree and Treap (Python backend) hold exactly the live keys with their latest data after every history of insert, delete and search under any comparator: in-order walk is sorted, parent and child links agree, root_idx names the root, no node is lost or left behind in the node array, and delete and search report presence correctly.',
  over=['inputs', 'histories', 'configurations'], quant='all histories, comparators, key types and node-array growth and compaction points',
  why='Corruption appears after deletions that compact the node array, or on reinsertion, rarely in the short histories of tests.',
  files=['trees/binary_trees.py', 'linear_data_structures/arrays.py'], mech=[('binary trees', 'trees/binary_trees.py'), ('ArrayForTrees', 'linear_data_structures/arrays.py')],
  design='Dict model; the monitor walks the whole node array after every operation (six classes, four comparators, growth/drain waves).'),
 dict(id='P22', title='Balanced trees keep their shape guarantees',
  statement='After every operation an AVLTree has recorded heights that are true and differ by at most one between siblings; a RedBlackTree has a black root, no red node with a red child and equal black heights; CartesianTree and Treap are heap ordered by priority; a SplayTree has the inserted or split key at its root, and join and split divide the keys exactly without corrupting either tree.',
  over=['inputs', 'histories', 'configurations'], quant='all histories, insertion and deletion orders, splits and joins',
  why='Each rotation or recolouring case needs a specific neighbourhood of the deleted or inserted node.',
  files=['trees/binary_trees.py'], mech=[('rotations and fix-ups', 'trees/binary_trees.py')],
  design='Shape invariants recomputed from the links after every operation of random, monotone, zigzag and drain histories; split/join histories on an ordered family of splay trees.'),
 dict(id='P23', title='Order statistics, bounds and common ancestors are exact',
  statement='In every search tree of the Python backend select(i), rank(x) (order-statistic trees), lower_bound, upper_bound and lowest_common_ancestor by both algorithms equal their definitions for the current keys, absent keys and out-of-range ranks are reported as documented, at any depth.',
  over=['inputs', 'histories'], quant='all trees reachable by histories, all ranks and keys', why='Subtree sizes must survive every rotation and deletion.',
  files=['trees/binary_trees.py'], mech=[('select, rank, bounds, lowest_common_ancestor', 'trees/binary_trees.py')],
  design='Definitions evaluated over the sorted model and over the actual parent links during random histories; sizes of all subtrees recomputed.'),
 dict(id='P24', title='Tree traversals visit each node once in the documented order',
  statement='Pre-, in-, post-, out-order and breadth-first traversals from any start node list exactly the nodes of that subtree in the order of their definition, and change nothing.',
  over=['inputs', 'histories'], quant='all trees reachable by histories, all start nodes', why='Node indices after deletions, joins and compaction differ from insertion order.',
  files=['trees/binary_trees.py'], mech=[('BinaryTreeTraversal', 'trees/binary_trees.py')],
  design='Recursive reference traversal of the same links compared by node identity, over all six tree classes.'),
 dict(id='P25', title='C++ trees are search trees with the guarantees of the Python ones',
  statement='The six binary tree classes of the C++ backend keep, after every history of insertions, re-insertions and deletions, exactly the keys and data put in, as a search tree under their comparator with consistent parent links and no stranded nodes; AVL, red-black, Cartesian and treap shapes hold; splaying, join, split, select, rank, bounds, lowest common ancestors and traversals are exact; errors of the comparator and of arguments reach the caller and leave the tree intact; trees hundreds of levels deep work like small ones; no memory error occurs.',
  over=['inputs', 'histories', 'configurations', 'fault_sequences'], quant='all histories, key types (also beyond the small-integer cache), comparators, sizes beyond 256 nodes',
  why='Keys and positions held by address behave only for small integers; ownership errors need deletions and compaction.',
  files=['trees/_backend/cpp', 'linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp', 'utils/_backend/cpp/TreeNode.hpp'],
  mech=[('C++ trees', 'trees/_backend/cpp/BinarySearchTree.hpp'), ('balancing', 'trees/_backend/cpp/AVLTree.hpp'), ('traversals', 'trees/_backend/cpp/BinaryTreeTraversal.hpp')],
  tech='runtime monitors on operation histories; AddressSanitizer and UBSan builds',
  design='The drivers and monitors of P21-P24 run against the C++ classes; a comparator that raises at a chosen call, also in the middle of join and split; the same workloads under ASan/UBSan. The constructor call BST(key, None) keeps the key in C++ and drops it in Python; neither is specified and it is not generated.'),
 dict(id='P26', title='C++ graph algorithms are exact and leave the graph alone',
  statement='breadth_first_search, minimum_spanning_tree (prim) and shortest_paths (dijkstra) of the C++ backend discover exactly the reachable vertices layer by layer, first in first out, ending when the operation returns a falsy value or raises; return a minimum spanning tree made of its own vertices; return shortest distances with predecessors that trace them; unknown vertices raise KeyError; the graph is unchanged, whatever vertices and edges were removed before, and an operation may edit the graph without memory errors.',
  over=['inputs', 'histories', 'fault_sequences'], quant='all graphs built through additions and removals, weights (also mixed integers and fractions), sources, stop points',
  why='Vertex ids with gaps, shared nodes and edge keys go wrong only after removals or for particular names.',
  files=['graphs/_backend/cpp/Algorithms.hpp', 'graphs/algorithms.py'], mech=[('algorithms', 'graphs/_backend/cpp/Algorithms.hpp')],
  tech='offline trace checking against reference models; AddressSanitizer and UBSan builds',
  design='Traces of the operation judged against reachability and layers; Kruskal and relaxation oracles; graphs reached by detours (vertices added, removed, put back). The C++ traversal passes node objects and does not report dead ends; that is taken as its interface.'),
 dict(id='P28', title='C++ graphs, nodes and edges hold exactly what was put in',
  statement='Adjacency-list and adjacency-matrix graphs of the C++ backend answer every query as a set of vertices and weighted edges does after every history of additions and removals; rejected calls have no effect; nodes give back any data unchanged and release it; edges give back any int64, float or text value and reject others; names and texts come back whole (any Unicode) or are refused, and a vertex renamed after it joined a graph breaks nothing; edges and neighbours handed out stay valid when the graph changes or goes away; no memory error occurs.',
  over=['inputs', 'histories', 'fault_sequences'], quant='all histories, names (also with underscores, empty, attribute names), data and weights (also 64-bit limits, NaN-free floats, surrogates)',
  why='Reference counts and edge keys go wrong only after overwriting, removing or outliving.',
  files=['graphs/_backend/cpp/AdjacencyList.hpp', 'graphs/_backend/cpp/AdjacencyMatrix.hpp', 'utils/_backend/cpp'],
  mech=[('adjacency list', 'graphs/_backend/cpp/AdjacencyList.hpp'), ('adjacency matrix', 'graphs/_backend/cpp/AdjacencyMatrix.hpp'), ('nodes and edges', 'utils/_backend/cpp/GraphNode.hpp')],
  tech='runtime monitors against a set-of-edges model; AddressSanitizer and UBSan builds',
  design='Model compared over all pairs after every operation, hostile data and weights, objects kept past removals and past the graph, reference counts of node data. Weights of the matrix are floats by its interface; an unweighted edge over a weighted one is not generated.'),
 dict(id='P27', title='Graphs hold exactly the vertices and weighted edges put in',
  statement='An adjacency-list or adjacency-matrix graph of the Python backend answers num_vertices, num_edges, neighbors, is_adjacent and get_edge as a set of vertices and weighted directed edges does after every history of vertex and edge additions and removals; removing a vertex or an edge removes it with its weight and nothing else; edges to unknown vertices are rejected without effect; graph nodes keep the data and neighbours they were given.',
  over=['inputs', 'histories'], quant='all histories of graph edits, names and weights; both implementations',
  why='Removed vertices and edges must not leave weights or counts behind for later operations; tests remove one edge once.',
  files=['graphs/adjacency_list.py', 'graphs/adjacency_matrix.py', 'graphs/graph.py', 'utils/misc_util.py'],
  mech=[('adjacency list', 'graphs/adjacency_list.py'), ('adjacency matrix', 'graphs/adjacency_matrix.py'), ('graph nodes', 'utils/misc_util.py')],
  design='Edge-set model compared over all pairs of vertices after every operation, seven families of names. Two known findings: names colliding with attributes, and edge keys joined by an underscore.'),
 dict(id='P29', title='Graph traversals reach every reachable vertex once, in their order',
  statement='breadth_first_search (serial and parallel) and depth_first_search call the operation once per reachable vertex over an edge from an already discovered vertex, and once per dead end; breadth-first order never returns to an earlier layer and expands first in first out, depth-first expands last in first out; a falsy result stops the serial search at once and the parallel one within the layer; extra arguments are passed on; the graph is not changed.',
  over=['inputs', 'schedules', 'configurations'], quant='all directed and undirected graphs, sources, stop points, thread counts, both implementations',
  why='Cycles, self loops, shared successors and stop points matter; tests walk three-vertex graphs.',
  files=['graphs/algorithms.py'], mech=[('traversals', 'graphs/algorithms.py')],
  design='The operation records the trace; an offline checker judges discovery, layers, queue/stack discipline, dead ends and stop points against reachability of the model.'),
 dict(id='P30', title='Minimum spanning trees span, are trees and are minimal',
  statement='For every connected undirected weighted graph, Kruskal and Prim, serial and parallel, return a new graph of the same implementation with the same vertices whose edges form a spanning tree of minimum total weight with the weights of the original; the input is not changed and later edits of the tree do not reach it.',
  over=['inputs', 'schedules', 'configurations'], quant='all connected weighted graphs (negative, equal, fractional weights), thread counts',
  why='Tests compare one five-vertex graph.', files=['graphs/algorithms.py', 'miscellaneous_data_structures/disjoint_set.py'],
  mech=[('Kruskal, Prim and their parallel forms', 'graphs/algorithms.py')],
  design='Spanning, acyclicity, weight agreement and total weight against an independent Kruskal; snapshots of the input before and after, and after editing the tree.'),
 dict(id='P31', title='Strongly connected components and bridges are exact',
  statement='strongly_connected_components by kosaraju and tarjan returns the classes of mutually reachable vertices for every directed graph; find_bridges returns, sorted, exactly the edges whose removal disconnects their end points for every undirected graph; neither changes the graph.',
  over=['inputs', 'configurations'], quant='all graphs over both implementations, and chains up to a few hundred (kosaraju: thousands of) vertices',
  why='Finishing order and low links go wrong only for particular shapes; the existing component test compares None with None.',
  files=['graphs/algorithms.py'], mech=[('components and bridges', 'graphs/algorithms.py')],
  design='Reachability oracle. Known findings: tarjan and find_bridges recurse once per vertex of a path.'),
 dict(id='P32', title='Single-source shortest paths are exact with valid predecessors',
  statement='bellman_ford and, for non-negative weights, dijkstra return the length of a shortest path to every vertex (infinite when unreachable) and predecessors that trace such a path; a negative cycle reachable from the source raises ValueError and others do not matter; the graph is not changed.',
  over=['inputs', 'configurations'], quant='all weighted graphs (zero, negative, fractional weights, self loops), sources and targets, both implementations, also after edits',
  why='Stale queue entries and relaxation order matter only on particular weights.',
  files=['graphs/algorithms.py'], mech=[('dijkstra, bellman_ford', 'graphs/algorithms.py')],
  design='Relaxation to a fixed point as oracle; every predecessor chain is walked to the source and re-added.'),
 dict(id='P33', title='All-pairs shortest paths are exact and leave the graph alone',
  statement='floyd_warshall and johnson return the shortest distance of every pair of vertices for graphs without negative cycles, and next_vertex names the source exactly for pairs whose direct edge is shortest; johnson raises ValueError on negative cycles; the weights, edges and vertices of the graph are as before, whatever the outcome.',
  over=['inputs', 'configurations'], quant='all weighted graphs, including negative and rounded weights, disconnected ones',
  why='Reweighting must be undone, also when an error is raised.', files=['graphs/algorithms.py'], mech=[('floyd_warshall, johnson', 'graphs/algorithms.py')],
  design='Per-source relaxation oracle, snapshots of the graph and repeated runs.'),
 dict(id='P34', title='Topological sorts order every acyclic graph and detect every cycle',
  statement='topological_sort and topological_sort_parallel return every vertex once with the source of each edge before its target for acyclic graphs, raise ValueError for cyclic ones, and leave the graph unchanged so that it can be sorted again.',
  over=['inputs', 'schedules'], quant='all directed graphs and thread counts', why='Tests sort one graph once and look only at the order.',
  files=['graphs/algorithms.py'], mech=[('kahn, serial and parallel', 'graphs/algorithms.py')],
  design='Order judged by definition, twice on the same graph; independent acyclicity test.'),
 dict(id='P35', title='Maximum flow equals the capacity of a minimum cut',
  statement='max_flow by edmonds_karp and dinic equals the capacity of a minimum cut between source and sink for every network with non-negative capacities (integers or fractions, with or without reverse edges, cycles and self loops), ends, and leaves the graph unchanged.',
  over=['inputs', 'configurations'], quant='all networks, sources and sinks, both implementations', why='Undoing flow over residual edges is needed only in particular networks.',
  files=['graphs/algorithms.py'], mech=[('max_flow', 'graphs/algorithms.py')],
  design='Independent augmenting-path oracle certified by the cut it finds, over random, layered, chained and bottleneck networks (several short paths fill one arc, longer ones empty it). Known finding: dinic recurses along the path.'),
 dict(id='P36', title='Nodes, m-ary trees and fold helpers carry exactly what they are given',
  statement='Every Python node class holds the key, data and links it was given (of any type, also falsy or None), starts with the documented defaults, shows its contents in str() and shares nothing with other nodes; children added to binomial and m-ary tree nodes are kept in order, with parent links for binomial ones; trie nodes report exactly the children added. An m-ary tree keeps its root, compares with the comparator given (or less-than), prints every node with its children and rejects the operations it leaves abstract. minimum, summation and greatest_common_divisor fold any values ignoring None.',
  over=['inputs', 'histories'], quant='all constructor arguments, positional or by name, edit histories, and comparators',
  why='Tests build one node of each class with integers and never give an m-ary tree a comparator or children.',
  files=['utils/misc_util.py', 'trees/m_ary_trees.py'],
  mech=[('node classes and fold helpers', 'utils/misc_util.py'), ('m-ary tree', 'trees/m_ary_trees.py')],
  design='Attribute-by-attribute model of several nodes edited in turn, all compared after every edit; m-ary trees laid out by hand and compared with a printed model; folds against functools.reduce.'),
 dict(id='P37', title='Separate objects share no state and looking changes nothing',
  statement='An operation on one array, list, stack, queue, heap, tree, trie, set, range-query structure, node, m-ary tree or graph (Python or C++ backend) changes what no other such object shows, whichever objects are created, used and dropped in between; inspecting an object changes neither it nor any other; two objects built and driven alike behave alike whatever happens to others. Collections handed out as results belong to the caller: changing them changes no structure.',
  over=['histories', 'programs'], quant='all populations of objects and all interleavings of their operations',
  why='Unit tests use one object at a time; shared defaults, caches and static buffers show only when several live together.',
  files=['linear_data_structures/arrays.py', 'linear_data_structures/linked_lists.py', 'miscellaneous_data_structures/queue.py', 'trees/binary_trees.py', 'trees/heaps.py', 'graphs/graph.py', 'strings/trie.py', 'utils/misc_util.py'],
  mech=[('object state', 'linear_data_structures/arrays.py'), ('node state', 'utils/misc_util.py'), ('C++ objects', 'trees/_backend/cpp/BinaryTree.hpp')],
  tech='isolation monitor over interleaved histories (views of all live objects compared after every operation), twin runs, AddressSanitizer builds',
  design='Populations of two to seven objects of 22 kinds driven in random interleavings with creation and dropping; after every operation the public view of every live object is compared with its last one. Twin runs repeat a history alone and amid other activity.'),
 dict(id='P38', title='What is not supported is refused and the default may be named',
  statement='A request the package has no implementation for is refused with the documented kind of exception, whatever its other arguments are, and changes nothing: a backend an API does not have and malformed constructor arguments (ValueError or TypeError), and unknown implementations, data structures, traversal orders and algorithms, including names of algorithms for another problem, another backend or another graph representation (NotImplementedError). Naming the default backend explicitly gives the same behaviour as naming none, and naming the C++ backend of a data structure that has one gives the compiled object.',
  over=['inputs', 'configurations'], quant='all APIs taking a backend, algorithm, implementation or structure name, with any valid other arguments and any unsupported name',
  why='Tests try one or two bad names; the dispatch by name built from strings accepts whatever happens to exist, which is only visible over many names and combinations.',
  files=['utils/misc_util.py', 'graphs/algorithms.py', 'strings/algorithms.py', 'linear_data_structures/algorithms.py', 'miscellaneous_data_structures/algorithms.py', 'trees/heaps.py'],
  mech=[('backend guard', 'utils/misc_util.py'), ('dispatch by name', 'graphs/algorithms.py')],
  design='Every API is called with generated valid arguments and an unsupported backend or name (misspelt, of another problem, of an internal helper, random); the exception type and the unchanged arguments are judged. Twin calls with and without backend=Backend.PYTHON are compared.'),
 dict(id='P39', title='Operations stay within the growth class of their data structure',
  statement='The number of steps (loop iterations and calls of the Python code; executed basic blocks of the compiled code; calls of the comparator for the C++ trees) stays within a constant factor of the class that makes each structure or algorithm what it is, for every shape of input: amortised constant for array growth, stacks, queues and list ends; logarithmic for balanced trees (worst case or amortised or expected, as each promises), heaps, binomial heaps, skip lists, segment trees, sparse tables, Fenwick trees and bounds; near-linear for disjoint sets, traversals, tries, KMP and Z search, breadth and depth first search, strong components, bridges and Kahn; n log n for merge, heap and intro sort; and the polynomial classes of the quadratic sorts, dynamic programs, shortest paths and flows.',
  over=['inputs', 'histories'], quant='all operation sequences and input shapes (ordered, reversed, equal, periodic, random, paths, stars, grids, layers) of each size tried',
  why='Unit tests use a dozen elements, where a lost balance rule, growth factor or pruning condition costs nothing visible.',
  files=['linear_data_structures/arrays.py', 'linear_data_structures/algorithms.py', 'trees/binary_trees.py', 'trees/heaps.py', 'miscellaneous_data_structures/disjoint_set.py', 'miscellaneous_data_structures/segment_tree.py', 'miscellaneous_data_structures/sparse_table.py', 'strings/algorithms.py', 'graphs/algorithms.py'],
  mech=[('growth and compaction', 'linear_data_structures/arrays.py'), ('balancing', 'trees/binary_trees.py'), ('pruned recursion', 'miscellaneous_data_structures/segment_tree.py')],
  tech='runtime monitoring: step counting with sys.monitoring (loop back-edges and function entries of the package) and compiler instrumentation (executed basic blocks of the C++ code) against per-operation cost bounds',
  observe=['interpreter events of the package code', 'basic blocks executed by the compiled code', 'comparator calls'],
  note='The constants are four times the largest ratio observed on the pinned tree, so only a change of growth class (or a more than fourfold slowdown) is reported; sizes up to 480 (quick) and 1000 (thorough).',
  design='''Deterministic step counts, no clocks. Every operation is run on adversarial shapes at several sizes and its count divided
  by the units of its class; the allowed constant is four times what the pinned tree shows (table SEEN). At n = 480 a linear
  instead of logarithmic operation costs about fifty times as much. The compiled code is built a fourth way (flavour count:
  -fsanitize-coverage=trace-pc with a library that counts the blocks), which makes the cost of the C++ arrays, stacks, queues,
  searches, sorts, trees, Fenwick trees and graph searches as deterministic as that of the Python code.'''),
 dict(id='P40', title='Nothing done to a compiled object can take the interpreter down',
  statement='Whatever public attribute of the compiled (C++) arrays, stacks, nodes, trees, traversals, graphs and edges is read, written, called, printed, hashed, compared, copied or deleted, and whatever is handed to the compiled sorts, searches and graph algorithms - arguments that are missing, too many, of the wrong type, huge, negative, misbehaving when compared, hashed, printed or converted - the interpreter survives: the operation returns or raises a Python exception, and no memory outside of live objects is read or written. Calls may leak but never lose references: repeating a call does not free objects that are still in use.',
  over=['inputs', 'histories'], quant='all sequences of attribute accesses and calls with arbitrary arguments on compiled objects (comparators that modify the structure they compare for, and arrays put into a tree by hand, excluded)',
  why='Unit tests call the extension the way it is meant to be called; a missing type check, NULL check or bound shows only as memory corruption under arguments nobody wrote a test for.',
  files=['linear_data_structures/_backend/cpp', 'trees/_backend/cpp', 'graphs/_backend/cpp', 'miscellaneous_data_structures/_backend/cpp', 'utils/_backend/cpp'],
  mech=[('argument checks of the extension types', 'utils/_backend/cpp/utils.hpp'), ('index handling', 'linear_data_structures/_backend/cpp/arrays')],
  tech='runtime monitoring with sanitizers: random API fuzzing of compiled objects under AddressSanitizer and with a checking allocator, each call judged by survival and by the error protocol of CPython',
  observe=['process death, sanitizer reports, results with an exception set'],
  note='Innards that exist to be handed over by other classes (set_tree, index attributes of tree nodes) are left alone; sizes are kept below 2**31.',
  design='''A world of a few random compiled objects is poked 5-40 times: reading, writing and deleting attributes, calling methods and
  module functions, the number, mapping and iteration protocols, copying. Arguments come from a pool of the objects themselves,
  huge and negative integers, misbehaving objects (raising or lying __eq__, __hash__, __str__, __float__, __index__), callables.
  A second scenario repeats random chains of one to three calls with a
  count of the references of everything involved (a loss that grows with the repetitions is a violation, before anything crashes).
  A crash, a sanitizer report, a SystemError (a result together with an exception, or NULL without one) or a case that never ends
  is a violation. The trace of a failing case can be had with PDS_TRACE=FILE.'''),
]

NOT_APPLICABLE = []
