NOTES = ('Static analysis only: every check recompiles the units it needs from /repo to LLVM IR (clang, no code of the repository is run) and decides its '
         'obligations on the IR with the abstract interpreter in lib/absint.py or with graph/typestate rules. See DESIGN.md.')
AI = 'abstract interpretation of the compiled source (LLVM IR) to a fixpoint over all call histories, with symbolic inputs'
H = 'histories'
I = 'inputs'
RT = 'rdf3x/src/rts/'
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=AI, level='other', note='', na=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]},
              'technique': technique, 'level': level, 'level_note': note, 'na': na})


NT = 'The existing tests exercise only the bundled graph library; no test runs a query operator, and a test could sample only some of the histories.'

prop('C01', 'Index scans report the database entries that match the pattern',
     'For every triple order and every combination of bound and unbound positions, an index scan over a triple pattern reports each stored entry that agrees with the constants and with repeated variables, with the multiplicity the storage reports, and binds each variable to the component of the entry at the variable\'s position. It reports no other entry, skips no matching entry and ends only when no further entry can match.',
     [I, H, 'configurations'], 'every order, every subset of bound positions, every sequence of entries delivered by the storage layer, every sequence of first/next calls', NT,
     [RT + 'IndexScan.cpp', RT + 'AggregatedIndexScan.cpp', RT + 'FullyAggregatedIndexScan.cpp'],
     [('IndexScan and its specialisations', RT + 'IndexScan.cpp'), ('AggregatedIndexScan', RT + 'AggregatedIndexScan.cpp'), ('FullyAggregatedIndexScan', RT + 'FullyAggregatedIndexScan.cpp')],
     note='The storage scan is abstract (arbitrary sorted entries); numeric merge hints are trusted to be monotone.')
prop('C02', 'Joins produce every matching pair exactly once',
     'A nested loop join delivers each combination of a row of the left input and a row of the right input, and a merge join of two sorted inputs each combination of rows with the same join value, exactly once, with the values of both rows and the product of the two multiplicities. If one side of a merge join is optional, each row of the other side that has no partner is delivered exactly once, with its own multiplicity and null values for the missing side, and no input is allowed to skip rows that have to be kept. No row of either input is skipped or delivered twice, and a join ends only when no further combination or row is due.',
     [I, H], 'every pair of inputs (any number of rows, any multiplicities and values) and every sequence of first/next calls', NT,
     [RT + 'NestedLoopJoin.cpp', RT + 'MergeJoin.cpp'], [('NestedLoopJoin::first, next', RT + 'NestedLoopJoin.cpp'), ('MergeJoin::MergeJoin, first, next, handleNM', RT + 'MergeJoin.cpp')], note='The inputs are abstract operators; the merge join is decided for sorted inputs without null join values, at most one optional side and two carried registers per side.')
prop('C03', 'Unions produce every row of every part exactly once',
     'A union delivers every row of every part exactly once with its own multiplicity: the parts one after the other, or, for the union of two sorted inputs, merged in ascending order where equal rows may be combined into one row with the summed multiplicity. Registers mapped from the part receive the value of the part, registers the part does not bind receive the null value, and the union ends only when all parts are exhausted.',
     [I, H], 'every list of parts (any number of rows, empty parts included) and every sequence of first/next calls', NT,
     [RT + 'Union.cpp', RT + 'MergeUnion.cpp'], [('Union', RT + 'Union.cpp'), ('MergeUnion', RT + 'MergeUnion.cpp')], note='The parts are abstract operators.')
prop('C04', 'One-input operators keep or drop each row for the stated reason only',
     'An operator with one input delivers each input row once with its multiplicity, unless its own definition says otherwise: a value filter drops exactly the rows whose value is (not) in its list, the nested loop filter restricts its input to each listed value in turn, and a limit skips exactly the offset, stops at the limit, and repeats a row once per duplicate only when duplicates are wanted. Assignments, table functions and inline value lists set all their output variables before a row is delivered, and no operator ends while rows are still due.',
     [I, H], 'every input (any number of rows, values and multiplicities), every value list, limit and offset, and every sequence of first/next calls', NT,
     [RT + f for f in ('Filter.cpp', 'NestedLoopFilter.cpp', 'Assignment.cpp', 'TableFunction.cpp', 'ValuesScan.cpp', 'SingletonScan.cpp', 'EmptyScan.cpp', 'DuplLimit.cpp')],
     [(f, RT + f + '.cpp') for f in ('Filter', 'NestedLoopFilter', 'Assignment', 'TableFunction', 'ValuesScan', 'SingletonScan', 'EmptyScan', 'DuplLimit')], note='The input is an abstract operator.')
prop('C05', 'Grouping and subtraction account for every input row',
     'Grouping by sorting delivers every input row with its multiplicity, or, when duplicates are not wanted, every different row once; hash grouping delivers every different row once with the sum of the multiplicities of all rows equal to it. Subtraction delivers exactly the rows of its main input, with their multiplicities, that do not agree with any row of the other input in all compared variables.',
     [I, H], 'every input (any number of rows, values and multiplicities) and every sequence of first/next calls', NT,
     [RT + f for f in ('GroupBy.cpp', 'HashGroupify.cpp', 'Minus.cpp')] + ['rdf3x/include/rts/operator/Minus.hpp'],
     [('GroupBy', RT + 'GroupBy.cpp'), ('HashGroupify', RT + 'HashGroupify.cpp'), ('Minus', RT + 'Minus.cpp')], note='The inputs are abstract operators; std::sort and the standard containers are trusted.')
prop('C06', 'A query operator that is started again produces the same rows',
     'Starting an operator again produces the same rows as the first execution, whatever state it was left in: exhausted, abandoned in the middle, or never advanced. This is what the inner side of a nested loop join relies on.',
     [H], 'every history of first/next calls that ends with a restart', NT,
     [RT + f for f in ('NestedLoopJoin.cpp', 'MergeUnion.cpp', 'Union.cpp', 'Filter.cpp', 'NestedLoopFilter.cpp', 'Assignment.cpp', 'TableFunction.cpp', 'ValuesScan.cpp', 'DuplLimit.cpp', 'GroupBy.cpp', 'HashGroupify.cpp', 'Minus.cpp')],
     [('first()', RT)], note='Operators of C02 to C05.')
prop('C07', 'Skip hints and value domains never hide a value that may qualify',
     'A scan hint only moves a scan forward, to a bound that is in force for that position (a bound variable, a merge partner, or the next value its domain admits), and the later positions start over exactly when an earlier one moved. A value domain admits every value that was recorded in it, the intersection of domains keeps every value both admit, the next candidate is the first admitted value at or after the one asked for, and a filter publishes all its listed values.',
     [I, 'configurations'], 'every combination of bound positions, merge partners and domains, every register content, every set of recorded values and every value looked up', NT,
     [RT + f for f in ('DomainDescription.cpp', 'IndexScan.cpp', 'AggregatedIndexScan.cpp', 'FullyAggregatedIndexScan.cpp', 'Filter.cpp')],
     [('couldQualify, nextCandidate, sync, restrictTo, add', RT + 'DomainDescription.cpp'), ('IndexScanHint::next, addMergeHint', RT + 'IndexScan.cpp'), ('AggregatedHint::next', RT + 'AggregatedIndexScan.cpp'), ('FullyAggregatedHint::next', RT + 'FullyAggregatedIndexScan.cpp'), ('Filter::first', RT + 'Filter.cpp')],
     technique='abstract interpretation of the compiled source (LLVM IR) with loop counters in closed form and linear/bit-slice normal forms',
     note='Merge partners are trusted to deliver ascending values; values are assumed to be at least one filter length below 2^64.')
IT = 'src/trident/iterators/'
prop('C08', 'Iterators over a list of pairs deliver exactly the matching pairs',
     'An iterator over a sorted list of pairs delivers, in order and once each, exactly the pairs that satisfy its constraints; if the second column is ignored, it delivers each first value once and its count is the number of pairs with that value. Moving to a pair continues with the first pair at or after it, and a reset returns to what was marked. The difference of two iterators delivers exactly the pairs of the first that the second does not contain.',
     [I, H], 'every list, every constraint, every list of removed pairs and every sequence of hasNext/next/moveto/mark/reset calls', NT.replace('query operator', 'pair iterator'),
     [IT + 'arrayitr.cpp', IT + 'rmitr.cpp', 'include/trident/iterators/arrayitr.h', 'include/trident/iterators/rmitr.h'],
     [('ArrayItr', IT + 'arrayitr.cpp'), ('RmItr', IT + 'rmitr.cpp')],
     technique='abstract interpretation of the compiled source (LLVM IR): cursor positions as linear forms, loops as cursor legs with row conditions, typestate of the look-ahead',
     note='If the second column is ignored, the count is asked before the next hasNext; the lists are sorted.')
BT = 'include/trident/binarytables/'
prop('C09', 'Binary tables deliver exactly the stored pairs of a key',
     'A table in the row or the cluster layout delivers exactly its stored pairs, in order and once each; a lookup by the first value, or by both, delivers exactly the matching pairs, and if the second column is ignored each first value once with its number of pairs. Moving to a pair continues with the first pair at or after it, a reset returns to what was marked, and asking whether pairs are left, for the cardinality, the count or the values changes nothing. Numbers of 1, 2, 4, 5 and 8 bytes are read as the unsigned number that was stored, highest byte first.',
     [I, H], 'every table content, table size, width of the columns, constraint and sequence of next/moveto/mark/reset calls', NT.replace('query operator', 'table layout'),
     [BT + f for f in ('newrowtable.h', 'newclustertable.h', 'binarytablereaders.h')],
     [('NewRowTable', BT + 'newrowtable.h'), ('NewClusterTable', BT + 'newclustertable.h'), ('ByteReader .. LongReader', BT + 'binarytablereaders.h')],
     technique='abstract interpretation of the compiled source (LLVM IR): pointers as linear forms over opaque readers, loops summarised by the predicate all passed rows satisfy, bit provenance of the numbers',
     note='The table is sorted, complete and holds each pair once; numbers are non-negative; if the second column is ignored, the second target of a move is 0. The column layout is not claimed.')
SC = 'snap/snap-core/'
prop('C10', 'Both ends of every graph edge are kept in step',
     'In the graph classes of the bundled network library, adding an edge enters it once at each of its ends (an undirected edge from a node to itself once), and deleting an edge or a node takes back every entry it left in neighbour lists, edge tables and edge counts, whatever the order of its edges and including edges from a node to itself or between the same nodes. New nodes and edges get numbers that are not in use, and asking for an edge finds it exactly if it is there, in either direction if direction is ignored.',
     [I, H], 'every graph that is consistent before the call, every node, edge number, direction flag and neighbour list', 'The existing tests build a few fixed graphs; self loops, multi-edges and reverse edges in combination with deletions are not among them.',
     [SC + f for f in ('graph.cpp', 'graph.h', 'network.cpp', 'network.h', 'graphmp.cpp', 'graphmp.h')],
     [('AddNode, AddEdge, DelEdge, DelNode, IsEdge of TUNGraph, TNGraph, TNEGraph, TBPGraph', SC + 'graph.cpp'), ('the same of TNodeNet, TNodeEDatNet, TNodeEdgeNet', SC + 'network.h'), ('the same of TUndirNet, TDirNet, TNEANet', SC + 'network.cpp'), ('TNGraphMP', SC + 'graphmp.cpp')],
     technique='abstract interpretation of the compiled source (LLVM IR) with an effect system: the changes of the neighbour lists, tables and counters of each path against the expected ones, loops by their turn',
     note='Each call starts from a consistent graph; the hash table and the sorted vector are trusted; lists given to AddNode are assumed to be duplicate-free.')

prop('C11', 'Copies and stored forms keep every member',
     'A copy of an object, made by construction or by assignment, holds the value of every member of the original (arrays from the first to the last element, owned parts as parts of its own), and an object written to a stream and read back takes every part from where it was written and loses none. This covers the containers, strings, hash tables, graphs, networks and tables of the bundled network library and the filters, query descriptions and domain descriptions of the query engine; reserved capacity, iteration state, attribute columns of attributed networks when copied, and the grouping state of tables when stored are exempt.',
     [I, H], 'every pair of objects, every array length, every content', 'Tests copy or store a few small objects and compare what they look at; a forgotten member shows only after deletions, with rare options or in later use.',
     ['snap/glib-core', 'snap/snap-core', 'rdf3x/src/cts/QueryGraph.cpp', 'rdf3x/src/cts/SPARQLParser.cpp', 'rdf3x/src/rts/DomainDescription.cpp'],
     [('copy constructors and assignments', 'snap/glib-core/ds.h'), ('hash tables and string pools', 'snap/glib-core/hash.h'), ('Save, Load and the constructors from a stream', 'snap/snap-core/graph.h'), ('tables', 'snap/snap-core/table.h'), ('QueryGraph::Filter', 'rdf3x/src/cts/QueryGraph.cpp'), ('SPARQLParser::Filter', 'rdf3x/src/cts/SPARQLParser.cpp'), ('DomainDescription', 'rdf3x/src/rts/DomainDescription.cpp')],
     technique='abstract interpretation of the compiled source (LLVM IR): for each copy the origin of every member at every exit; for each class the sequence of parts written against the sequence of parts read',
     note='Reserved capacity, members derived from others, iteration state, attributes of attributed networks on graph conversion and the grouping state of stored tables are exempt and listed in the rule; members of template classes are checked for the instances the library itself uses.')

prop('C12', 'Locks are balanced and background work runs in order',
     'Every lock that is taken is given back exactly once on every path, two locks are taken only in one fixed order, threads wait only while holding the lock of the state they wait for, and the state of the worker pool and the shared value domains is used only under its lock, never across a call of foreign code. A change that other threads may be waiting for wakes all of them before the lock is given up, and the pool is destroyed only when every worker that was started has ended. Every registered background point runs exactly once and only after the points it depends on, and the main part of the plan starts when none is left and is run until it delivers no more rows.',
     ['schedules'], 'every interleaving of the workers and the main thread', 'Tests run with a single thread; a race needs a particular interleaving.',
     ['rdf3x/src/rts/Scheduler.cpp', 'rdf3x/src/rts/DomainDescription.cpp', 'rdf3x/src/infra/Event.cpp', 'rdf3x/src/infra/Mutex.cpp', 'rdf3x/src/infra/Thread.cpp'],
     [('Scheduler', 'rdf3x/src/rts/Scheduler.cpp'), ('PotentialDomainDescription::sync, restrictTo', 'rdf3x/src/rts/DomainDescription.cpp'), ('Mutex, Event, Thread', 'rdf3x/src/infra/Event.cpp')],
     technique='typestate analysis of locks, critical sections and jobs by abstract interpretation of the compiled source (LLVM IR)')

prop('C13', 'Query plans are well formed and complete',
     'Every node of a query plan that the planner hands on is completely set up, every scan carries all constants of its pattern and reports every variable that the rest of the query mentions anywhere (other patterns, filters with all their arguments and subqueries, inline values, subtracted and optional groups, projection, grouping, ordering, assignments), and a scan claims only an order that its rows have. Merge joins and merge unions are planned only over inputs that are sorted by the common variable, an alternative is discarded only when another plan for the same parts is at least as cheap and ordered at least as well, and every two parts of a group that share a variable are connected by a join edge that carries the numbers under which the planner knows them. A filter is attached to a part of the plan only when that part binds every variable the filter mentions, and NOT EXISTS is always planned as such.',
     ['programs'], 'every query graph', 'The tests that can be built never plan a query; the result depends on the shape of the query.',
     ['rdf3x/src/cts/PlanGen.cpp', 'rdf3x/src/cts/QueryGraph.cpp', 'rdf3x/include/cts/plangen/PlanGen.hpp'],
     [('PlanGen::buildScan, addPlan, translate', 'rdf3x/src/cts/PlanGen.cpp'), ('isUnused, collectVariables, isApplicable', 'rdf3x/src/cts/PlanGen.cpp'), ('QueryGraph::constructEdges', 'rdf3x/src/cts/QueryGraph.cpp')],
     technique='SSA dataflow (definite assignment, facts of branches) and abstract interpretation of the compiled source (LLVM IR)')

prop('C14', 'Operators own their inputs and pass on skip hints only where rows may be skipped',
     'A query operator deletes every input it was given exactly once, when it is deleted itself. It shows itself as one block with every input once inside, a scan showing each position once, and it offers every input once for background work. A skip hint is passed on unchanged and only to inputs whose unneeded rows may be left out: never to an input that is read ahead, counted, limited, or started once per row of another one.',
     ['programs', H], 'every tree of query operators and every merge hint given to it', 'No test builds an operator tree; leaks, double deletes and skipped rows depend on the shape of the plan.',
     [RT + f for f in ('Assignment.cpp', 'DuplLimit.cpp', 'Filter.cpp', 'GroupBy.cpp', 'HashGroupify.cpp', 'MergeJoin.cpp', 'MergeUnion.cpp', 'Minus.cpp', 'NestedLoopFilter.cpp', 'NestedLoopJoin.cpp', 'TableFunction.cpp', 'Union.cpp', 'IndexScan.cpp', 'PlanPrinter.cpp')],
     [('destructors, print, getAsyncInputCandidates, addMergeHint of the operators', 'rdf3x/src/rts'), ('DebugPlanPrinter', RT + 'PlanPrinter.cpp')],
     technique='abstract interpretation of the compiled source (LLVM IR): ownership and event counting over symbolic inputs')

Y = 'histories'
prop('N01', 'A query returns exactly the answers its SPARQL text defines',
     'For every database and every supported query, the bag of rows delivered equals the bag that the SPARQL semantics assigns to the query text, whatever plan the optimiser chooses.',
     [I], 'every database and query', 'Tests run fixed queries over fixed data.', ['src/trident/sparql', 'rdf3x/src/cts'], [('parser, semantic analysis, plan generator, code generator', 'rdf3x/src/cts')],
     na='The result depends on the composition of parser, optimiser and operators over run-time data; a static rule can decide the operators one by one (C01-C07) but has no sound abstraction of the plan search that would relate a plan to the meaning of the text.')
prop('N02', 'A loaded knowledge base answers every pattern with the loaded triples',
     'After loading, every pattern over subject, predicate and object, with and without aggregation, delivers exactly the matching triples of the input, for every storage layout that the loader may choose, also after closing and opening again.',
     [I, H], 'every input file and loader configuration', 'Tests load small files.', ['src/trident/loader.cpp', 'src/trident/kb', 'src/trident/tree', 'src/trident/binarytables'], [('loader, dictionaries, tree, tables', 'src/trident/loader.cpp')],
     na='The stored bytes pass through sorting, compression, memory mapping and a B+tree whose contents are run-time quantities without a static bound; what can be decided from the source, that the table readers follow the layout and the iterators their contract, is C08 and C09.')
prop('N03', 'An interrupted load or update never leaves a readable but wrong database',
     'A crash at any point while loading or updating leaves the previous state readable or is detected when the database is opened.',
     ['crash_points'], 'every crash point', 'Tests do not crash.', ['src/trident/loader.cpp', 'src/trident/kb/updater.cpp'], [('updates', 'src/trident/kb/updater.cpp')],
     na='The code uses neither logs nor atomic renames and documents no crash guarantee; there is no discipline in the source whose violation a static rule could report.')
prop('N04', 'Removals and additions act in the order of the updates',
     'A pattern sees a triple exactly if the last update that mentions it added it, for every sequence of additions and removals.',
     [H], 'every sequence of updates', 'Tests use none or one update.', ['src/trident/kb/diffindex.cpp', 'src/trident/iterators/rmitr.cpp', 'src/trident/kb/querier.cpp'], [('difference indices', 'src/trident/kb/diffindex.cpp')],
     na='Which differences are consulted for a key is decided from files and table statistics at run time; the iterator that subtracts removals is decided in C08, the rest has no static argument in reach.')
prop('N05', 'Graph measures and embeddings have the values of their definitions',
     'The network analytics (ranks, betweenness, clustering, triangles, communities, walks) and the embedding training compute the quantities of their definitions up to rounding.',
     [I], 'every graph', 'Tests compare counts on tiny graphs.', ['snap/snap-core', 'src/trident/ml', 'src/trident/kb/kb.cpp'], [('analytics', 'snap/snap-core'), ('learning', 'src/trident/ml')],
     na='Numeric results over whole graphs and random sequences: no sound static bound relates the source to the defined quantity.')
prop('N06', 'Sorting and merging on disk deliver all records in order',
     'External sorting and merging of the loader deliver every record exactly once in order for every number of files, buffer size and thread count.',
     [I, 'schedules'], 'every input size and thread count', 'Tests use inputs that fit into memory.', ['src/trident/sorting', 'src/trident/utils/parallel.cpp'], [('external merge', 'src/trident/sorting')],
     na='The sources depend on headers of an absent library (KOGNAC) for files, compression and thread pools; sortedness of run-time data through a heap is beyond the abstract domains used here.')
prop('N07', 'Compressed dictionary pages return the stored terms',
     'Every term put into the dictionary gets one number, every number gives back the term, for every set and order of terms.',
     [I], 'every set of terms', 'Tests use few terms.', ['src/trident/tree/stringbuffer.cpp', 'src/trident/tree', 'src/trident/kb/dictmgmt.cpp'], [('string buffers with prefix compression', 'src/trident/tree/stringbuffer.cpp')],
     na='Offsets and prefix lengths are data read from pages of an external compressor; a sound static bound for them is not available.')
prop('N08', 'Concurrent queries do not disturb each other',
     'Queries answered at the same time by the server over one database deliver what they deliver alone.',
     ['schedules'], 'every interleaving', 'Tests are sequential.', ['src/trident/server', 'src/trident/kb/querier.cpp', 'src/trident/tree/cache.cpp'], [('server', 'src/trident/server')],
     na='The server serialises queries through a library class whose source is not here, and the caches below are not meant to be shared; there is no locking discipline in this repository for queries that a rule could check (the locks that exist are the subject of a property of their own).')
