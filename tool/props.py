I = ['inputs']; CONF = ['inputs', 'configurations']; H = ['histories']; PR = ['programs', 'inputs', 'configurations']
prop('C00', 'A search that runs to the end proves the optimum',
 'When a branch-and-bound search ends by itself (no time limit stopped it), the value in the bounds object is the optimum of the model over all label sequences that lead from the initial state to the sink, in the requested direction, for every width. The solution handed to the callbacks last has exactly that value. If the model has no solution, the bound stays at its start value and no callback is called.',
 PR, 'for every model whose callbacks meet their contract, every width, with and without local bound and dominance', NOTEST + '; the optimum depends on every step of compilation, relaxation, bounding and queueing being sound for all models and widths',
 ['src/search.cpp', 'src/dd.cpp', 'src/dd.hpp', 'src/node.hpp', 'src/node.cpp'], [('branch and bound', 'BAndB::search'), ('compilation', 'Exact/Restricted/Relaxed::compute'), ('merging', 'Relaxed::mergeLayer'), ('publication', 'AbstractDD::update')], 'Bounds::getPrimal after BAndB::search')
prop('C01', 'Minimisation and maximisation are treated as mirror images',
 'Everything that compares two objective values (node values, bounds, incumbent, queue keys) uses the direction the model was declared with: smaller is better for a minimisation model, larger for a maximisation model. The start values are the ends of that scale: the incumbent starts worse than any solution and the dual bound better than any. Two equal values are never strictly better than each other.',
 PR, 'for both directions and every pair of values, infinities included', NOTEST + ', let alone one per direction', ['src/dd.hpp', 'src/dd.cpp', 'src/search.cpp'],
 [('comparison', 'Minimize, Maximize'), ('start values', 'DD::initialBest, DD::initialWorst'), ('use', 'DD::isBetter, DD::isBetterEQ, DD::update')])
prop('C02', 'A node value is the value of the label path stored with it',
 'At any time the value of a node equals the sum of the costs along the labels it stores, these labels lead from the root to that node, and no other path of the diagram to that node is better. When a node gets a better value its labels are replaced in the same step; when it does not, neither changes.',
 PR, 'for every diagram, node and order in which paths reach it', NOTEST, ['src/dd.cpp', 'src/dd.hpp', 'src/node.hpp'],
 [('longest path', 'AbstractDD::computeBest'), ('incremental update', 'Exact/Restricted/Relaxed::compute'), ('tightening', 'WidthBounded::tighten'), ('merge', 'Relaxed::mergeOne, Relaxed::mergePair')], 'AbstractDD::incumbent, ANode::getBound')
prop('C03', 'Every arc is a transition of the model and is known at both ends',
 'Each arc of a compiled diagram carries a label the source state allows, the cost the model gives for it, and leads to the node of the state the model gives for it (or to a relaxation of that state). An arc is in the child list of its source and in the parent list of its target, once each, and is taken out of both lists when a node is removed or its arcs are moved.',
 PR, 'for every model and every sequence of insertions, merges and removals', NOTEST, ['src/dd.cpp', 'src/dd.hpp', 'src/node.cpp', 'src/node.hpp', 'src/vec.hpp'],
 [('adding arcs', 'AbstractDD::addArc, ANode::addArc'), ('removing', 'ANode::disconnect'), ('moving', 'Relaxed::transferArcs')])
prop('C04', 'A diagram never holds two nodes for the same state',
 'Asking for the node of a state gives the existing node if the diagram has one for an equal state, otherwise a new one holding exactly that state. A state that is replaced by merging or a diagram that is reset leaves no stale entry behind: later lookups never find a node of an earlier compilation.',
 PR, 'for every state type with consistent hash and equality, every history of lookups, merges and resets', NOTEST + '; stale entries only show after a diagram is reused for another sub-problem', ['src/dd.hpp', 'src/hashtable.hpp', 'src/dd.cpp'],
 [('lookup or create', 'DD::makeNode, DD::hasNode'), ('reset', 'DD::reset, AbstractDD::reset'), ('table', 'LHashtable')])
prop('C05', 'A node or diagram is called exact only if nothing was relaxed above it',
 'A node is marked exact only if no merged node lies on any path from the root to it; a node that takes part in a merge or has an inexact parent is not exact, also when it or its parent was expanded before (arcs redirected to a dominating node aside). A diagram reports itself exact only if no node of it was merged or left out, so that its best value is the true one.',
 PR, 'for every model, width and order of merging', NOTEST, ['src/dd.cpp', 'src/dd.hpp', 'src/node.hpp'],
 [('flag', 'ANode::isExact, ANode::setExact'), ('compile', 'Exact/Restricted/Relaxed::compute'), ('merge', 'Relaxed::mergeLayer')], 'AbstractDD::isExact, ANode::isExact')
prop('C06', 'The cutset separates the root from everything inexact',
 'Every path of a relaxed diagram from the root to the sink that uses an inexact node passes through a node of the cutset, and all nodes of the cutset are exact. No exact node with an inexact child is left out of the cutset.',
 PR, 'for every relaxed diagram', NOTEST, ['src/dd.cpp', 'src/dd.hpp'], [('cutset', 'Relaxed::computeCutSet, AbstractDD::computeCutSet')])
prop('C07', 'Pruning by the local bound never discards an improving transition',
 'While a diagram is compiled a transition is left out on account of the local bound only if the value up to it plus the local bound of the state it leads to is not better than the incumbent. Without a local bound, or while that sum is better, every transition the model allows is taken.',
 PR, 'for every model with a valid local bound and every incumbent', NOTEST, ['src/dd.hpp', 'src/dd.cpp'], [('transition', 'DD::transition'), ('bound', 'DD::local')])
prop('C08', 'Merging keeps every path of the nodes it merges',
 'When nodes of a layer of a relaxed diagram are merged, every arc into one of them leads to the merged node with the same label and at least as good a cost, so that no path, hence no solution, is lost. The merged node holds the state the model gives for the merge of their states, and nodes the model refuses to merge stay apart. A layer ends up with no more nodes than the width unless no further merge is possible.',
 PR, 'for every model, layer and width', NOTEST, ['src/dd.cpp', 'src/dd.hpp'], [('merging', 'Relaxed::mergeLayer, mergeOne, mergePair'), ('arcs', 'Relaxed::transferArcs'), ('state', 'DD::merge')])
prop('C09', 'A restricted diagram only contains real solutions and respects its width',
 'Every root-to-sink path of a restricted diagram is a feasible label sequence of the model with its true cost: nodes are left out, never merged or altered. As soon as the layer being built has as many nodes as the width, nothing more is added to it, and the diagram reports itself inexact. A new node is replaced by another one only if that one dominates it with at least as good a value.',
 PR, 'for every model, width and layer', NOTEST, ['src/dd.cpp', 'src/dd.hpp', 'src/nd_array.hpp'], [('truncation', 'Restricted::truncate'), ('dominance', 'Restricted::checkDominance, LQueue::checkDominance'), ('compile', 'Restricted::compute')])
prop('C10', 'Compilation expands every label of every kept node',
 'Compiling a diagram goes on until no node is waiting; every node that is kept is expanded with every label its state allows, and each resulting transition either becomes an arc to a node that is itself kept waiting (or to the sink) or is left out for a stated reason. The transitions that satisfy the sink test all end in the single sink.',
 PR, 'for every model and strategy', NOTEST, ['src/dd.cpp', 'src/dd.hpp', 'src/queue.hpp'], [('compile', 'Exact/Restricted/Relaxed::compute'), ('layers', 'WidthBounded::pullLayer, LQueue'), ('labels', 'DD::getLabels')])
prop('C11', 'The backward bound of a node covers its best completion',
 'After a relaxed diagram is compiled, the backward value of every node is the best sum of costs over all paths of the diagram from that node to the sink, never worse. Nodes from which the sink cannot be reached get the worst value.',
 PR, 'for every diagram', NOTEST, ['src/dd.cpp'], [('backward pass', 'AbstractDD::computeBestBackward')], 'ANode::getBackwardBound')
prop('C12', 'Branch and bound closes a node only when that is justified',
 'A queued node is closed without branching only if its bound is not better than the incumbent, its relaxed diagram shows no better solution, or one of its two diagrams was exact. The node whose bound is most promising is always explored first. The search goes on while nodes are queued, unless a time limit is set and says stop.',
 PR, 'for every model, width and state of the queue', NOTEST, ['src/search.cpp', 'src/heap.hpp', 'src/dd.cpp', 'src/dd.hpp'], [('search', 'BAndB::search'), ('promise', 'AbstractDD::apply, DD::update')])
prop('C13', 'Branch and bound never loses a node of a cutset',
 'Every node of the cutset of a branched node is queued with its state, value, labels and a valid bound, unless it cannot beat the incumbent, is dominated by a queued node with at least as good a value, or its state was queued before with at least as good a value. A queued node is removed only if a new one with at least as good a value dominates it. A node whose cutset is itself is tried again with a larger width.',
 PR, 'for every model, cutset and state of the queue', NOTEST, ['src/search.cpp', 'src/dd.hpp', 'src/pool.hpp', 'src/node.hpp', 'src/heap.hpp'], [('search', 'BAndB::search'), ('known states', 'DDNodeAllocator::cloneNode'), ('copy', 'Node::Node, Node::resetWith')])
prop('C14', 'Solutions are published once, with their labels, and only if better',
 'The incumbent changes only to a strictly better value of a real solution, and whenever it changes every registered callback is called with exactly the labels of that solution, root prefix included. A relaxed diagram publishes a value only if it is exact or the path uses exact nodes only. Callbacks stay valid after the search ends.',
 ['programs', 'inputs', 'histories'], 'for every sequence of diagrams compiled and every set of callbacks', NOTEST, ['src/dd.hpp', 'src/dd.cpp', 'src/search.cpp'], [('publication', 'DD::update, Bounds::setIncumbent'), ('labels', 'AbstractDD::incumbent'), ('callbacks', 'Bounds::onSolution')])
prop('C15', 'Compiling from a node covers exactly the sub-problem of that node',
 'A diagram applied to a node starts from that state with the value and labels the node was reached with, whatever the diagram was used for before: no node, value, flag or pending work of an earlier compilation remains. The given node itself is not changed by it.',
 ['programs', 'inputs', 'histories'], 'for every sequence of applications', NOTEST, ['src/dd.hpp', 'src/dd.cpp', 'src/node.hpp'], [('restart', 'DD::makeInitFrom, DD::duplicate, DD::reset, DD::init'), ('apply', 'AbstractDD::apply')])
prop('C16', 'Memory from a pool is fresh, aligned and large enough',
 'Every block a pool hands out has at least the requested size, is aligned for any object, and overlaps no other block handed out since the pool was last cleared past it, however large the request is and however many segments are needed. Going back to a mark frees exactly the blocks handed out after the mark and nothing older.',
 ['inputs', 'histories'], 'for every sequence of requests, marks and clears', 'no test uses a pool beyond its first segment; overlap shows only as corruption elsewhere', ['src/store.hpp', 'src/store.cpp'],
 [('blocks', 'Pool::allocate'), ('marks', 'Pool::mark, Pool::clear'), ('placement', 'operator new(size_t, Pool*)')], 'Pool::allocate')
prop('C17', 'A vector holds exactly what was put in it',
 'After any sequence of operations a vector holds the elements and the size that sequence defines: appending keeps all earlier elements and adds one at the end, writing at an index makes room for it, removing by index puts the last element there and tells it its new place, and popping and clearing drop only what they should. Copying or assigning yields the same elements in storage of their own, and iteration visits each element once, in order.',
 ['inputs', 'histories'], 'for every sequence of operations, size and growth step', 'the tests append and read a few elements; growth, assignment between different capacities and removal by index are not sampled', ['src/vec.hpp'],
 [('growth', 'Vec::push_back, Vec::operator[]'), ('copies', 'Vec::Vec, Vec::operator='), ('removal', 'Vec::remove')], 'Vec')
prop('C18', 'The priority queue always gives its best element',
 'After any sequence of insertions, removals, key improvements and extractions the priority queue holds exactly the elements inserted and not yet taken out, and taking the first one out gives an element to which no other element in it is preferred. The handle of an element stays valid wherever the element moves: removing or improving by handle concerns that very element. Every internal exchange leaves each element knowing its own place.',
 ['inputs', 'histories'], 'for every order, every sequence of operations and every size, across every growth of the storage', 'no test uses the priority queue', ['src/heap.hpp'],
 [('sifting', 'Heap::heapify, Heap::refloat'), ('operations', 'Heap::insertHeap, Heap::extractMax, Heap::remove, Heap::decrease, Heap::buildHeap'), ('storage', 'Heap::insert')], 'Heap')
prop('C19', 'The work queue returns every element once, in order of arrival',
 'Elements come out of the queue in the order they were put in, each exactly once, whatever the number of wrap-arounds and growths of its storage in between. Size and emptiness agree with what is in it, visiting goes over all elements once in that order, and retracting by handle takes out that very element and keeps all others and their handles.',
 ['inputs', 'histories'], 'for every sequence of operations and every capacity', 'no test uses the queue; wrap-around and growth coincide only in long histories', ['src/queue.hpp'],
 [('operations', 'CQueue::enQueue, CQueue::deQueue, CQueue::retract'), ('growth', 'CQueue::resize'), ('visiting', 'CQueue::doOnAll, CQueue::foldl')], 'CQueue')
prop('C20', 'A hash table finds exactly the entries of the current generation',
 'Looking up a key finds the value last stored under an equal key since the table was last cleared, and nothing if there is none: an entry made before a clear is never seen again, neither by a lookup nor when visiting, although its storage is not wiped. Adding an entry hides no other one, the size is the number of entries, and visiting goes over each entry once. This holds for whatever number of entries the table was asked to make room for.',
 ['inputs', 'histories'], 'for every sequence of insertions, lookups and fewer than 2^32 clears, every hash function (also one that always collides) and every size', 'no test uses a hash table; stale buckets show only when a key falls in a bucket last used before a clear', ['src/hashtable.hpp', 'src/lighthash.hpp'],
 [('lookup', 'Hashtable::get, getLoc, LHashtable::getLoc'), ('insertion', 'insert, safeInsert, safeInsertAt, rawInsertAt'), ('generations', 'clear'), ('visiting', 'doOnAll')], 'Hashtable, LHashtable')
prop('C21', 'Node lists and layers hold exactly the nodes put in them, in order',
 'The list of nodes of a diagram and the array of nodes of a layer hold exactly the nodes added and not removed, in order, whatever the sequence of additions at either end, removals, erasures and clears and however often the array grows. Removing or erasing takes out the given node only and leaves the others linked; the reported size is the number of nodes present, and iteration visits each present node once and no empty place.',
 ['inputs', 'histories'], 'for every sequence of operations', 'no test uses these lists; errors need removal at an end, an erased prefix or growth', ['src/node.hpp', 'src/dd.hpp'],
 [('list', 'ANList::push_back, pop_back, remove'), ('layer', 'NDArray::push_back, push_front, pop_front, erase, eraseSuffix'), ('iteration', 'NDArray::iterator, ANList::iterator')], 'ANList, NDArray')
prop('C22', 'Sets of naturals obey set algebra, whatever their capacity',
 'Both kinds of sets of naturals behave as mathematical sets: after inserting, removing, clearing, complementing within the capacity, uniting, intersecting, subtracting, cutting off above or below a value, copying, moving or assigning, exactly the right elements are members, whatever the elements and whatever the capacities of the sets involved. Membership, emptiness, number of elements and (in)equality depend on the elements only, never on the capacity, and no operation touches storage outside a set or changes its other operand.',
 ['inputs', 'histories'], 'for every element, every content and every pair of capacities', 'tests sample a few elements and rarely sets of different capacity; an error at a word boundary or past the shorter set needs particular elements', ['src/util.hpp'],
 [('growable sets', 'GNSet'), ('fixed-size sets', 'NatSet')], 'GNSet, NatSet')
prop('C24', 'Iterating over a set visits each of its elements once, in order',
 'Going through a set of naturals visits exactly its elements, each once and in increasing order, whatever the elements, the capacity and how the set came about, and stops after the last one without reading outside the storage of the set. The operations over all elements (sum, smallest, largest, k best, filtering) are computed from exactly these elements.',
 ['inputs', 'histories'], 'for every set, every content and every capacity', 'tests iterate over one or two small sets; errors need elements at word boundaries, empty words in between, large elements or a set without storage', ['src/util.hpp'],
 [('growable sets', 'GNSet::begin, GNSet::end and their iterators'), ('fixed-size sets', 'NatSet::begin, NatSet::end and their iterators'), ('folds', 'sum, min, max, filter')], 'begin, end, operator*, operator++')
prop('C23', 'Mirroring a set of naturals gives exactly the mirrored elements',
 'The constructor that mirrors a set of naturals around an offset gives the set of the mirrored elements that are in range, and only those, whatever the offset, the elements and the capacity.',
 ['inputs'], 'for every set, offset and capacity', 'tests mirror no set; errors need particular offsets modulo the word size', ['src/util.hpp'], [('reflection', 'NatSet(const NatSet&, int, int)')],
 na='The words are bit-reversed by constant masks and then moved by amounts that depend on the offset: whether every element ends up in its place is a question about 64-bit words for every shift amount, which only bit-precise (symbolic) evaluation of the paths answers, not a dataflow argument. A defect found while reading it was repaired (see known-findings.txt).')
prop('C25', 'Equal values have equal hash codes',
 'Two sets of naturals, arrays or vectors that are equal have the same hash code, whatever their capacity, history or place in memory; the code is computed from their elements only.',
 ['inputs', 'histories'], 'for every pair of equal values', 'a hash code that depends on capacity or address differs only between values with different histories, and shows as duplicated states', ['src/util.hpp'],
 [('sets', 'GNSet::hash, NatSet::hash'), ('arrays', 'hash<FArray>'), ('vectors', 'hash<vector>')], 'std::hash')
prop('C26', 'Merging disjoint sets keeps one representative per set',
 'A new element is a set of its own; two elements have the same representative exactly if the sets they were put in have been merged, in any order and however often. Merging gives the representative of the merged set, and its size is the number of its elements.',
 ['inputs', 'histories'], 'for every sequence of operations', 'no test uses disjoint sets', ['src/uf.hpp'], [('representative', 'UnionFind::setFor'), ('union', 'UnionFind::merge'), ('elements', 'UnionFind::makeSet')], 'UnionFind')
prop('C27', 'Merge sort orders the array and keeps its elements',
 'After sorting, the array holds the same elements, each as often as before, and none of them comes before one that the given order puts first. This holds for every length, including none and one.',
 ['inputs'], 'for every array, length and order', 'tests sort two or three fixed arrays; errors at particular lengths or with equal elements are not sampled', ['src/msort.hpp'], [('splitting', 'mergeSortAux'), ('merging', 'mergeSortAux')], 'mergeSort')
prop('C28', 'Arrays and matrices keep every element in a cell of its own',
 'An array or matrix of any size has one cell per index, within its own storage, so that writing one element changes no other; copies and assignments have the same elements and dimensions in storage of their own, moves hand the storage over and leave an empty array. Two arrays are equal exactly if they have the same size and elements, and iteration visits each element once, in order.',
 ['inputs', 'histories'], 'for every size, every index and every sequence of copies, moves and assignments', 'no test uses arrays or matrices; index errors show only for matrices with different dimensions, sharing only after a copy', ['src/util.hpp'],
 [('arrays', 'FArray'), ('matrices', 'FMatrix and its proxies')], 'FArray, FMatrix')
prop('C29', 'A range visits, counts and contains the same values',
 'The values visited when going through a range go one by one from its start up or down to its end, the end excluded; the size of the range is how many there are, and it contains exactly these. A closed range includes its end, an increasing one is empty when the end is below the start, and flipping a range visits the same values in the opposite order.',
 ['inputs'], 'for every pair of ends', 'no test uses ranges; descending and empty ranges are the ones that go wrong', ['src/util.hpp'], [('ranges', 'Range and its iterator')], 'Range')
prop('C30', 'Drawing shows the whole diagram and changes nothing',
 'The drawing of a diagram has every node once and every arc, from its tail to its head; drawing leaves the diagram as it was. Displaying draws that diagram and starts helper processes that never carry on as the program itself, even when no viewer can be started.',
 ['programs', 'inputs', 'histories'], 'for every diagram and every outcome of starting the viewer', 'no test draws a diagram or lets a helper fail', ['src/dd.cpp'], [('drawing', 'AbstractDD::saveGraph'), ('helpers', 'AbstractDD::display')], 'AbstractDD::display')
prop('C31', 'The result depends on the model and the options only',
 'Compiling a diagram and searching give the same diagrams, solutions and published values for the same model, width and options: neither the clock, nor random numbers, nor the environment of the process influence anything but what is printed, except through the time limit the user sets.',
 ['programs', 'schedules', 'inputs'], 'for every model, every speed of the machine and every environment', 'tests run quickly and in one environment; an influence of the clock shows only in long searches', ['src/dd.cpp', 'src/dd.hpp', 'src/search.cpp', 'src/pool.hpp', 'src/node.hpp'],
 [('search', 'BAndB::search'), ('clock', 'RuntimeMonitor')], 'BAndB::search')
prop('C32', 'Helpers over standard containers account for every element',
 'The helper functions a model is written with give the mathematical result over the whole container: a sum or a fold takes every element of a set, vector or map in once, in order; a membership test is true exactly if some element passes; the least and the largest element of a set are those of that set, and those of the empty set are the ends of the type; union, intersection, removal and filtering of sets keep exactly the elements they should; and the set made from a range of numbers has exactly these.',
 ['inputs'], 'for every container, every content and every callback', 'no test calls these helpers; an element left out shows only for particular contents, as a wrong transition or cost of a model', ['src/util.hpp'],
 [('sums and folds', 'sum, std::foldl, std::member'), ('extremes', 'std::min, std::max over std::set'), ('set operations', 'operator|, operator&, remove, std::filter, setFrom')], 'sum, filter, remove, setFrom')
prop('C33', 'A time limit ends the search, and is asked with the time since it began',
 'The limit given to setTimeLimit last is the one that counts. Before the search compiles a diagram for a queued node it asks that limit, with the number of milliseconds that have passed since the search began; once the limit says stop, no further diagram is compiled, and the search returns with the incumbent found so far. The elapsed times of RuntimeMonitor are end minus start in the unit of their name (elapsedSince: milliseconds), are never coarser than a millisecond, and are all taken from the clock that cputime() and now() read.',
 ['schedules', 'inputs', 'histories'], 'for every model, limit, number of nodes and speed of the machine', 'no test sets a time limit, and a wrong unit or start shows only in searches that last', ['src/search.cpp', 'src/search.hpp', 'src/RuntimeMonitor.cpp', 'src/RuntimeMonitor.hpp'],
 [('asking the limit', 'BAndB::search, BAndB::setTimeLimit'), ('elapsed times', 'RuntimeMonitor::elapsedMilliseconds, elapsedSeconds, elapsedSince, elapsedSinceMicro')], 'BAndB::search, BAndB::setTimeLimit')
