prop('C25', 'Cloning yields an equal container or, if the cloner throws, an empty one',
 'clone_from of every container, from an lvalue or rvalue source and with any previous contents, disposes exactly the previous elements once each, calls the cloner once per source element in order and leaves the source unchanged and the target with exactly the clones in the same order (same groups and lookups for hash containers), copying the functors. If the cloner throws at any call, the target is empty and usable and each clone made so far has been disposed exactly once.',
 ['inputs', 'fault schedules', 'configurations'], 'every source up to the bound, every throw point of the cloner, every previous content; lists, slists, six tree families, ' + HCFG,
 'the test suite never throws from a cloner and checks clones by iteration only, so header extremes, cached tails, sizes and bucket caches of clones are unchecked',
 ['list.hpp', 'slist.hpp', 'bstree.hpp', 'bstree_algorithms.hpp', 'sgtree.hpp', 'treap.hpp', 'hashtable.hpp', 'detail/exception_disposer.hpp'],
 [('clone_from', 'list.hpp'), ('clone, clone_subtree', 'bstree_algorithms.hpp'), ('clone_from, exception_disposer', 'hashtable.hpp')], ['iteration, lookups, sizes, calls of cloner and disposer'])
prop('C27', 'An exception of a user functor leaves every container as documented',
 'When a comparison, priority, hash, equality or predicate functor throws at any of its calls, the exception reaches the caller of every operation documented to throw; single insertions and checks then leave the container and the element untouched (strong guarantee), and the other operations leave every element in at most one container, linked if and only if contained, disposed only if removed, with all invariants intact. The container works as before afterwards.',
 ['inputs', 'fault schedules', 'configurations'], 'every throw point of every functor, every container state up to the bound; ' + HCFG,
 'the test suite has no throwing functor at all',
 ['list.hpp', 'slist.hpp', 'bstree.hpp', 'sgtree.hpp', 'treap.hpp', 'treap_algorithms.hpp', 'hashtable.hpp'],
 [('stable_partition with exception-safe info', 'list.hpp'), ('rerotate_on_destroy', 'treap_algorithms.hpp'), ('exception_bucket_disposer, incremental_rehash_rollback', 'hashtable.hpp')], ['iteration, sizes, hook states, lookups'])
prop('C29', 'Swap and move transfer a whole container; construction and destruction are exact',
 'Swapping (member and free function) and move assignment exchange contents, order, size, comparison, priority, hash and equality objects, balance factor, bucket arrays and split counts of two containers, keep iterators valid, and leave both fully usable; move construction transfers them and leaves list and tree sources empty and usable. Range constructors insert exactly the range under the container\'s rules, and destroying a safe-mode or auto-unlink container leaves exactly its elements unlinked.',
 ['inputs', 'operation histories', 'configurations'], 'every pair of containers up to the bound, every transfer form, operations on both afterwards; ' + HCFG,
 'the test suite swaps a few concrete containers with stateless functors, so state left behind in either container goes unnoticed',
 ['list.hpp', 'slist.hpp', 'bstree.hpp', 'sgtree.hpp', 'treap.hpp', 'hashtable.hpp', 'unordered_set.hpp'],
 [('swap, move constructor and assignment', 'bstree.hpp'), ('priv_swap_cache_last', 'slist.hpp'), ('swap, operator=', 'sgtree.hpp'), ('swap, move constructor, bucket_traits_impl', 'hashtable.hpp')], ['iteration, sizes, functor observers, bucket observers, hook states'])
prop('C31', 'Comparison operators agree with the contents they compare',
 'For lists, slists and ordered containers == holds exactly when both sequences have equal length and pairwise equal elements, and <, >, <=, >= are the lexicographical order. Hash containers are equal exactly when every element occurs equally often in both, whatever their bucket counts, insertion orders and size options, also when element equality is finer than key equivalence.',
 ['inputs', 'configurations'], 'every pair of containers up to the bound with symbolic keys and payloads; ' + HCFG,
 'the test suite compares a few concrete containers; unequal groups, subsets and linear-size containers never occur',
 ['list.hpp', 'slist.hpp', 'bstree.hpp', 'hashtable.hpp', 'unordered_set.hpp', 'detail/algorithm.hpp'],
 [('operator==', 'hashtable.hpp'), ('operator==', 'unordered_set.hpp'), ('algo_equal, algo_lexicographical_compare', 'detail/algorithm.hpp')], ['the six operators'])
prop('C28', 'Iterators denote and traverse exactly the elements of their container',
 'Forward, backward, reverse, constant and local iteration visit exactly the contents in order, all copies, conversions, assignments, increments and comparisons of iterators agree, and iterator_to and its static and local forms return the iterator of the given element. The container is recovered from its end iterator or from any tree iterator, and the structural navigation of trees follows the links.',
 ['inputs', 'configurations'], 'every container and tree shape up to the bound, every position, every iterator form; ' + HCFG,
 'the test suite iterates a few concrete containers; tree shapes, header links and conversions at every position are not covered',
 ['detail/list_iterator.hpp', 'detail/slist_iterator.hpp', 'detail/tree_iterator.hpp', 'hashtable.hpp', 'detail/reverse_iterator.hpp', 'list.hpp', 'slist.hpp', 'bstree.hpp', 'bstree_algorithms.hpp'],
 [('operators', 'detail/tree_iterator.hpp'), ('next_node, prev_node, get_header', 'bstree_algorithms.hpp'), ('hashtable_iterator', 'hashtable.hpp'), ('container_from_iterator', 'bstree.hpp')], ['all iterator operations'])
prop('C32', 'Every hook kind works with every container; nothing but the hook is touched',
 'Base hooks told apart by tags, member hooks, any hooks, function hooks, derivation, member and stateful value traits all locate the right hook: every container works with each of them, and several containers can hold the same elements through different hooks, or one any hook in turn, without influencing each other. A container never modifies anything of an element but the hook it was given.',
 ['inputs', 'operation histories', 'configurations'], 'every history of the bounded length over two containers sharing elements, symbolic payload bytes around the hooks; eight ways to locate the hook times nine containers',
 'the test suite checks each hook kind with ordinary contents only; interference with another hook or the payload is never observed',
 ['detail/generic_hook.hpp', 'any_hook.hpp', 'detail/any_node_and_algorithms.hpp', 'detail/get_value_traits.hpp', 'derivation_value_traits.hpp', 'member_value_traits.hpp', 'detail/parent_from_member.hpp', 'detail/hook_traits.hpp'],
 [('bhtraits, mhtraits, fhtraits', 'detail/hook_traits.hpp'), ('any_node_traits', 'detail/any_node_and_algorithms.hpp'), ('stateful iiterator_members', 'detail/iiterator.hpp')], ['iteration, lookups, every byte of the payload, is_linked'])
prop('C24', 'Safe-link and auto-unlink hooks know whether they are linked and detect misuse',
 'is_linked tells exactly whether the element is contained, after every insertion, removal, hook copy, assignment or destruction of elements and containers; an auto-unlink hook leaves its container on unlink and on destruction, keeping the others in order. In safe mode inserting a linked element or destroying one raises the documented assertion, and swapping two hooks exchanges the positions of their elements, also when only one of them is inserted.',
 ['inputs', 'operation histories', 'configurations'], 'every history of the bounded length, every pair of elements in two containers, every insertion form; nine containers, base, member and any hooks, packed nodes, stored hashes and groups',
 'the test suite checks is_linked after a few operations, never provokes the safe-mode assertions and swaps only two inserted nodes of simple hooks',
 ['detail/generic_hook.hpp', 'any_hook.hpp', 'unordered_set_hook.hpp', 'bstree_algorithms.hpp', 'rbtree_algorithms.hpp', 'avltree_algorithms.hpp', 'circular_list_algorithms.hpp', 'circular_slist_algorithms.hpp'],
 [('destructor_impl, is_linked, unlink, swap_nodes', 'detail/generic_hook.hpp'), ('unordered_algorithms', 'unordered_set_hook.hpp'), ('swap_nodes', 'bstree_algorithms.hpp'), ('BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT', 'list.hpp')], ['is_linked', 'iteration', 'assertion handler'])
prop('C26', 'Disposing operations dispose exactly the removed elements, once, after removal',
 'Every operation taking a disposer calls it exactly once for each element it removes and for no other, with the element intact and already unlinked, so that the disposer may destroy the element and reuse its memory or insert it into another container. The remaining elements, their order and the return value are those of the corresponding operation without disposer.',
 ['inputs', 'configurations'], 'every container up to the bound, every position, range and key; the disposer scribbles over the storage or moves the element; ' + HCFG,
 'the test suite disposes with counting or empty disposers, so a read of a disposed element goes unnoticed',
 ['list.hpp', 'slist.hpp', 'bstree.hpp', 'treap.hpp', 'sgtree.hpp', 'splaytree.hpp', 'hashtable.hpp', 'detail/node_cloner_disposer.hpp', 'detail/common_slist_algorithms.hpp'],
 [('erase_and_dispose, clear_and_dispose, unique_and_dispose', 'list.hpp'), ('unlink_after_and_dispose, detach_and_dispose', 'detail/common_slist_algorithms.hpp'), ('clear_and_dispose, dispose_subtree', 'bstree_algorithms.hpp'), ('erase_and_dispose', 'hashtable.hpp')], ['disposer calls, element bytes, hook state'])
prop('C35', 'Containers with offset pointers work and survive relocation of their memory',
 'With hooks storing offset_ptr every container, including packed red-black and AVL nodes and hash tables with stored hashes, groups and cached positions, behaves as with raw pointers. A memory block holding the container, its buckets and its elements can be copied to another address at any time and the copy continues to work there, with nothing referring to the old block.',
 ['inputs', 'operation histories', 'configurations'], 'every history of the bounded length with relocations to two kinds of addresses in between, the old block is destroyed',
 'the test suite uses offset pointers only at fixed addresses',
 ['pointer_traits.hpp', 'pointer_rebind.hpp', 'detail/rbtree_node.hpp', 'detail/avltree_node.hpp', 'pointer_plus_bits.hpp', 'unordered_set_hook.hpp', 'hashtable.hpp', 'slist.hpp'],
 [('compact_rbtree_node_traits_impl', 'detail/rbtree_node.hpp'), ('bucket_traits_impl', 'hashtable.hpp'), ('header_holder, cache_last', 'slist.hpp')], ['iteration, lookups, element addresses'])
prop('C23', 'The default hash functor agrees with equality for every key',
 'For every built-in key type (integers of every width, enumerations, pointers, floating point numbers including zeros of both signs, arrays of them) and for classes hashed through hash_value or boost::hash, equal keys have equal default hashes. So unordered containers with the default functors find an element exactly when an equal one was inserted, keep equal keys in one group, and unique containers reject them.',
 ['inputs'], 'every value of each key type, hence every pair of equal keys',
 'the test suite hashes a few integers; signed zeros, negative enumerators, wide characters and pointers never meet as keys',
 ['detail/hash.hpp', 'detail/hash_integral.hpp', 'detail/hash_combine.hpp', 'detail/hash_mix.hpp', 'hashtable.hpp'],
 [('hash_value, hash_value_dispatch, internal_hash_functor', 'detail/hash.hpp'), ('hash_integral_impl', 'detail/hash_integral.hpp')], ['hash_function(), find, count, bucket, insert'], note='long double and 128-bit integers are outside: the executor has no 80-bit floating point')
prop('C33', 'Extra bits stored in a pointer never disturb it, nor it them',
 'pointer_plus_bits returns exactly the pointer and the bits stored last, for every aligned address and every bit value, and max_pointer_plus_bits announces exactly the bits that an alignment leaves free. Tree nodes, compact or not, keep parent, children and colour or balance independently of each other.',
 ['inputs', 'configurations'], 'every address and bit value for 1 to 3 bits, every sequence of two changes to a node',
 'the test suite never inspects compact nodes, whose fields share a word',
 ['pointer_plus_bits.hpp', 'detail/rbtree_node.hpp', 'detail/avltree_node.hpp'],
 [('get_pointer, set_pointer, get_bits, set_bits', 'pointer_plus_bits.hpp'), ('compact_rbtree_node_traits_impl', 'detail/rbtree_node.hpp'), ('compact_avltree_node_traits_impl', 'detail/avltree_node.hpp')], ['pointer and bits read back'])
prop('C34', 'Balance thresholds of scapegoat trees are exact for every size',
 'The height bound of a scapegoat tree with fixed balance factor is floor(log(n)/log(sqrt 2)) for every size n and its rebuild threshold is three quarters of the maximum size without overflow; the integer logarithm and power helpers behind them and behind tree rebalancing are exact for every 64-bit value.',
 ['inputs'], 'every 64-bit size',
 'the test suite uses trees of at most a few hundred elements; the thresholds at large powers of two are never computed',
 ['sgtree.hpp', 'detail/math.hpp'],
 [('calculate_h_sqrt2, alpha_0_75_by_max_size_t', 'sgtree.hpp'), ('floor_log2, ceil_log2, ceil_pow2, sqrt2_pow_2xplus1', 'detail/math.hpp')], ['the computed thresholds'], note='thresholds with a run-time balance factor use floating point logarithms and are judged only through the tree heights of C12')
prop('C39', 'User functors are called no more often than the documented complexity allows',
 'List remove and remove_if call their functor exactly size() times, unique size()-1 times, merge at most size()+x.size()-1 times and sort at most N log N times. Tree lookups and insertions compare once per level of one descent (equal_range and count twice; splay trees about three times), a correct hint costs a constant number, range construction from sorted input is linear, and erasing through an iterator, positional insertion, clearing, cloning and swapping compare nothing. Hash operations hash their key once, compare it only with elements of its bucket and never recompute stored hashes, and splaying about halves the depth of the nodes on the accessed path.',
 ['inputs', 'configurations'], 'every container state up to the bound, symbolic keys, priorities and hash values; ' + HCFG,
 'the test suite never counts functor calls, and a container that has become linear still gives right answers',
 ['list.hpp', 'slist.hpp', 'bstree.hpp', 'bstree_algorithms.hpp', 'splaytree_algorithms.hpp', 'treap_algorithms.hpp', 'sgtree_algorithms.hpp', 'hashtable.hpp'],
 [('merge, sort, remove_if, unique', 'list.hpp'), ('lower_bound_loop, insert_equal (hint), insert_unique_check (hint)', 'bstree_algorithms.hpp'), ('splay_up, splay_down', 'splaytree_algorithms.hpp'), ('priv_find, full_rehash_impl', 'hashtable.hpp')], ['number of functor calls', 'depth of nodes'])
prop('C41', 'check() passes every intact container and asserts on every corrupted one',
 'The integrity check of lists, slists and tree containers asserts when a link, the cached size, the cached last element, the order of the keys, a colour, a balance factor or a priority is not what the container\'s invariant requires, and never on an intact container. An extra checker given to it sees every element once, children first, with the results of exactly its two subtrees.',
 ['inputs', 'configurations'], 'every list up to the bound with any one link redirected or any run of elements dropped or added; every tree shape with any keys, colours, balances or priorities, any parent or header link redirected, any subtree cut off',
 'the test suite only calls check() on intact containers, so a check that never asserts passes it',
 ['list.hpp', 'slist.hpp', 'bstree.hpp', 'bstree_algorithms.hpp', 'rbtree_algorithms.hpp', 'avltree_algorithms.hpp', 'treap.hpp', 'treap_algorithms.hpp'],
 [('check', 'list.hpp'), ('check', 'slist.hpp'), ('bstree_node_checker, check_subtree', 'bstree_algorithms.hpp'), ('rbtree_node_checker', 'rbtree_algorithms.hpp'), ('avltree_node_checker', 'avltree_algorithms.hpp'), ('treap_node_extra_checker', 'treap_algorithms.hpp')], ['assertion handler'])
prop('C40', 'Containers keyed by key_of_value order, hash and find by the extracted key',
 'With key_of_value (and priority_of_value) every ordered and hash container sorts, groups, hashes and rejects duplicates by what the functor extracts from an element, by reference or by value, and nothing else. All lookups, insertions, erasures, insert_check and merge accept keys, elements and unrelated key types alike and give the results that C06, C07, C08, C17, C18 and C20 require; key_comp, value_comp and priority_comp judge as the container does.',
 ['inputs', 'configurations', 'operation histories'], 'every container state up to the bound with symbolic keys and priorities, extracted as a base class reference or as a computed object of another type; ' + HCFG,
 'the test suite extracts an int that is also what elements compare by, on fixed sequences',
 ['detail/tree_value_compare.hpp', 'detail/key_nodeptr_comp.hpp', 'detail/equal_to_value.hpp', 'bstree.hpp', 'treap.hpp', 'sgtree.hpp', 'splaytree.hpp', 'hashtable.hpp', 'priority_compare.hpp'],
 [('tree_value_compare', 'detail/tree_value_compare.hpp'), ('key_nodeptr_comp', 'detail/key_nodeptr_comp.hpp'), ('bstree_key_types, insert_unique_check', 'bstree.hpp'), ('treap_prio_types, insert_unique_check', 'treap.hpp'), ('key_equal, key_hasher, priv_hash', 'hashtable.hpp')], ['results of the functors and operations'])
