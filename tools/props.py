"""The properties, in one place: `python3 tools/props.py` regenerates properties.jsonl and MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = 'include/boost/intrusive/'
P = []
def prop(id, title, stmt, over, q, why, files, mech, observe, state=(), note='', na=None):
    P.append(dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=q), why_tests_cant=why,
      anchors=dict(files=[I + f for f in files], mechanism=[dict(name=n, where=I + w) for n, w in mech], state=[dict(name=n, meaning=m, where=I + w) for n, m, w in state], observe_at=observe, hook_needed=None), _note=note, _na=na))

prop('C01', 'A doubly linked list is exactly the sequence its operations describe',
 'After any operation of the doubly linked list (push, pop, insert, erase, clear, assign, splice of every form, remove, unique, reverse, shift, swap), at any valid position or range, of its own or another list, the list holds exactly the elements the documentation says, in that order, read forwards and backwards, with size and emptiness to match. Every returned iterator denotes the documented position, removed elements are the ones documented, and no element outside the documented set is touched.',
 ['inputs', 'programs', 'configurations'], 'every list length, position, range, splice count and element value within the bounds; every operation; hook kinds x link modes x size policies',
 'the tests run each operation on one or two fixed lists of five values at fixed positions; off-by-one behaviour at other positions, lengths or self-splices is never reached',
 ['list.hpp', 'circular_list_algorithms.hpp', 'detail/list_node.hpp', 'detail/list_iterator.hpp'],
 [('link/unlink/transfer/reverse/move on circular double links', 'circular_list_algorithms.hpp'), ('size bookkeeping and splice overloads', 'list.hpp')],
 ['list members: begin/end/rbegin/size/front/back/return values'])
prop('C02', 'Sorting and merging are stable permutations, by comparator calls alone',
 'sort leaves exactly the same elements, ordered by the comparator, with equivalent elements in their original order; merge of two ordered lists leaves all elements of both in the target, ordered, with equivalent elements of the target before those of the source, and empties the source. This holds for doubly and singly linked lists, whatever the list variant, with the default and with a user comparator.',
 ['inputs', 'configurations'], 'every assignment of key values to lists up to the bound, every list variant',
 'tests sort one fixed array of distinct keys; stability and every other permutation are unexamined',
 ['list.hpp', 'slist.hpp'], [('list::sort/merge', 'list.hpp'), ('slist::sort/merge', 'slist.hpp')], ['list and slist iteration after sort/merge'])
prop('C03', 'A singly linked list is exactly the sequence its operations describe',
 'After any operation of the singly linked list (push, pop, insert, erase, their after- forms, clear, assign, every splice, remove, unique, reverse, shift, swap), at any valid position or range, the list holds exactly the documented elements in the documented order with matching size and emptiness. This holds for circular and null-terminated lists, with and without a cached last element, whose last-element accessors always denote the actual last element.',
 ['inputs', 'programs', 'configurations'], 'every length, position, range and element value within the bounds; every operation; circular/linear x cache-last x size policy x hook kind',
 'the tests use fixed five-element lists; cached last, linear lists and self-splices are reached at few positions',
 ['slist.hpp', 'circular_slist_algorithms.hpp', 'linear_slist_algorithms.hpp', 'detail/common_slist_algorithms.hpp', 'detail/slist_iterator.hpp'],
 [('priv_* splice/incorporate/erase helpers and cached last', 'slist.hpp'), ('circular and linear algorithms', 'circular_slist_algorithms.hpp')], ['slist members: iteration, size, front/back/last, return values'],
 state=[('cached last node', 'pointer to the last node when cache_last is on', 'slist.hpp')])
prop('C05', 'The list node algorithms keep every ring and chain well formed',
 'The public node algorithms for circular doubly linked, circular singly linked and null-terminated lists (link, unlink, transfer, swap, reverse, move/rotate, count, predecessor and successor queries, detach and dispose, partition) leave exactly the documented rings or chains, for any nodes of the same or different lists. No other node changes.',
 ['inputs', 'programs', 'configurations'], 'every ring/chain size and every node choice within the bounds',
 'tests call each algorithm once on a hand-built three or four node ring',
 ['circular_list_algorithms.hpp', 'circular_slist_algorithms.hpp', 'linear_slist_algorithms.hpp', 'detail/common_slist_algorithms.hpp'],
 [('node algorithms', 'circular_list_algorithms.hpp')], ['node next/previous pointers through the node traits'])
TREES = ['bstree.hpp', 'bstree_algorithms.hpp', 'rbtree.hpp', 'rbtree_algorithms.hpp', 'avltree.hpp', 'avltree_algorithms.hpp', 'splaytree.hpp', 'splaytree_algorithms.hpp', 'sgtree.hpp', 'sgtree_algorithms.hpp', 'treap.hpp', 'treap_algorithms.hpp']
prop('C06', 'Ordered containers hold exactly the inserted, not yet erased elements, in order',
 'After any sequence of insertions (plain, hinted, positional, range) and erasures (by iterator, range, key, key with comparator, with or without disposer) on any tree-based container of any balancing family, forward and backward iteration yield exactly the elements inserted and not erased, ordered by key, with equivalent elements in the documented insertion position, and size and emptiness agree. The tree they are read from is structurally sound: every child knows its parent, and begin, end and root are consistent.',
 ['inputs', 'histories', 'configurations'], 'every valid tree shape of the family up to the bound as pre-state, every key value, hint and position; every history of operations from empty up to a length bound; six families x four hook/option configurations',
 'tests run a fixed insertion order of a handful of keys; each rotation, hint and double-deletion case beyond those is unvisited',
 TREES, [('insert/erase and commit machinery', 'bstree_algorithms.hpp'), ('per-family rebalancing', 'rbtree_algorithms.hpp')], ['iteration, size, return values', 'node parent/left/right through the node traits'],
 state=[('header', 'parent=root, left=leftmost, right=rightmost', 'bstree_algorithms.hpp')])
prop('C07', 'Unique insertion inserts exactly when no equivalent key is present',
 'For every unique ordered container, insertion (plain, hinted, with insert_check and commit by value, key or key and comparator, and their hinted forms) succeeds exactly when no equivalent element is present, otherwise returns the equivalent element and changes nothing. A commit after a successful check places the element at its sorted position, whatever the hint; positional insertion at a correct position behaves as documented.',
 ['inputs', 'histories', 'configurations'], 'every valid tree up to the bound, every key and hint, six families x three configurations',
 'tests try a duplicate and a hint or two; the interaction of hint position, key order and shape is quantified over',
 TREES, [('insert_unique_check/insert_unique_commit', 'bstree_algorithms.hpp')], ['return values, iteration'])
prop('C08', 'Ordered lookup returns the documented position for every key',
 'find, count, lower_bound, upper_bound, equal_range, bounded_range and the node-level lookups return exactly the range that a linear scan of the ordered sequence would select, for every key, present or not, with the default comparator and a heterogeneous one, in const and non-const form and on every tree family. Looking up never changes the sequence of elements.',
 ['inputs', 'configurations'], 'every valid tree shape up to the bound with arbitrary (possibly equal) keys; every pair of query keys',
 'tests query a couple of present keys in one tree; absent keys, duplicates spread over subtrees and half-open bounds are not covered',
 TREES, [('lower_bound/upper_bound/equal_range/bounded_range/find/count', 'bstree_algorithms.hpp')], ['returned iterators and counts'])
prop('C09', 'Red-black containers stay red-black trees',
 'After every insertion, erasure, merge, swap, replacement and unlinking in the red-black containers the root is black, no red node has a red child, and every path from the root to a leaf passes the same number of black nodes, with colours stored inside or beside the pointers.',
 ['inputs', 'histories', 'configurations'], 'every red-black tree shape and colouring up to the bound as pre-state, every operation position and key',
 'the balance is never visible to value-level tests, and each rebalancing case needs a specific shape',
 ['rbtree.hpp', 'rbtree_algorithms.hpp', 'bstree_algorithms.hpp', 'detail/rbtree_node.hpp'], [('rebalance_after_insertion/erasure', 'rbtree_algorithms.hpp')], ['node colours and links through the node traits'])
prop('C10', 'AVL containers stay AVL trees with correct balance factors',
 'After every insertion, erasure, merge, swap, replacement and unlinking in the AVL containers, the heights of the two subtrees of every node differ by at most one and the stored balance of every node records their actual difference, with the balance stored inside or beside the pointers.',
 ['inputs', 'histories', 'configurations'], 'every AVL shape up to the bound as pre-state, every operation position and key',
 'the balance is never visible to value-level tests, and double rotations with each inner balance need specific shapes',
 ['avltree.hpp', 'avltree_algorithms.hpp', 'bstree_algorithms.hpp', 'detail/avltree_node.hpp'], [('rebalance_after_insertion/erasure', 'avltree_algorithms.hpp')], ['node balance and links through the node traits'])
prop('C11', 'Splay containers bring the accessed element to the root and keep the order',
 'In the splay containers every non-const lookup (find, lower and upper bound, count, equal and bounded ranges), explicit splaying of an element or of a key, and positional insertion leaves the accessed element, or for an absent key one of its neighbours in the order, at the root, and never changes the in-order sequence. Const lookups leave the tree untouched.',
 ['inputs', 'configurations'], 'every binary tree shape up to the bound, every node and key',
 'tests check the iteration only; the root after splaying depends on the zig/zig-zig/zig-zag case mix of each path',
 ['splaytree.hpp', 'splaytree_algorithms.hpp'], [('splay_up, splay_down, assemble', 'splaytree_algorithms.hpp')], ['root(), iteration'])
prop('C12', 'Scapegoat containers stay within their height bound',
 'In the scapegoat containers the height never exceeds the documented logarithmic bound for the configured balance factor and the largest size since the last full rebuild, whatever the order of insertions and erasures; after erasures it stays within one level of the bound for the current size, and setting the balance factor, rebalancing, shrinking, cloning and swapping keep this so.',
 ['inputs', 'histories', 'configurations'], 'every admissible tree as pre-state up to the bound, all insertion/erasure positions; two balance-factor implementations',
 'the height is not observable at value level; degenerate shapes appear only in particular insertion orders',
 ['sgtree.hpp', 'sgtree_algorithms.hpp', 'detail/math.hpp'], [('rebalance_after_insertion, erase with max size', 'sgtree_algorithms.hpp'), ('h_alpha and alpha_by_max_size tables', 'sgtree.hpp')], ['depth through node traits'],
 state=[('max_tree_size_', 'largest size since the last rebuild', 'sgtree.hpp')])
prop('C13', 'Treap containers stay heap ordered by priority',
 'After every insertion, erasure, merge, swap and replacement in the treap containers, no element has higher priority than its parent, while the elements remain ordered by key.',
 ['inputs', 'histories', 'configurations'], 'every heap-ordered tree up to the bound, every priority and key of the operation',
 'tests use priorities correlated with the values, so few rotation patterns occur',
 ['treap.hpp', 'treap_algorithms.hpp', 'priority_compare.hpp'], [('rebalance_after_insertion_commit, rebalance_for_erasure', 'treap_algorithms.hpp')], ['node links through node traits, priorities'])
prop('C16', 'Tree surgery on nodes changes exactly the documented links',
 'Swapping two nodes (of one tree, adjacent or not, or of two trees), replacing a node, swapping whole trees, unlinking without a container, rebalancing a tree or subtree, and predecessor, successor and header queries behave on every tree as if performed on the element sequence, keep all links consistent, and preserve the balancing metadata of the family.',
 ['inputs', 'programs', 'configurations'], 'every pair of nodes in every valid tree (and pair of trees) up to the bound; six families',
 'node swaps have a dozen adjacency cases (parent/child, sibling, root, extreme) and tests exercise one or two',
 TREES, [('swap_nodes, replace_node, swap_tree, rebalance', 'bstree_algorithms.hpp')], ['iteration, node links'])
prop('C17', 'Merging ordered containers moves exactly the elements the target accepts',
 'merge between any two containers of a family, unique or multi, with the same or another comparator, leaves in the source exactly the elements the target refused because it held an equivalent one, moves all others without copying them, keeps both ordered, and keeps equivalent moved elements after those of the target and in their order.',
 ['inputs', 'configurations'], 'every pair of valid trees up to the bound with arbitrary keys',
 'tests merge two fixed sets; the outcome depends on the pattern of equal keys in both',
 TREES, [('merge, merge_unique, merge_equal, transfer_*', 'bstree_algorithms.hpp')], ['iteration and size of both containers'])
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props2.py')).read())
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props3.py')).read())

NOTE = 'bounded symbolic execution of the compiled headers: every value of every symbolic input within the stated bounds is decided by z3, each counterexample is replayed on the real code; trusts clang-18 -O1 lowering, the executor (validated natively on sampled paths each run) and the harness specification'
if __name__ == '__main__':
    sys.path.insert(0, HERE)
    import checks as C
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
            assert len(p['title']) <= 80, p['title']
            assert p['statement'].count('. ') <= 2, p['id']
            for x in p['anchors']['files'] + [m['where'] for m in p['anchors']['mechanism']]: assert os.path.exists('/repo/' + x), x
    man = dict(version=1, setup_cmd='symx/build.sh', checks=[], not_applicable=[], notes='No hooks in /repo: the checks compile /repo/include as it is. Known findings and fixes: known_findings.json. See DESIGN.md.')
    for p in P:
        if p['id'] in C.CHECKS:
            man['checks'].append(dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'], technique=C.TECHNIQUE, level='model_checking', level_note=p['_note'] or NOTE))
        else:
            man['not_applicable'].append(dict(property=p['id'], reason=p['_na'] or 'no check yet'))
    json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties', len(man['checks']), 'checks', [x['property'] for x in man['not_applicable']])
