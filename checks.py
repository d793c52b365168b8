TECHNIQUE = 'symbolic execution of the real headers (clang-18 bitcode) with z3 deciding every branch, address and assertion'
ASSUMPTIONS = ['clang-18 -O1 lowering of the harness and headers is faithful', 'allocation never fails', 'single-threaded execution', 'objects live in separate allocations with red zones']
RUNNERS = {}
CHECKS = {
 'C01': dict(units=[dict(name='list_v%d' % v, src='list.cpp', defs=['-DVAR=%d' % v]) for v in range(4)], bounds={'quick': 'lists of 0..6 elements plus a second list of 0..5', 'thorough': 'lists of 0..8 elements plus a second list of 0..7'}),
 'C03': dict(units=[dict(name='slist_v%d' % v, src='slist.cpp', defs=['-DVAR=%d' % v]) for v in range(8)], bounds={'quick': 'lists of 0..6 elements plus a second list of 0..5', 'thorough': 'lists of 0..8 elements plus a second list of 0..7'}),
 'C02': dict(units=[dict(name='sort_v%d' % v, src='sort.cpp', defs=['-DVAR=%d' % v]) for v in (0,1,8,9,10,11,12,13,14,15)], bounds={'quick': 'sort of 0..8 elements with any keys and of selected sizes up to 40 with one displaced key, merge of 0..6 with 0..6 elements', 'thorough': 'merge of 0..7 with 0..7 elements'}),
 'C05': dict(units=[dict(name='nodealgo_v%d' % v, src='nodealgo.cpp', defs=['-DVAR=%d' % v]) for v in range(3)], bounds={'quick': 'rings/chains of 1..8 nodes, two at a time', 'thorough': 'rings/chains of 1..10 nodes, two at a time'}),
 'C06': dict(units=[dict(name='tree%d_c%d' % (t, c), src='tree_ops.cpp', defs=['-DTREE=%d' % t, '-DCFG=%d' % c]) for t in range(6) for c in range(4)], bounds={'quick': 'pre-state trees of 0..9 (rb, avl), 0..6 (splay, sg, bs), 0..5 (treap) elements, histories of 4 operations (treap 3) from empty, ranges of 0..4 elements', 'thorough': 'pre-state trees of 0..11 (rb, avl), 0..8, 0..5 (treap) elements, histories of 5 (treap 4)'}),
 'C08': dict(units=[dict(name='find%d_c%d' % (t, c), src='tree_find.cpp', defs=['-DTREE=%d' % t, '-DCFG=%d' % c]) for t in range(6) for c in (0,1,2)], bounds={'quick': 'trees of 0..6 (rb, avl), 0..5, 0..4 (treap) elements with 16-bit keys', 'thorough': 'trees of 0..9 (rb, avl), 0..7, 0..5 (treap) elements'}),
 'C07': dict(units=[dict(name='uniq%d_c%d' % (t, c), src='tree_uniq.cpp', defs=['-DTREE=%d' % t, '-DCFG=%d' % c]) for t in range(6) for c in (0,1,2)], bounds={'quick': 'pre-state trees of 0..8 (rb, avl), 0..6, 0..4 (treap) elements, histories of 4 operations (treap 3)', 'thorough': 'pre-state trees of 0..10 (rb, avl), 0..7, 0..5 (treap) elements, histories of 5 (treap 4)'}),
 'C11': dict(units=[dict(name='splay_c%d' % c, src='splay.cpp', defs=['-DCFG=%d' % c]) for c in (0,1,2)], bounds={'quick': 'trees of 0..8 elements', 'thorough': 'trees of 0..9 elements'}),
 'C12': dict(units=[dict(name='sg_c%d' % c, src='sg.cpp', defs=['-DCFG=%d' % c]) for c in (0,1,2)], bounds={'quick': 'pre-state trees of 0..7 elements, up to 2 erasures and 2 insertions from each; growth of 6 elements from empty in every order; monotone growth to 28 with five balance factors', 'thorough': 'pre-state trees of 0..9 elements'}),
 'C16': dict(units=[dict(name='surg%d_c%d' % (t, c), src='tree_surg.cpp', defs=['-DTREE=%d' % t, '-DCFG=%d' % c]) for t in range(6) for c in (0,1,2)], bounds={'quick': 'trees of 0..8 (rb, avl), 0..6, 0..4 (treap) elements, second trees of 0..5 (rb, avl) / 0..4', 'thorough': 'trees of 0..9 (rb, avl), 0..7, 0..5 (treap) elements'}),
 'C17': dict(units=[dict(name='merge%d_c%d' % (t, c), src='tree_merge.cpp', defs=['-DTREE=%d' % t, '-DCFG=%d' % c]) for t in range(6) for c in (0,1,2)], bounds={'quick': 'two trees of 0..4 (rb, avl), 0..3, 0..2 (treap) elements', 'thorough': 'two trees of 0..5 (rb, avl), 0..4, 0..3 (treap) elements'}),
}
def _inv(t):
    r = []
    for f, n in (('tree_ops', 'ops'), ('tree_uniq', 'uniq'), ('tree_merge', 'merge'), ('tree_surg', 'surg')):
        for c in (0, 1, 2, 3):
            if n != 'ops' and c == 3: continue
            r.append(dict(name='%s%d_c%d' % (n, t, c), src=f + '.cpp', defs=['-DTREE=%d' % t, '-DCFG=%d' % c, '-DWHAT=2']))
    for c in (0, 2): r.append(dict(name='deep%d_c%d' % (t, c), src='tree_deep.cpp', defs=['-DTREE=%d' % t, '-DCFG=%d' % c, '-DWHAT=2']))
    return r
CHECKS['C09'] = dict(units=_inv(0), bounds={k: {'quick': 'one positional insertion or erasure from every red-black tree of 0..15 elements; ', 'thorough': 'one positional insertion or erasure from every red-black tree of 0..17 elements; '}[k] + '; '.join([CHECKS[c]['bounds'][k] for c in ('C06', 'C07', 'C16', 'C17')]) for k in ('quick', 'thorough')})
CHECKS['C10'] = dict(units=_inv(1), bounds={k: {'quick': 'one positional insertion or erasure from every AVL tree of 0..18 elements; ', 'thorough': 'one positional insertion or erasure from every AVL tree of 0..21 elements; '}[k] + '; '.join([CHECKS[c]['bounds'][k] for c in ('C06', 'C07', 'C16', 'C17')]) for k in ('quick', 'thorough')})
CHECKS['C13'] = dict(units=_inv(4), bounds={k: {'quick': 'one positional insertion or erasure from every treap of 0..8 elements; ', 'thorough': 'one positional insertion or erasure from every treap of 0..9 elements; '}[k] + '; '.join([CHECKS[c]['bounds'][k] for c in ('C06', 'C07', 'C16', 'C17')]) for k in ('quick', 'thorough')})

def _h(src, cfgs, **kw):
    return [dict(name='%s_h%d' % (src, c), src=src + '.cpp', defs=['-DHCFG=%d' % c], **kw) for c in cfgs]
CHECKS['C18'] = dict(units=_h('hash_ops', range(13)), bounds={'quick': 'tables of 3/4 buckets with up to 3 elements plus one', 'thorough': 'up to 4 elements plus one'})
CHECKS['C18']['bounds'] = {'quick': 'tables of 3 (mod, fastmod) or 4 (power of two) buckets, up to 4 elements plus one, histories of 4 operations, 16-bit (mod) or 64-bit (power of two) arbitrary hashes', 'thorough': 'up to 5 elements plus one'}
CHECKS['C19'] = dict(units=_h('hash_group', range(13)), bounds={'quick': '6 elements over two keys', 'thorough': '7 elements over two keys'})
CHECKS['C20'] = dict(units=_h('hash_rehash', range(13)), bounds={'quick': 'bucket counts 1,2,4,8 / 1,2,3,6 / 3,7,11,17 in both directions, up to 4 (power of two) or 3 elements', 'thorough': 'up to 5 or 4 elements'})
CHECKS['C21'] = dict(units=[dict(name='hash_index', src='hash_index.cpp', defs=['-DWHAT=21'])], bounds={k: 'every 64-bit hash; fastmod: all 64 supported counts (exact remainder proved for the 31 below 2^31); modulo: 14 bucket counts from 1 to 100; powers of two up to 128; incremental tables up to 64 buckets at every split' for k in ('quick', 'thorough')})
CHECKS['C22'] = dict(units=[dict(name='hash_suggest', src='hash_index.cpp', defs=['-DWHAT=22'])], bounds={k: 'every value of a 64-bit and of a 16-bit size_type; primality of the first 12 (thorough: 20) supported counts' for k in ('quick', 'thorough')})

CHECKS['C25'] = dict(units=[dict(name='clone_l%d' % v, src='clone.cpp', defs=['-DKIND=0', '-DVAR=%d' % v]) for v in range(4)] + [dict(name='clone_s%d' % v, src='clone.cpp', defs=['-DKIND=1', '-DVAR=%d' % v]) for v in range(8)]
    + [dict(name='clone_t%d_c%d' % (t, k), src='clone.cpp', defs=['-DKIND=2', '-DTREE=%d' % t, '-DCFG=%d' % k]) for t in range(6) for k in (0, 1, 2)] + [dict(name='clone_h%d' % h, src='clone.cpp', defs=['-DKIND=3', '-DHCFG=%d' % h]) for h in range(13)],
    bounds={'quick': 'sources of 0..6 elements (lists), 0..9 (rb, avl), 0..6, 0..5 (treap), 0..4 (hash; fastmod 3), targets of 0..2, the cloner throws at any call or never', 'thorough': 'lists of 0..8, trees of one element more'})
_noassert = ['-DBOOST_DISABLE_ASSERTS'] # the debug assertions of insert_unique_commit call the predicate inside a noexcept function: see the finding on unit exc_asserted
CHECKS['C27'] = dict(units=[dict(name='exc_l%d' % v, src='exc.cpp', defs=['-DKIND=0', '-DVAR=%d' % v]) for v in range(4)] + [dict(name='exc_s%d' % v, src='exc.cpp', defs=['-DKIND=1', '-DVAR=%d' % v]) for v in range(8)]
    + [dict(name='exc_t%d_c%d' % (t, k), src='exc.cpp', defs=['-DKIND=2', '-DTREE=%d' % t, '-DCFG=%d' % k] + _noassert) for t in range(6) for k in (0, 2)] + [dict(name='exc_h%d' % h, src='exc.cpp', defs=['-DKIND=3', '-DHCFG=%d' % h]) for h in range(13)]
    + [dict(name='exc_asserted', src='exc.cpp', defs=['-DKIND=2', '-DTREE=0', '-DCFG=0', '-DASSERTED'])],
    bounds={'quick': 'lists of 0..6 elements, trees of 0..7 (rb, avl) / 0..5 / 0..4 (treap), hash tables of 0..4 elements (fastmod 2); the functor throws at any call or never', 'thorough': 'lists of 0..8, trees of 0..8 / 0..6 / 0..5, fastmod 3'})
def _all(src, pre, tcfg, lists=True):
    return ([dict(name='%s_l%d' % (pre, v), src=src, defs=['-DKIND=0', '-DVAR=%d' % v]) for v in range(4)] + [dict(name='%s_s%d' % (pre, v), src=src, defs=['-DKIND=1', '-DVAR=%d' % v]) for v in range(8)] if lists else []) \
    + [dict(name='%s_t%d_c%d' % (pre, t, k), src=src, defs=['-DKIND=2', '-DTREE=%d' % t, '-DCFG=%d' % k]) for t in range(6) for k in tcfg] + [dict(name='%s_h%d' % (pre, h), src=src, defs=['-DKIND=3', '-DHCFG=%d' % h]) for h in range(13)]
CHECKS['C29'] = dict(units=_all('move.cpp', 'move', (0, 1, 2, 3)), bounds={'quick': 'lists of 0..6 elements, trees of 0..6 (rb, avl) / 0..5 / 0..4 (treap) with 0..3, hash tables of 0..3 (fastmod 2) with 0..2', 'thorough': 'lists of 0..8, trees of 0..8 / 0..6 / 0..5 with 0..4, hash tables of 0..4 (fastmod 3)'})
CHECKS['C31'] = dict(units=_all('cmp.cpp', 'cmp', (0, 1)), bounds={'quick': 'two sequences of 0..4 elements each; hash tables of 0..3 (different bucket counts 0..2, fastmod 0..2) elements each, groups of 3', 'thorough': 'two sequences of 0..5 elements; groups of 4'})
CHECKS['C28'] = dict(units=_all('iter.cpp', 'iter', (0, 1, 2, 3)), bounds={'quick': 'lists of 0..6 elements, trees of 0..12 (rb, avl) / 0..8 / 0..6 (treap), hash tables of 0..5 (fastmod 3) elements in 1..4 (3, 7) buckets', 'thorough': 'lists of 0..8, trees of 0..12 / 0..9 / 0..7'})
CHECKS['C32'] = dict(units=[dict(name='traits_%d_%d' % (h, k), src='traits.cpp', defs=['-DHV=%d' % h, '-DCK=%d' % k]) for h in range(8) for k in range(9)], bounds={'quick': 'histories of 5 operations over 3 elements and two containers', 'thorough': 'histories of 6 operations'})
_hooks = {(0, 1): [0, 1, 2, 3, 4, 5], (0, 2): [0, 1, 4, 5], (1, 1): [0, 1, 2, 3, 4, 5, 8, 13], (1, 2): [0, 1], (2, 1): [0, 1, 2, 3, 4, 5], (2, 2): [0, 1, 4, 5], (3, 1): [0, 1, 2, 3, 4, 5], (3, 2): [0, 1, 4, 5], (4, 1): [0, 1, 2, 3, 4], (4, 2): [0, 1, 4], (5, 1): [0, 1, 2, 3, 4], (6, 1): [0, 1, 2, 3, 4], (6, 2): [0, 1, 4], (7, 1): [0, 1, 2, 3, 4], (7, 2): [0, 1, 4], (8, 1): [0, 1, 2, 3, 4, 5, 8, 13], (8, 2): [0, 1, 4, 5, 8, 13]} # (container, link mode) -> variants, see harness/hooks.cpp
CHECKS['C24'] = dict(units=[dict(name='hooks_%d_%d_%d' % (c, m, f), src='hooks.cpp', defs=['-DCK=%d' % c, '-DLM=%d' % m, '-DFL=%d' % f]) for (c, m), fs in _hooks.items() for f in fs], bounds={'quick': 'histories of 4 operations over 3 elements; swaps of any two of 4 elements in two containers; misuse of any of 1..3 elements', 'thorough': 'histories of 5 operations'})
CHECKS['C26'] = dict(units=_all('dispose.cpp', 'dispose', (0, 1, 2, 3)), bounds={'quick': 'lists of 0..6, trees of 0..8 (rb, avl) / 0..6 / 0..5 (treap), hash tables of 0..3 (fastmod 2) elements', 'thorough': 'lists of 0..8, trees of 0..9 / 0..7 / 0..6, hash tables of 0..4 (fastmod 3)'})
_reloc = {0: [0, 1, 4], 1: [0, 1, 3, 4, 7], 2: [0, 1, 2, 3, 4, 7], 3: [0, 1, 2, 3, 4, 7], 4: [0, 1, 4], 5: [0, 1, 4], 6: [0, 1, 4], 7: [0, 1, 4], 8: [0, 1, 2, 3, 4, 7]}
CHECKS['C35'] = dict(units=[dict(name='reloc_%d_%d' % (c, f), src='reloc.cpp', defs=['-DCK=%d' % c, '-DFL=%d' % f]) for c, fs in _reloc.items() for f in fs], bounds={'quick': '4 elements, 4 operations (lists 5) and 2 relocations', 'thorough': '5 elements'})
CHECKS['C23'] = dict(units=[dict(name='hashval', src='hashval.cpp', defs=[])], bounds={k: 'every pair of values of 17 integer, enumeration and floating point types, pointers into arrays of 5, arrays of 3 and 2x2, two class types; two elements in 2 or 4 buckets' for k in ('quick', 'thorough')})
CHECKS['C33'] = dict(units=[dict(name='bits', src='nums.cpp', defs=['-DWHAT=33'])], bounds={k: 'every 64-bit word, 1 to 3 bits; two changes to a node' for k in ('quick', 'thorough')})
CHECKS['C34'] = dict(units=[dict(name='math', src='nums.cpp', defs=['-DWHAT=34'])], bounds={k: 'every 64-bit value' for k in ('quick', 'thorough')})
CHECKS['C39'] = dict(units=[dict(u, defs=u['defs'] + (_noassert if '-DKIND=2' in u['defs'] else [])) for u in _all('cost.cpp', 'cost', (0, 1, 2, 3))], bounds={'quick': 'lists of 0..6 elements (merge 4 and 4), trees of 0..8 (rb, avl) / 0..5 / 0..4 (treap), splay paths of 1..8 nodes, hash tables of 0..3', 'thorough': 'lists of 0..8 (5 and 5), trees of 0..11 / 0..6 / 0..5, splay paths of 10, hash tables of 0..4'})
CHECKS['C40'] = dict(units=[dict(name='kov_%s%d_%d' % (n, t, k), src='tree_%s.cpp' % n, defs=['-DTREE=%d' % t, '-DCFG=%d' % c, '-DKOV=%d' % k]) for t in range(6) for k, c in ((1, 0), (2, 1)) for n in ('find', 'uniq', 'ops', 'merge')]
    + [dict(name='kov_%s_h%d_%d' % (n, h, k), src='hash_%s.cpp' % n, defs=['-DHCFG=%d' % h, '-DKOV=%d' % k]) for n in ('ops', 'group', 'rehash') for h in range(13) for k in (1, 2) if n == 'ops' or (n == 'group' and h in (2, 5, 6, 7, 9, 10) and k == 1 + h % 2) or (n == 'rehash' and h in (0, 1, 2, 4) and k == 1 + h % 2)],
    bounds={k: '; '.join([CHECKS[x]['bounds'][k] for x in ('C06', 'C07', 'C08', 'C17', 'C18')]) for k in ('quick', 'thorough')})
CHECKS['C41'] = dict(units=[dict(u) for u in _all('validate.cpp', 'valid', (0, 1, 2, 3)) if '-DKIND=3' not in u['defs']], bounds={'quick': 'lists of 1..6 elements, trees of 0..5 elements with any keys, metadata and one redirected link, 0..9 (rb, avl) / 0..6 for extra checkers', 'thorough': 'lists of 1..8, trees of 0..6'})
