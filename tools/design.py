#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (one section per property) from properties.jsonl, checks.py and HOW below."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import checks as C
HOW = {
'C01': 'list.cpp: builds every list of each size, applies one (every) operation with symbolic position, count and range end (solver-enumerated), compares with an array of ids; then a second operation on the result. Values are symbolic where predicates read them (remove, unique).',
'C02': 'sort.cpp: symbolic 16-bit keys; the result must be the stable order, computed by an insertion sort of (key, id) in the harness; the executor forks only where the order of two keys is not implied yet, so every weak order of the keys is one path. Two comparators.',
'C03': 'slist.cpp: as C01 for the eight slist variants (linear, cached last, constant size); the cached last node is observed through back(), last() and push_back.',
'C05': 'nodealgo.cpp: the three algorithm classes on pools of nodes split into several rings and chains with symbolic positions; afterwards every next/prev pointer of every node is compared with the expected ring, so untouched nodes are checked too.',
'C06': 'tree_ops.cpp: every shape of the family up to the bound is built directly with node traits (structure from symbolic choices, metadata such as colours and balances symbolic and constrained by the family invariant), with symbolic keys in order; then one operation with symbolic key, hint and range; the result is compared with a sorted array. CFG selects multi/unique, compact nodes, constant size, parent comparators.',
'C07': 'tree_uniq.cpp: the same pre-states for unique containers; insertion with every hint position, insert_check and commit in all forms; presence of an equivalent key is a solver question.',
'C08': 'tree_find.cpp: every lookup in const and non-const form against a linear scan with a symbolic key; bounded_range for both pairs of closedness flags.',
'C09': 'the units of C06, C07, C16 and C17 with the red-black invariant asserted after each operation (WHAT=2) plus tree_deep.cpp: one positional insertion or erasure from every red-black tree up to 15 nodes with concrete keys (needed because some erase rotations occur only from 9 to 11 nodes on).',
'C10': 'as C09 with balance factors compared with true heights.',
'C11': 'splay.cpp: after each access the root must be the accessed element or a neighbour of the absent key, and the sequence is unchanged; const lookups must leave every pointer unchanged.',
'C12': 'sg.cpp: scapegoat trees of every shape that satisfies the bound for its max size, then histories of insertions and erasures; the height is compared with floor(log_{1/alpha}(max size since the last rebuild)); fixed and run-time alpha.',
'C13': 'as C09 with symbolic priorities and the heap order asserted.',
'C16': 'tree_surg.cpp: swap_nodes within one tree (all pairs, all shapes), between two trees, replace_node, swap_tree, unlink, rebalance, equality of every link and of metadata to the expected tree.',
'C17': 'tree_merge.cpp: two trees of symbolic keys, merge across set/multiset and comparators; result against array model.',
'C18': 'hash_ops.cpp: tables with symbolic hashes and keys (equal keys imply equal hashes by construction: the hash of a key class is a symbol) over 13 option combinations; one or more operations, then bucket contents, groups, local iteration, sizes and lookups are compared with the model, and every link of the bucket structure is walked.',
'C19': 'hash_group.cpp: all elements in two classes so that groups are long; partial erasures then further operations.',
'C20': 'hash_rehash.cpp: rehash between all pairs of bucket counts, full_rehash with changed hashes, incremental_rehash up/down and to another array, then all invariants as in C18.',
'C21': 'hash_index.cpp WHAT=21: bucket arithmetic over every 64-bit hash; the wide multiplications are proved by an exact integer encoding (lia.cpp) in z3.',
'C22': 'hash_index.cpp WHAT=22: every n of 64 and 16 bits against the table of supported counts; primality by trial division in the executor.',
'C23': 'hashval.cpp: two symbolic keys per type; floating point equality and x + 0 are encoded exactly over the bits (IEEE comparison, quieted NaN payload).',
'C24': 'hooks.cpp: histories over elements, containers and hooks with a model of membership; misuse entries expect the documented assertion (vp_expect_assert) and fail when it does not fire.',
'C25': 'clone.cpp: cloner with a symbolic throw point; afterwards the target is compared, functors observed, disposals counted, elements checked for leaks.',
'C26': 'dispose.cpp: the disposer checks that the element is unlinked and intact, destroys it and poisons or reuses its memory; the executor reports any later access (freed memory is tracked), and calls are counted per element.',
'C27': 'exc.cpp: every functor throws at a symbolic call number; strong guarantee compares the full pre-state, basic guarantee checks partition of elements, links and invariants, then the container is used again.',
'C28': 'iter.cpp: every iterator form at every position of every container state.',
'C29': 'move.cpp: two containers, every transfer form, functors carry identities that are observed; both containers are used and checked afterwards.',
'C31': 'cmp.cpp: two containers with symbolic keys and payloads; the operators against a pairwise model.',
'C32': 'traits.cpp: 8 ways to designate a hook times 9 containers; guard words around hooks are compared after each operation, and a second container holds the same elements through another hook.',
'C33': 'nums.cpp WHAT=33: any address and any bits, then node traits of both tree kinds, compact and plain.',
'C34': 'nums.cpp WHAT=34: one path per highest set bit, the other bits symbolic.',
'C39': 'cost.cpp: every functor counts its calls; the state before the call is any container up to the bound, the limit is computed from the height, bucket size or length of that state. Splay trees also start from any access path whose depths are compared before and after.',
'C40': 'the harnesses of C06, C07, C08, C17, C18, C19 and C20 compiled with key_of_value and priority_of_value (KOV 1: a base class by reference, KOV 2: another type by value), comparing and hashing only keys.',
'C41': 'validate.cpp: a container is built, then corrupted in a way given by the choices and symbolic keys; an own oracle says whether the result is still valid; if not the assertion handler must be reached, otherwise it must not.',
'C35': 'reloc.cpp: the container, its buckets and its elements live in one heap block and use a self-relative pointer; the block is copied to another block and the old one freed, so any absolute pointer left behind is an access to freed memory, reported by the executor.',
}
try:
    exec(open(os.path.join(H, 'tools', 'design2.py')).read())
except FileNotFoundError:
    pass
out = []
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if i not in C.CHECKS:
        continue
    c = C.CHECKS[i]
    out.append('### %s %s\n\n%s %d unit%s. Bounds, quick: %s. Thorough: %s.\n' % (i, p['title'], HOW[i], len(c['units']), 's' * (len(c['units']) > 1), c['bounds']['quick'], 'the same' if c['bounds']['quick'] == c['bounds']['thorough'] else c['bounds']['thorough']))
f = os.path.join(H, 'DESIGN.md')
s = open(f).read()
a, b = s.index('<!-- properties -->'), s.index('<!-- end properties -->')
open(f, 'w').write(s[:a] + '<!-- properties -->\n\n' + '\n'.join(out) + '\n' + s[b:])
