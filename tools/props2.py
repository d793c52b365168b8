HASHF = ['hashtable.hpp', 'unordered_set.hpp', 'unordered_set_hook.hpp', 'detail/hashtable_node.hpp']
HCFG = 'thirteen combinations of power-of-two, fastmod, incremental and linear buckets, cached begin, compared and stored hashes, group optimisation, hook kinds and link modes'
prop('C18', 'Hash containers hold exactly what histories of operations put there',
 'After any history of insertions (plain, checked in two phases, ranges), erasures (by iterator, range, key, with disposer) and clearing, an unordered set holds one element per key class inserted and not erased and an unordered multiset all of them, equivalent elements are adjacent, size, emptiness, bucket sizes and local iteration agree with iteration, every element lies in the bucket its hash selects, and find, count and equal range return exactly the equivalent elements for every present or absent key.',
 ['inputs', 'histories', 'configurations'], 'every pattern of equal keys and of hash collisions up to the bound, arbitrary 64-bit or 16-bit hashes; ' + HCFG,
 'tests use the identity hash on small integers: collisions between different keys, equal low bits or equal full hashes are not exercised in most option combinations',
 HASHF, [('insert_equal, insert_unique_check, erase, priv_find, priv_local_equal_range', 'hashtable.hpp')], ['iteration, local iteration, lookups'],
 state=[('cached_begin_', 'first non-empty bucket or the end', 'hashtable.hpp'), ('split_count', 'buckets in use of incremental tables', 'hashtable.hpp')])
prop('C19', 'Group-optimised hash containers keep groups of equivalent elements intact',
 'With or without group optimisation, inserting, erasing single elements, partial and whole ranges of a group of equivalent elements, and looking it up leaves every group consecutive and complete, and every following operation (erasing again, equal range, count, insertion into the group, iteration) works on exactly the remaining elements.',
 ['inputs', 'histories', 'configurations'], 'every interleaving of two key classes over the elements, every sub-range of the iteration erased, every following operation; ' + HCFG,
 'the group ring is updated differently for first, middle and last members, and a wrong ring only shows in a later operation on the same group',
 HASHF, [('priv_erase_from_single_bucket, split_groups, unlink_after_group, go_to_last_in_group', 'hashtable.hpp'), ('circular group links', 'detail/hashtable_node.hpp')], ['iteration, equal_range'])
prop('C20', 'Rehashing preserves the contents of hash containers and all their invariants',
 'Rehashing into the same or another bucket array of any admissible size, full rehashing after hashes changed, growing and shrinking incrementally step by step, and doubling or halving the array of an incremental container keep exactly the same elements, put each into the bucket its hash selects, keep groups adjacent, leave the old array empty, and the container stays usable for further operations.',
 ['inputs', 'histories', 'configurations'], 'every distribution of the elements over the old and the new buckets; ' + HCFG,
 'tests rehash tables with evenly spread integer keys; the cached first bucket, shared buffers and split buckets matter only for particular distributions',
 HASHF, [('rehash_impl, incremental_rehash, full_rehash, priv_erasure_update_cache', 'hashtable.hpp')], ['iteration, lookups, split_count, stored hashes'])
prop('C21', 'The bucket of a hash is in range and consistent for every hash value',
 'For every 64-bit hash and every supported bucket count, the bucket selected is below the bucket count (below the split in incremental containers), is the remainder of the hash (with fastmod the exact remainder of its 32-bit fold), is the same for insertion, lookup and bucket(), and one incremental step or doubling changes it only for elements of the split bucket.',
 ['inputs', 'configurations'], 'all 2^64 hash values',
 'a reciprocal table entry or fold that is off shows only for rare hash values among 2^64',
 ['hashtable.hpp'], [('fastmod_u32, inv_sizes32, position', 'hashtable.hpp'), ('hash_to_bucket_split', 'hashtable.hpp')], ['bucket(), local iteration'])
prop('C22', 'Suggested bucket counts are the nearest supported ones for every request',
 'For every requested number, the suggested upper and lower bucket counts are supported counts representable in the size type, with no other supported count between the request and the suggestion, the upper one not smaller than the request unless the largest is smaller, the lower one not bigger unless the smallest is bigger; supported counts are increasing primes.',
 ['inputs', 'configurations'], 'all values of a 64-bit and of a 16-bit size type',
 'the boundaries at every table entry and the truncation to small size types are single points among 2^64 requests',
 ['hashtable.hpp'], [('suggested_upper_bucket_count, suggested_lower_bucket_count, prime_list', 'hashtable.hpp')], ['returned counts'])
