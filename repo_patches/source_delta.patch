From 5c1717a26f781673471ea63a158b5c4a81507fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 01/33] fix: make slist's const last() and clast() instantiable

---
 include/boost/intrusive/slist.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index f39e7df..148aa4a 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -639,7 +639,7 @@ class slist_impl
    {
       //This function shall not be used if cache_last is not true
       BOOST_INTRUSIVE_INVARIANT_ASSERT(cache_last);
-      return const_iterator (this->get_last_node(), this->priv_value_traits_ptr());
+      return const_iterator (detail::uncast(this->get_last_node()), this->priv_value_traits_ptr());
    }
 
    //! <b>Effects</b>: Returns a const_iterator to the last element contained in the list.
@@ -650,7 +650,7 @@ class slist_impl
    //!
    //! <b>Note</b>: This function is present only if cached_last<> option is true.
    inline const_iterator clast() const BOOST_NOEXCEPT
-   { return const_iterator(this->get_last_node(), this->priv_value_traits_ptr()); }
+   { return const_iterator(detail::uncast(this->get_last_node()), this->priv_value_traits_ptr()); }
 
    //! <b>Precondition</b>: end_iterator must be a valid end iterator
    //!   of slist.
-- 
2.43.0


From d8b186221b163f9beb5187497ed9a647f511ce42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 02/33] fix: make slist::dispose_and_assign instantiable

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 148aa4a..dc59ceb 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1227,7 +1227,7 @@ class slist_impl
    void dispose_and_assign(Disposer disposer, Iterator b, Iterator e)
    {
       this->clear_and_dispose(disposer);
-      this->insert_after(this->cbefore_begin(), b, e, disposer);
+      this->insert_after(this->cbefore_begin(), b, e);
    }
 
    //! <b>Requires</b>: prev must point to an element contained by this list or
-- 
2.43.0


From 3f4f1478b8825d263c0074e13ccb2edb1871af88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 03/33] fix: make slist::unique_and_dispose(disposer)
 instantiable

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index dc59ceb..554575a 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1703,7 +1703,7 @@ class slist_impl
    //!   and iterators to elements that are not removed remain valid.
    template<class Disposer>
    void unique_and_dispose(Disposer disposer)
-   {  this->unique(value_equal<value_type>(), disposer);  }
+   {  this->unique_and_dispose(value_equal<value_type>(), disposer);  }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
    //!
-- 
2.43.0


From 3692e63dff9be1974fbb3b026f210bf4180939cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 04/33] fix: let slist::check() accept an empty linear list

---
 include/boost/intrusive/slist.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 554575a..11df242 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1928,8 +1928,8 @@ class slist_impl
    void check() const
    {
       const_node_ptr header_ptr = get_root_node();
-      // header's next is never null
-      BOOST_INTRUSIVE_INVARIANT_ASSERT(node_traits::get_next(header_ptr));
+      // header's next is never null, except in an empty linear list
+      BOOST_INTRUSIVE_INVARIANT_ASSERT(linear || node_traits::get_next(header_ptr));
       if (node_traits::get_next(header_ptr) == header_ptr)
       {
          BOOST_INTRUSIVE_INVARIANT_ASSERT(!constant_time_size || this->priv_size_traits().get_size() == 0);
-- 
2.43.0


From 25570946183dd4667ea0983c3d97b2298fe932f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 05/33] fix: update slist's cached last node when its tail is
 spliced to another place of the same list

---
 include/boost/intrusive/slist.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 11df242..b32e33c 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1993,7 +1993,8 @@ class slist_impl
          if(prev_pos_n == this->get_last_node()){
             this->set_last_node(before_l_n);
          }
-         if(&x != this && node_traits::get_next(before_l_n) == x.get_end_node()){
+         //transfer_after is a no-op if the range is already in place
+         if(prev_pos_n != before_f_n && prev_pos_n != before_l_n && node_traits::get_next(before_l_n) == x.get_end_node()){
             x.set_last_node(before_f_n);
          }
       }
-- 
2.43.0


From 7102bb31e7c8c4c7e40562b52defb9261d67760a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:35 +0000
Subject: [PATCH 06/33] fix: make slist::sort work with linear lists

---
 include/boost/intrusive/slist.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index b32e33c..6bfa681 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1440,8 +1440,8 @@ class slist_impl
    template<class Predicate>
    void sort(Predicate p)
    {
-      if (node_traits::get_next(node_traits::get_next(this->get_root_node()))
-         != this->get_root_node()) {
+      if (!this->empty() && node_traits::get_next(node_traits::get_next(this->get_root_node()))
+         != this->get_end_node()) {
 
          slist_impl carry(this->priv_value_traits());
          detail::array_initializer<slist_impl, 64> counter(this->priv_value_traits());
@@ -1474,6 +1474,9 @@ class slist_impl
          for (int i = 1; i < fill; ++i)
             counter[i].merge(counter[i-1], p, &last_inserted);
          --fill;
+         //The last merge might have transferred nothing (and a linear list can't be traversed from end())
+         if(last_inserted == counter[fill].cend())
+            last_inserted = counter[fill].cbefore_begin();
          const_iterator last_element(counter[fill].previous(last_inserted, counter[fill].end()));
          BOOST_IF_CONSTEXPR(constant_time_size){
             this->splice_after( cbefore_begin(), counter[fill], counter[fill].cbefore_begin()
-- 
2.43.0


From 7c6b4c4a6297297bd5e49dce9f76bb06fffd50ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:23 +0000
Subject: [PATCH 07/33] fix: circular_slist_algorithms::swap_nodes with both
 nodes in the same list

The first relink made the search for the second previous node stop at the
wrong node, which lost the rest of the ring.
---
 .../boost/intrusive/circular_slist_algorithms.hpp    | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/boost/intrusive/circular_slist_algorithms.hpp b/include/boost/intrusive/circular_slist_algorithms.hpp
index bc4beaa..e1c7358 100644
--- a/include/boost/intrusive/circular_slist_algorithms.hpp
+++ b/include/boost/intrusive/circular_slist_algorithms.hpp
@@ -300,11 +300,17 @@ class circular_slist_algorithms
       const bool this_empty  = this_next == this_node;
       const bool other_empty = other_next == other_node;
 
+      //Find both previous nodes before relinking anything: the nodes might belong to the same list
+      const node_ptr other_prev = (other_null || other_empty) ? node_ptr()
+         : (this_next == other_node ? other_node : get_previous_node(other_node));
+      const node_ptr this_prev  = (this_null || this_empty) ? node_ptr()
+         : (other_next == this_node ? this_node  : get_previous_node(this_node));
+
       if(!(other_null || other_empty)){
-         NodeTraits::set_next(this_next == other_node ? other_node : get_previous_node(other_node), this_node );
+         NodeTraits::set_next(other_prev, this_node );
       }
-      if(!(this_null | this_empty)){
-         NodeTraits::set_next(other_next == this_node ? this_node  : get_previous_node(this_node), other_node );
+      if(!(this_null || this_empty)){
+         NodeTraits::set_next(this_prev, other_node );
       }
       NodeTraits::set_next(this_node,  other_empty ? this_node  : (other_next == this_node ? other_node : other_next) );
       NodeTraits::set_next(other_node, this_empty  ? other_node : (this_next == other_node ? this_node :  this_next ) );
-- 
2.43.0


From 2adf0806bd38cf7a7255d1fcdd6d3dfdf4f710a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:38 +0000
Subject: [PATCH 08/33] fix: unlink_leftmost_without_rebalance lost nodes when
 the leftmost node had a right child

The right child was attached to the root instead of to the parent of the
unlinked node.
---
 include/boost/intrusive/bstree_algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/bstree_algorithms.hpp b/include/boost/intrusive/bstree_algorithms.hpp
index 45e6b18..70cfdb8 100644
--- a/include/boost/intrusive/bstree_algorithms.hpp
+++ b/include/boost/intrusive/bstree_algorithms.hpp
@@ -650,7 +650,7 @@ class bstree_algorithms : public bstree_algorithms_base<NodeTraits>
          if (is_root)
             NodeTraits::set_parent(header, leftmost_right);
          else
-            NodeTraits::set_left(NodeTraits::get_parent(header), leftmost_right);
+            NodeTraits::set_left(leftmost_parent, leftmost_right);
       }
       else if (is_root){
          NodeTraits::set_parent(header, node_ptr());
-- 
2.43.0


From dfe0e970f29ecdee3c87b4944e2f625bfe1c72ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 09/33] fix: count(key, comp) of the unique sets counts every
 equivalent element

---
 include/boost/intrusive/avl_set.hpp   | 2 +-
 include/boost/intrusive/bs_set.hpp    | 2 +-
 include/boost/intrusive/set.hpp       | 2 +-
 include/boost/intrusive/sg_set.hpp    | 2 +-
 include/boost/intrusive/splay_set.hpp | 2 +-
 include/boost/intrusive/treap_set.hpp | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/intrusive/avl_set.hpp b/include/boost/intrusive/avl_set.hpp
index 2d76ece..7c98ab0 100644
--- a/include/boost/intrusive/avl_set.hpp
+++ b/include/boost/intrusive/avl_set.hpp
@@ -301,7 +301,7 @@ class avl_set_impl
    //! @copydoc ::boost::intrusive::avltree::count(const KeyType&,KeyTypeKeyCompare)const
    template<class KeyType, class KeyTypeKeyCompare>
    size_type count(const KeyType& key, KeyTypeKeyCompare comp) const
-   {  return static_cast<size_type>(this->tree_type::find(key, comp) != this->tree_type::cend()); }
+   {  return static_cast<size_type>(this->tree_type::count(key, comp)); }
 
    #ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
 
diff --git a/include/boost/intrusive/bs_set.hpp b/include/boost/intrusive/bs_set.hpp
index c3275dd..8c72e00 100644
--- a/include/boost/intrusive/bs_set.hpp
+++ b/include/boost/intrusive/bs_set.hpp
@@ -298,7 +298,7 @@ class bs_set_impl
    //! @copydoc ::boost::intrusive::bstree::count(const KeyType&,KeyTypeKeyCompare)const
    template<class KeyType, class KeyTypeKeyCompare>
    size_type count(const KeyType& key, KeyTypeKeyCompare comp) const
-   {  return static_cast<size_type>(this->tree_type::find(key, comp) != this->tree_type::cend()); }
+   {  return static_cast<size_type>(this->tree_type::count(key, comp)); }
 
    #ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
 
diff --git a/include/boost/intrusive/set.hpp b/include/boost/intrusive/set.hpp
index 2a5859c..d1deb41 100644
--- a/include/boost/intrusive/set.hpp
+++ b/include/boost/intrusive/set.hpp
@@ -301,7 +301,7 @@ class set_impl
    //! @copydoc ::boost::intrusive::rbtree::count(const KeyType&,KeyTypeKeyCompare)const
    template<class KeyType, class KeyTypeKeyCompare>
    size_type count(const KeyType& key, KeyTypeKeyCompare comp) const
-   {  return static_cast<size_type>(this->tree_type::find(key, comp) != this->tree_type::cend()); }
+   {  return static_cast<size_type>(this->tree_type::count(key, comp)); }
 
    #ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
 
diff --git a/include/boost/intrusive/sg_set.hpp b/include/boost/intrusive/sg_set.hpp
index ed0af55..b46a017 100644
--- a/include/boost/intrusive/sg_set.hpp
+++ b/include/boost/intrusive/sg_set.hpp
@@ -299,7 +299,7 @@ class sg_set_impl
    //! @copydoc ::boost::intrusive::sgtree::count(const KeyType&,KeyTypeKeyCompare)const
    template<class KeyType, class KeyTypeKeyCompare>
    size_type count(const KeyType& key, KeyTypeKeyCompare comp) const
-   {  return static_cast<size_type>(this->tree_type::find(key, comp) != this->tree_type::cend()); }
+   {  return static_cast<size_type>(this->tree_type::count(key, comp)); }
 
    #ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
 
diff --git a/include/boost/intrusive/splay_set.hpp b/include/boost/intrusive/splay_set.hpp
index f11424a..e5a41d5 100644
--- a/include/boost/intrusive/splay_set.hpp
+++ b/include/boost/intrusive/splay_set.hpp
@@ -299,7 +299,7 @@ class splay_set_impl
    //! @copydoc ::boost::intrusive::splaytree::count(const KeyType&,KeyTypeKeyCompare)const
    template<class KeyType, class KeyTypeKeyCompare>
    size_type count(const KeyType& key, KeyTypeKeyCompare comp) const
-   {  return static_cast<size_type>(this->tree_type::find(key, comp) != this->tree_type::cend()); }
+   {  return static_cast<size_type>(this->tree_type::count(key, comp)); }
 
    #ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
 
diff --git a/include/boost/intrusive/treap_set.hpp b/include/boost/intrusive/treap_set.hpp
index f6a7a8f..ea8cd59 100644
--- a/include/boost/intrusive/treap_set.hpp
+++ b/include/boost/intrusive/treap_set.hpp
@@ -332,7 +332,7 @@ class treap_set_impl
    //! @copydoc ::boost::intrusive::treap::count(const KeyType&,KeyTypeKeyCompare)const
    template<class KeyType, class KeyTypeKeyCompare>
    size_type count(const KeyType& key, KeyTypeKeyCompare comp) const
-   {  return static_cast<size_type>(this->tree_type::find(key, comp) != this->tree_type::cend()); }
+   {  return static_cast<size_type>(this->tree_type::count(key, comp)); }
 
    #ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
 
-- 
2.43.0


From 19a40b0c2c143efca6b1ea3bd14e009707633bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:12 +0000
Subject: [PATCH 10/33] fix: make splay_down(key, comp) usable with any
 comparator

---
 include/boost/intrusive/splaytree.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/boost/intrusive/splaytree.hpp b/include/boost/intrusive/splaytree.hpp
index e25647c..983228e 100644
--- a/include/boost/intrusive/splaytree.hpp
+++ b/include/boost/intrusive/splaytree.hpp
@@ -496,9 +496,7 @@ class splaytree_impl
    template<class KeyType, class KeyTypeKeyCompare>
    iterator splay_down(const KeyType &key, KeyTypeKeyCompare comp)
    {
-      detail::key_nodeptr_comp<value_compare, value_traits>
-         key_node_comp(comp, &this->get_value_traits());
-      node_ptr r = node_algorithms::splay_down(tree_type::header_ptr(), key, key_node_comp);
+      node_ptr r = node_algorithms::splay_down(tree_type::header_ptr(), key, this->key_node_comp(comp));
       return iterator(r, this->priv_value_traits_ptr());
    }
 
-- 
2.43.0


From b6c37d33603b568ebea6942da54c12bb1d7114f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 11/33] fix: let bs_set and splay_set merge from their
 multisets

---
 include/boost/intrusive/bs_set.hpp    | 6 +++---
 include/boost/intrusive/splay_set.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/boost/intrusive/bs_set.hpp b/include/boost/intrusive/bs_set.hpp
index 8c72e00..32e2094 100644
--- a/include/boost/intrusive/bs_set.hpp
+++ b/include/boost/intrusive/bs_set.hpp
@@ -22,14 +22,14 @@
 #  pragma once
 #endif
 
+namespace boost {
+namespace intrusive {
+
 #if !defined(BOOST_INTRUSIVE_DOXYGEN_INVOKED)
 template<class ValueTraits, class VoidOrKeyOfValue, class Compare, class SizeType, bool ConstantTimeSize, typename HeaderHolder>
 class bs_multiset_impl;
 #endif
 
-namespace boost {
-namespace intrusive {
-
 //! The class template bs_set is an intrusive container, that mimics most of
 //! the interface of std::set as described in the C++ standard.
 //!
diff --git a/include/boost/intrusive/splay_set.hpp b/include/boost/intrusive/splay_set.hpp
index e5a41d5..d17429c 100644
--- a/include/boost/intrusive/splay_set.hpp
+++ b/include/boost/intrusive/splay_set.hpp
@@ -22,14 +22,14 @@
 #  pragma once
 #endif
 
+namespace boost {
+namespace intrusive {
+
 #if !defined(BOOST_INTRUSIVE_DOXYGEN_INVOKED)
 template<class ValueTraits, class VoidOrKeyOfValue, class Compare, class SizeType, bool ConstantTimeSize, typename HeaderHolder>
 class splay_multiset_impl;
 #endif
 
-namespace boost {
-namespace intrusive {
-
 //! The class template splay_set is an intrusive container, that mimics most of
 //! the interface of std::set as described in the C++ standard.
 //!
-- 
2.43.0


From a120dbbdcc95fc4898d6e70e5f2015025e303824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:57 +0000
Subject: [PATCH 12/33] fix: erasing a range inside one group of equivalent
 elements broke the group links (optimize_multikey)

---
 include/boost/intrusive/hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 3e1293b..2abce73 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -1146,7 +1146,7 @@ struct bucket_plus_vtraits
                if(nf == group2) {   //Both first and last in the same group
                                     //so join group1 and group2
                   node_ptr const end1 = group_traits::get_next(group1);
-                  node_ptr const end2 = group_traits::get_next(group2);
+                  node_ptr const end2 = group_traits::get_next(nl);
                   group_traits::set_next(group1, end2);
                   group_traits::set_next(nl, end1);
                }
-- 
2.43.0


From 3776a85bdf4a9c44760526a6c51acfc2be3ddac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:57 +0000
Subject: [PATCH 13/33] fix: equal_range of hash containers left the bucket of
 the second iterator uninitialized

---
 include/boost/intrusive/hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 2abce73..bbd8bf5 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -4179,7 +4179,7 @@ class hashtable_impl
          r.bucket_first = r.bucket_second = this->priv_invalid_bucket_ptr();
       }
       else if (to_return.second != this->priv_end_sit()) {
-         r.bucket_first = this->priv_bucket_ptr(n_bucket);
+         r.bucket_first = r.bucket_second = this->priv_bucket_ptr(n_bucket);
       }
       else{
          r.bucket_first = this->priv_bucket_ptr(n_bucket);
-- 
2.43.0


From 559ff94901386507f53b207b6c4f851c15414603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:17 +0000
Subject: [PATCH 14/33] fix: rehash moved groups of equivalent elements one by
 one and broke their links (optimize_multikey)

---
 include/boost/intrusive/hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index bbd8bf5..0d69aaf 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3888,7 +3888,7 @@ class hashtable_impl
 
                //If the target bucket is new, transfer the whole group
                siterator last = i;
-               (priv_go_to_last_in_group)(i, optimize_multikey_t());
+               (priv_go_to_last_in_group)(last, optimize_multikey_t());
 
                if(same_buffer && new_n == n){
                   before_i = last;
-- 
2.43.0


From aab7804396b222ddd95498e1a59edfdea646f27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:44 +0000
Subject: [PATCH 15/33] fix: fast shrinking rehash let the cached first bucket
 denote an empty bucket (cache_begin)

---
 include/boost/intrusive/hashtable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 0d69aaf..8de11f9 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3902,7 +3902,7 @@ class hashtable_impl
          else{
             const size_type new_n = (size_type)hash_to_bucket_split<power_2_buckets, incremental>
                                        (n, new_bucket_count, split, fastmod_buckets_t());
-            if(cache_begin && new_n < new_first_bucket_num)
+            if(cache_begin && new_n < new_first_bucket_num && !this->priv_bucket_empty(old_bucket))
                new_first_bucket_num = new_n;
             bucket_type &new_b = new_buckets[difference_type(new_n)];
             siterator last = this->priv_get_last(old_bucket, optimize_multikey_t());
-- 
2.43.0


From 231f41ddfd09f348a8155866fe97cc737c96d632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:19 +0000
Subject: [PATCH 16/33] fix: full_rehash updated the stored hash of only one
 element of each group (optimize_multikey with store_hash)

---
 include/boost/intrusive/hashtable.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 8de11f9..28f04a5 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3890,6 +3890,13 @@ class hashtable_impl
                siterator last = i;
                (priv_go_to_last_in_group)(last, optimize_multikey_t());
 
+               //The rest of the group shares the new hash value
+               if(do_full_rehash && optimize_multikey){
+                  for(siterator it(i); it != last; ){
+                     node_functions_t::store_hash(dcast_bucket_ptr<node>((++it).pointed_node()), hash_value, store_hash_t());
+                  }
+               }
+
                if(same_buffer && new_n == n){
                   before_i = last;
                }
-- 
2.43.0


From 738ce2276e03c8de6044a279fed1f1ca81d027a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 17/33] fix: incremental_rehash could leave the cached first
 bucket denoting an empty bucket or the end of the old array (cache_begin)

---
 include/boost/intrusive/hashtable.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 28f04a5..65a7e7f 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3638,7 +3638,8 @@ class hashtable_impl
          bucket_type &source_bucket = this->priv_bucket(split_idx-1u);
          slist_node_algorithms::transfer_after(target_bucket.get_node_ptr(), source_bucket.get_node_ptr());
          this->dec_split_count();
-         this->priv_insertion_update_cache(target_bucket_num);
+         if(!this->priv_bucket_empty(target_bucket_num))
+            this->priv_insertion_update_cache(target_bucket_num);
       }
       return ret;
    }
@@ -3695,9 +3696,10 @@ class hashtable_impl
             slist_node_ptr old_bucket_node_ptr = old_buckets[difference_type(n)].get_node_ptr();
             slist_node_algorithms::transfer_after(new_bucket_nodeptr, old_bucket_node_ptr);
          }
-         //Reset cache to safe position
-         this->priv_set_cache_bucket_num(ini_n);
       }
+      //Reset cache to safe position. If the cache denoted the end of the old array
+      //there are no elements, so it must denote the end of the new one
+      this->priv_set_cache_bucket_num(ini_n < split_idx ? ini_n : new_bucket_count);
 
       this->priv_set_sentinel_bucket();
       return true;
-- 
2.43.0


From e5bb2d6f8e591916584d70ef33f2eba2f4c301f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 18/33] fix: suggested bucket counts of fastmod containers were
 truncated when size_type is small

---
 include/boost/intrusive/hashtable.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 65a7e7f..752b75f 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -2093,6 +2093,9 @@ struct hashdata_internal
    {
       BOOST_IF_CONSTEXPR(fastmod_buckets){
          std::size_t s = prime_fmod_size::upper_size_index(n);
+         //The suggestion must be representable by size_type
+         while(s && prime_fmod_size::size(s) > size_type(-1))
+            --s;
          return static_cast<SizeType>(prime_fmod_size::size(s));
       }
       else{
@@ -2104,6 +2107,9 @@ struct hashdata_internal
    {
       BOOST_IF_CONSTEXPR(fastmod_buckets){
          std::size_t s = prime_fmod_size::lower_size_index(n);
+         //The suggestion must be representable by size_type
+         while(s && prime_fmod_size::size(s) > size_type(-1))
+            --s;
          return static_cast<SizeType>(prime_fmod_size::size(s));
       }
       else{
-- 
2.43.0


From 5500c93caf94ba42be80ad665b8c620a8774ff6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 19/33] fix: slist::clone_from of an rvalue source did not
 compile

---
 include/boost/intrusive/slist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 6bfa681..301a934 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -791,7 +791,7 @@ class slist_impl
       this->clear_and_dispose(disposer);
       detail::exception_disposer<slist_impl, Disposer>
          rollback(*this, disposer);
-      iterator prev(this->cbefore_begin());
+      const_iterator prev(this->cbefore_begin());
       iterator b(src.begin()), e(src.end());
       for(; b != e; ++b){
          prev = this->insert_after(prev, *cloner(*b));
-- 
2.43.0


From eebb1c479e7235681866333d4a7ee33045c43dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:20 +0000
Subject: [PATCH 20/33] fix: bstree_algorithms::clone stored a wrong rightmost
 node in the header

The last right child created was taken as the rightmost node, although it
can belong to a left subtree (e.g. when the root has no right child).
---
 include/boost/intrusive/bstree_algorithms.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/bstree_algorithms.hpp b/include/boost/intrusive/bstree_algorithms.hpp
index 70cfdb8..e9bdab2 100644
--- a/include/boost/intrusive/bstree_algorithms.hpp
+++ b/include/boost/intrusive/bstree_algorithms.hpp
@@ -1972,7 +1972,7 @@ class bstree_algorithms : public bstree_algorithms_base<NodeTraits>
                NodeTraits::set_parent(insertion_point, temp);
                NodeTraits::set_left  (temp, insertion_point);
                //Update leftmost
-               if(rightmost == target_sub_root)
+               if(leftmost == temp)
                   leftmost = insertion_point;
             }
             //Then clone right nodes
@@ -1988,7 +1988,8 @@ class bstree_algorithms : public bstree_algorithms_base<NodeTraits>
                NodeTraits::set_parent(insertion_point, temp);
                NodeTraits::set_right (temp, insertion_point);
                //Update rightmost
-               rightmost = insertion_point;
+               if(rightmost == temp)
+                  rightmost = insertion_point;
             }
             //If not, go up
             else if(current == source_root){
-- 
2.43.0


From ea27c4950b5eda3642432841790877cb673ba883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:13 +0000
Subject: [PATCH 21/33] fix: hashtable_impl::clone_from functor copying and
 exception rollback

The hash function and equality were copied only by the structural copy and
after being used; the rollback of the structural copy leaked the clones of
the current bucket, could run past the destination buckets and left size and
cache stale; fastmod tables got a bucket count stored as their size index.
---
 include/boost/intrusive/hashtable.hpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 752b75f..197b47a 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3939,6 +3939,9 @@ class hashtable_impl
    void priv_clone_from(MaybeConstHashtableImpl &src, Cloner cloner, Disposer disposer)
    {
       this->clear_and_dispose(disposer);
+      //Copy functors first, as cloning uses them
+      this->priv_hasher() = src.priv_hasher();
+      this->priv_equal()  = src.priv_equal();
       if(!constant_time_size || !src.empty()){
          const size_type src_bucket_count = src.bucket_count();
          const size_type dst_bucket_count = this->bucket_count();
@@ -4001,14 +4004,10 @@ class hashtable_impl
       //First clone the first ones
       const size_type src_bucket_count = src.bucket_count();
       const size_type dst_bucket_count = this->bucket_count();
-      size_type constructed = 0;
-      typedef typename internal_type::template typeof_node_disposer<Disposer>::type NodeDisposer;
-      NodeDisposer node_disp(disposer, &this->priv_value_traits());
 
-      exception_bucket_disposer<bucket_type, slist_node_algorithms, NodeDisposer, size_type>
-         rollback(this->priv_bucket(0), node_disp, constructed);
+      detail::exception_disposer<hashtable_impl, Disposer> rollback(*this, disposer);
       //Now insert the remaining ones using the modulo trick
-      for( //"constructed" already initialized
+      for( size_type constructed = 0
          ; constructed < src_bucket_count
          ; ++constructed){
 
@@ -4023,13 +4022,8 @@ class hashtable_impl
                (new_n, r, this->priv_stored_hash(b, store_hash_t()), cloner);
          }
       }
-      this->priv_hasher() = src.priv_hasher();
-      this->priv_equal()  = src.priv_equal();
+      //Size and cache were already updated by each insertion
       rollback.release();
-      this->priv_size_count(src.priv_size_count());
-      this->split_count(dst_bucket_count);
-      this->priv_set_cache_bucket_num(0u);
-      this->priv_erasure_update_cache();
    }
 
    iterator priv_insert_equal_after_find(reference value, size_type bucket_num, std::size_t hash_value, siterator prev, bool const next_is_in_group)
-- 
2.43.0


From 65019c6c7e28bbaaa692375ad830c994fbf60657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:03 +0000
Subject: [PATCH 22/33] fix: treap operations documented to throw with the
 strong guarantee were noexcept

---
 include/boost/intrusive/treap.hpp     | 16 +++++++--------
 include/boost/intrusive/treap_set.hpp | 28 +++++++++++++--------------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/include/boost/intrusive/treap.hpp b/include/boost/intrusive/treap.hpp
index 4d8c916..0514fc1 100644
--- a/include/boost/intrusive/treap.hpp
+++ b/include/boost/intrusive/treap.hpp
@@ -777,7 +777,7 @@ class treap_impl
    //! the successor of "value" container ordering invariant will be broken.
    //! This is a low-level function to be used only for performance reasons
    //! by advanced users.
-   iterator insert_before(const_iterator pos, reference value) BOOST_NOEXCEPT
+   iterator insert_before(const_iterator pos, reference value)
    {
       node_ptr to_insert(this->get_value_traits().to_node_ptr(value));
       BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(!safemode_or_autounlink || node_algorithms::unique(to_insert));
@@ -807,7 +807,7 @@ class treap_impl
    //!   This function is slightly more efficient than using "insert_before".
    //!   This is a low-level function to be used only for performance reasons
    //!   by advanced users.
-   void push_back(reference value) BOOST_NOEXCEPT
+   void push_back(reference value)
    {
       node_ptr to_insert(this->get_value_traits().to_node_ptr(value));
       BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(!safemode_or_autounlink || node_algorithms::unique(to_insert));
@@ -830,7 +830,7 @@ class treap_impl
    //!   This function is slightly more efficient than using "insert_before".
    //!   This is a low-level function to be used only for performance reasons
    //!   by advanced users.
-   void push_front(reference value) BOOST_NOEXCEPT
+   void push_front(reference value)
    {
       node_ptr to_insert(this->get_value_traits().to_node_ptr(value));
       BOOST_INTRUSIVE_SAFE_HOOK_DEFAULT_ASSERT(!safemode_or_autounlink || node_algorithms::unique(to_insert));
@@ -847,7 +847,7 @@ class treap_impl
    //!
    //! <b>Note</b>: Invalidates the iterators (but not the references)
    //!    to the erased elements. No destructors are called.
-   iterator erase(const_iterator i) BOOST_NOEXCEPT
+   iterator erase(const_iterator i)
    {
       const_iterator ret(i);
       ++ret;
@@ -870,7 +870,7 @@ class treap_impl
    //!
    //! <b>Note</b>: Invalidates the iterators (but not the references)
    //!    to the erased elements. No destructors are called.
-   iterator erase(const_iterator b, const_iterator e) BOOST_NOEXCEPT
+   iterator erase(const_iterator b, const_iterator e)
    {  size_type n;   return private_erase(b, e, n);   }
 
    //! <b>Effects</b>: Erases all the elements with the given value.
@@ -921,7 +921,7 @@ class treap_impl
    //! <b>Note</b>: Invalidates the iterators
    //!    to the erased elements.
    template<class Disposer>
-   iterator erase_and_dispose(const_iterator i, Disposer disposer) BOOST_NOEXCEPT
+   iterator erase_and_dispose(const_iterator i, Disposer disposer)
    {
       node_ptr to_erase(i.pointed_node());
       iterator ret(this->erase(i));
@@ -931,7 +931,7 @@ class treap_impl
 
    #if !defined(BOOST_INTRUSIVE_DOXYGEN_INVOKED)
    template<class Disposer>
-   iterator erase_and_dispose(iterator i, Disposer disposer) BOOST_NOEXCEPT
+   iterator erase_and_dispose(iterator i, Disposer disposer)
    {  return this->erase_and_dispose(const_iterator(i), disposer);   }
    #endif
 
@@ -948,7 +948,7 @@ class treap_impl
    //! <b>Note</b>: Invalidates the iterators
    //!    to the erased elements.
    template<class Disposer>
-   iterator erase_and_dispose(const_iterator b, const_iterator e, Disposer disposer) BOOST_NOEXCEPT
+   iterator erase_and_dispose(const_iterator b, const_iterator e, Disposer disposer)
    {  size_type n;   return private_erase(b, e, n, disposer);   }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
diff --git a/include/boost/intrusive/treap_set.hpp b/include/boost/intrusive/treap_set.hpp
index ea8cd59..af62d74 100644
--- a/include/boost/intrusive/treap_set.hpp
+++ b/include/boost/intrusive/treap_set.hpp
@@ -279,19 +279,19 @@ class treap_set_impl
 
    #ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
    //! @copydoc ::boost::intrusive::treap::insert_before
-   iterator insert_before(const_iterator pos, reference value) BOOST_NOEXCEPT;
+   iterator insert_before(const_iterator pos, reference value);
 
    //! @copydoc ::boost::intrusive::treap::push_back
-   void push_back(reference value) BOOST_NOEXCEPT;
+   void push_back(reference value);
 
    //! @copydoc ::boost::intrusive::treap::push_front
-   void push_front(reference value) BOOST_NOEXCEPT;
+   void push_front(reference value);
 
    //! @copydoc ::boost::intrusive::treap::erase(const_iterator)
-   iterator erase(const_iterator i) BOOST_NOEXCEPT;
+   iterator erase(const_iterator i);
 
    //! @copydoc ::boost::intrusive::treap::erase(const_iterator,const_iterator)
-   iterator erase(const_iterator b, const_iterator e) BOOST_NOEXCEPT;
+   iterator erase(const_iterator b, const_iterator e);
 
    //! @copydoc ::boost::intrusive::treap::erase(const key_type &)
    size_type erase(const key_type &key);
@@ -302,11 +302,11 @@ class treap_set_impl
 
    //! @copydoc ::boost::intrusive::treap::erase_and_dispose(const_iterator,Disposer)
    template<class Disposer>
-   iterator erase_and_dispose(const_iterator i, Disposer disposer) BOOST_NOEXCEPT;
+   iterator erase_and_dispose(const_iterator i, Disposer disposer);
 
    //! @copydoc ::boost::intrusive::treap::erase_and_dispose(const_iterator,const_iterator,Disposer)
    template<class Disposer>
-   iterator erase_and_dispose(const_iterator b, const_iterator e, Disposer disposer) BOOST_NOEXCEPT;
+   iterator erase_and_dispose(const_iterator b, const_iterator e, Disposer disposer);
 
    //! @copydoc ::boost::intrusive::treap::erase_and_dispose(const key_type &, Disposer)
    template<class Disposer>
@@ -809,19 +809,19 @@ class treap_multiset_impl
 
    #ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
    //! @copydoc ::boost::intrusive::treap::insert_before
-   iterator insert_before(const_iterator pos, reference value) BOOST_NOEXCEPT;
+   iterator insert_before(const_iterator pos, reference value);
 
    //! @copydoc ::boost::intrusive::treap::push_back
-   void push_back(reference value) BOOST_NOEXCEPT;
+   void push_back(reference value);
 
    //! @copydoc ::boost::intrusive::treap::push_front
-   void push_front(reference value) BOOST_NOEXCEPT;
+   void push_front(reference value);
 
    //! @copydoc ::boost::intrusive::treap::erase(const_iterator)
-   iterator erase(const_iterator i) BOOST_NOEXCEPT;
+   iterator erase(const_iterator i);
 
    //! @copydoc ::boost::intrusive::treap::erase(const_iterator,const_iterator)
-   iterator erase(const_iterator b, const_iterator e) BOOST_NOEXCEPT;
+   iterator erase(const_iterator b, const_iterator e);
 
    //! @copydoc ::boost::intrusive::treap::erase(const key_type &)
    size_type erase(const key_type &key);
@@ -832,11 +832,11 @@ class treap_multiset_impl
 
    //! @copydoc ::boost::intrusive::treap::erase_and_dispose(const_iterator,Disposer)
    template<class Disposer>
-   iterator erase_and_dispose(const_iterator i, Disposer disposer) BOOST_NOEXCEPT;
+   iterator erase_and_dispose(const_iterator i, Disposer disposer);
 
    //! @copydoc ::boost::intrusive::treap::erase_and_dispose(const_iterator,const_iterator,Disposer)
    template<class Disposer>
-   iterator erase_and_dispose(const_iterator b, const_iterator e, Disposer disposer) BOOST_NOEXCEPT;
+   iterator erase_and_dispose(const_iterator b, const_iterator e, Disposer disposer);
 
    //! @copydoc ::boost::intrusive::treap::erase_and_dispose(const key_type &, Disposer)
    template<class Disposer>
-- 
2.43.0


From bcae9de58c713d75a6daff9e8947881cfdef6226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:12 +0000
Subject: [PATCH 23/33] fix: list and slist remove(value) documented to throw
 were noexcept

---
 include/boost/intrusive/list.hpp  | 4 ++--
 include/boost/intrusive/slist.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/intrusive/list.hpp b/include/boost/intrusive/list.hpp
index 9871d97..2d2429a 100644
--- a/include/boost/intrusive/list.hpp
+++ b/include/boost/intrusive/list.hpp
@@ -1116,7 +1116,7 @@ class list_impl
    //!
    //! <b>Note</b>: The relative order of elements that are not removed is unchanged,
    //!   and iterators to elements that are not removed remain valid.
-   void remove(const_reference value) BOOST_NOEXCEPT
+   void remove(const_reference value)
    {  this->remove_if(detail::equal_to_value<const_reference>(value));  }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
@@ -1131,7 +1131,7 @@ class list_impl
    //! <b>Note</b>: The relative order of elements that are not removed is unchanged,
    //!   and iterators to elements that are not removed remain valid.
    template<class Disposer>
-   void remove_and_dispose(const_reference value, Disposer disposer) BOOST_NOEXCEPT
+   void remove_and_dispose(const_reference value, Disposer disposer)
    {  this->remove_and_dispose_if(detail::equal_to_value<const_reference>(value), disposer);  }
 
    //! <b>Effects</b>: Removes all the elements for which a specified
diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index 301a934..c9d2fc7 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1593,7 +1593,7 @@ class slist_impl
    //! <b>Note</b>: The relative order of elements that are not removed is unchanged,
    //!   and iterators to elements that are not removed remain valid. This function is
    //!   linear time: it performs exactly size() comparisons for equality.
-   void remove(const_reference value) BOOST_NOEXCEPT
+   void remove(const_reference value)
    {  this->remove_if(detail::equal_to_value<const_reference>(value));  }
 
    //! <b>Requires</b>: Disposer::operator()(pointer) shouldn't throw.
@@ -1608,7 +1608,7 @@ class slist_impl
    //! <b>Note</b>: The relative order of elements that are not removed is unchanged,
    //!   and iterators to elements that are not removed remain valid.
    template<class Disposer>
-   void remove_and_dispose(const_reference value, Disposer disposer) BOOST_NOEXCEPT
+   void remove_and_dispose(const_reference value, Disposer disposer)
    {  this->remove_and_dispose_if(detail::equal_to_value<const_reference>(value), disposer);  }
 
    //! <b>Effects</b>: Removes all the elements for which a specified
-- 
2.43.0


From 133e4012860ebf120eae6937a522c6bae5623a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:01 +0000
Subject: [PATCH 24/33] fix: restore the sentinel of linear buckets when rehash
 throws

---
 include/boost/intrusive/hashtable.hpp | 29 +++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 197b47a..86a6f05 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -728,6 +728,31 @@ struct group_functions
    }
 };
 
+//Sets again the sentinel bucket of a linear bucket array if an exception is thrown
+template<class SlistNodeAlgorithms, class SlistNodePtr>
+class exception_sentinel_restorer
+{
+   exception_sentinel_restorer(const exception_sentinel_restorer&);
+   exception_sentinel_restorer &operator=(const exception_sentinel_restorer&);
+
+   public:
+   explicit exception_sentinel_restorer(const SlistNodePtr &sentinel)
+      :  sentinel_(sentinel)
+   {}
+
+   inline void release()
+   {  sentinel_ = SlistNodePtr();  }
+
+   ~exception_sentinel_restorer()
+   {
+      if(sentinel_)
+         SlistNodeAlgorithms::set_sentinel(sentinel_);
+   }
+
+   private:
+   SlistNodePtr sentinel_;
+};
+
 template<class BucketType, class SplitTraits, class SlistNodeAlgorithms>
 class incremental_rehash_rollback
 {
@@ -3851,6 +3876,9 @@ class hashtable_impl
       typedef typename internal_type::template typeof_node_disposer<detail::null_disposer>::type NodeDisposer;
       typedef exception_bucket_disposer<bucket_type, slist_node_algorithms, NodeDisposer, size_type> ArrayDisposer;
       NodeDisposer nd(this->make_node_disposer(detail::null_disposer()));
+      //The old array is kept if something goes wrong, so it needs its sentinel after the rollback
+      exception_sentinel_restorer<slist_node_algorithms, slist_node_ptr> sentinel_rollback
+         (linear_buckets ? old_buckets[difference_type(old_bucket_count)].get_node_ptr() : slist_node_ptr());
       ArrayDisposer rollback1(new_buckets[0], nd, new_bucket_count);
       ArrayDisposer rollback2(old_buckets[0], nd, old_bucket_count);
 
@@ -3933,6 +3961,7 @@ class hashtable_impl
       this->priv_set_cache_bucket_num(new_first_bucket_num);
       rollback1.release();
       rollback2.release();
+      sentinel_rollback.release();
    }
 
    template <class MaybeConstHashtableImpl, class Cloner, class Disposer>
-- 
2.43.0


From 4fb5b13301bbc9be7fb27d69bd93ae7028427aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:23 +0000
Subject: [PATCH 25/33] fix: sgtree swap(x, y) and move assignment left the
 balance data behind

The free function was bstree's, which slices; move assignment, documented as
equivalent to swap, kept the maximum size and overwrote the balance factor.
---
 include/boost/intrusive/sgtree.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/boost/intrusive/sgtree.hpp b/include/boost/intrusive/sgtree.hpp
index aaee165..576420e 100644
--- a/include/boost/intrusive/sgtree.hpp
+++ b/include/boost/intrusive/sgtree.hpp
@@ -316,10 +316,7 @@ class sgtree_impl
 
    //! @copydoc ::boost::intrusive::bstree::operator=(bstree &&)
    sgtree_impl& operator=(BOOST_RV_REF(sgtree_impl) x)
-   {
-      this->get_alpha_traits() = x.get_alpha_traits();
-      return static_cast<sgtree_impl&>(tree_type::operator=(BOOST_MOVE_BASE(tree_type, x)));
-   }
+   {  this->swap(x); return *this;  }
 
    /// @cond
    private:
@@ -889,10 +886,11 @@ class sgtree_impl
 
    friend bool operator>=(const sgtree_impl &x, const sgtree_impl &y);
 
-   friend void swap(sgtree_impl &x, sgtree_impl &y);
-
    #endif   //#ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
 
+   friend void swap(sgtree_impl &x, sgtree_impl &y)
+   {  x.swap(y);  }
+
    //! <b>Returns</b>: The balance factor (alpha) used in this tree
    //!
    //! <b>Throws</b>: Nothing.
-- 
2.43.0


From b18b57c9ddadcd8463dd5c3da915605dacf97e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:23 +0000
Subject: [PATCH 26/33] fix: treap swap(x, y) did not exchange the priority
 comparisons

The free function was bstree's, which slices.
---
 include/boost/intrusive/treap.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/intrusive/treap.hpp b/include/boost/intrusive/treap.hpp
index 0514fc1..afd9067 100644
--- a/include/boost/intrusive/treap.hpp
+++ b/include/boost/intrusive/treap.hpp
@@ -1214,10 +1214,11 @@ class treap_impl
 
    friend bool operator>=(const treap_impl &x, const treap_impl &y);
 
-   friend void swap(treap_impl &x, treap_impl &y);
-
    #endif   //#ifdef BOOST_INTRUSIVE_DOXYGEN_INVOKED
 
+   friend void swap(treap_impl &x, treap_impl &y)
+   {  x.swap(y);  }
+
    /// @cond
    private:
    template<class Disposer>
-- 
2.43.0


From 0077df38955fb17eece2143ddd63ad7f65553c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 27/33] fix: hashtable operator== skipped groups, ran past the
 end and ignored linear sizes

---
 include/boost/intrusive/hashtable.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/boost/intrusive/hashtable.hpp b/include/boost/intrusive/hashtable.hpp
index 86a6f05..02b4ef1 100644
--- a/include/boost/intrusive/hashtable.hpp
+++ b/include/boost/intrusive/hashtable.hpp
@@ -3774,14 +3774,11 @@ class hashtable_impl
    friend bool operator==(const hashtable_impl &x, const hashtable_impl &y)
    {
       //Taken from N3068
-      if(constant_time_size && x.size() != y.size()){
+      if(x.size() != y.size()){
          return false;
       }
 
-      if (boost::intrusive::iterator_udistance(x.begin(), x.end()) != x.size())
-         return false;
-         
-      for (const_iterator ix = x.cbegin(), ex = x.cend(); ix != ex; ++ix){
+      for (const_iterator ix = x.cbegin(), ex = x.cend(); ix != ex; ){
          std::pair<const_iterator, const_iterator> eqx(x.equal_range(key_of_value()(*ix))),
                                                    eqy(y.equal_range(key_of_value()(*ix)));
          if (boost::intrusive::iterator_distance(eqx.first, eqx.second) !=
-- 
2.43.0


From b5049bec381ecfb3aa0566a7ca4b06378ee0c9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:10 +0000
Subject: [PATCH 28/33] fix: unordered_set operator== accepted supersets
 without constant-time size

---
 include/boost/intrusive/unordered_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/intrusive/unordered_set.hpp b/include/boost/intrusive/unordered_set.hpp
index c53ec52..5494e33 100644
--- a/include/boost/intrusive/unordered_set.hpp
+++ b/include/boost/intrusive/unordered_set.hpp
@@ -386,7 +386,7 @@ class unordered_set_impl
 
    friend bool operator==(const unordered_set_impl &x, const unordered_set_impl &y)
    {
-      if(table_type::constant_time_size && x.size() != y.size()){
+      if(x.size() != y.size()){
          return false;
       }
       //Find each element of x in y
-- 
2.43.0


From b4634680e55738e561b20ade2eb23ca1b911d00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 29/33] fix: iterator assignment left the value traits pointer
 of stateful traits unset

---
 include/boost/intrusive/detail/iiterator.hpp      | 2 +-
 include/boost/intrusive/detail/list_iterator.hpp  | 2 +-
 include/boost/intrusive/detail/slist_iterator.hpp | 2 +-
 include/boost/intrusive/detail/tree_iterator.hpp  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/intrusive/detail/iiterator.hpp b/include/boost/intrusive/detail/iiterator.hpp
index 75b6d83..a030a76 100644
--- a/include/boost/intrusive/detail/iiterator.hpp
+++ b/include/boost/intrusive/detail/iiterator.hpp
@@ -85,7 +85,7 @@ struct iiterator_members
 {
 
    inline iiterator_members()
-      : nodeptr_()//Value initialization to achieve "null iterators" (N3644)
+      : nodeptr_(), ptr_()//Value initialization to achieve "null iterators" (N3644)
    {}
 
    inline iiterator_members(const NodePtr &n_ptr, const StoredPointer &data)
diff --git a/include/boost/intrusive/detail/list_iterator.hpp b/include/boost/intrusive/detail/list_iterator.hpp
index 0a10e84..3e8bb3b 100644
--- a/include/boost/intrusive/detail/list_iterator.hpp
+++ b/include/boost/intrusive/detail/list_iterator.hpp
@@ -76,7 +76,7 @@ class list_iterator
    {}
 
    inline list_iterator &operator=(const list_iterator &other)
-   {  members_.nodeptr_ = other.members_.nodeptr_;  return *this;  }
+   {  members_ = other.members_;  return *this;  }
 
    inline node_ptr pointed_node() const
    { return members_.nodeptr_; }
diff --git a/include/boost/intrusive/detail/slist_iterator.hpp b/include/boost/intrusive/detail/slist_iterator.hpp
index 64387c4..002454f 100644
--- a/include/boost/intrusive/detail/slist_iterator.hpp
+++ b/include/boost/intrusive/detail/slist_iterator.hpp
@@ -82,7 +82,7 @@ class slist_iterator
    {}
 
    inline slist_iterator &operator=(const slist_iterator &other)
-   {  members_.nodeptr_ = other.members_.nodeptr_;  return *this;  }
+   {  members_ = other.members_;  return *this;  }
 
    inline node_ptr pointed_node() const
    { return members_.nodeptr_; }
diff --git a/include/boost/intrusive/detail/tree_iterator.hpp b/include/boost/intrusive/detail/tree_iterator.hpp
index f97cecb..a47bf1c 100644
--- a/include/boost/intrusive/detail/tree_iterator.hpp
+++ b/include/boost/intrusive/detail/tree_iterator.hpp
@@ -84,7 +84,7 @@ class tree_iterator
    {}
 
    inline tree_iterator &operator=(const tree_iterator &other)
-   {  members_.nodeptr_ = other.members_.nodeptr_;  return *this;  }
+   {  members_ = other.members_;  return *this;  }
 
    inline tree_iterator &operator=(node_ptr nodeptr)
    {  members_.nodeptr_ = nodeptr;  return *this;  }
-- 
2.43.0


From 90e870cc983a7e17f8b1ab8439c03aec7dfe648c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:59 +0000
Subject: [PATCH 30/33] fix: tree hooks' swap_nodes dereferenced null when one
 of the nodes was not inserted

---
 include/boost/intrusive/avltree_algorithms.hpp | 14 ++++++++++++++
 include/boost/intrusive/bstree_algorithms.hpp  | 14 ++++++++++++++
 include/boost/intrusive/rbtree_algorithms.hpp  | 14 ++++++++++++++
 3 files changed, 42 insertions(+)

diff --git a/include/boost/intrusive/avltree_algorithms.hpp b/include/boost/intrusive/avltree_algorithms.hpp
index 8195490..f7dbca4 100644
--- a/include/boost/intrusive/avltree_algorithms.hpp
+++ b/include/boost/intrusive/avltree_algorithms.hpp
@@ -186,6 +186,20 @@ class avltree_algorithms
       if(node1 == node2)
          return;
 
+      const bool unlinked1 = bstree_algo::unique(node1), unlinked2 = bstree_algo::unique(node2);
+      if(unlinked1 || unlinked2){
+         //If only one of them is inserted in a tree, the other one takes its place
+         if(!unlinked1){
+            replace_node(node1, node2);
+            bstree_algo::init(node1);
+         }
+         else if(!unlinked2){
+            replace_node(node2, node1);
+            bstree_algo::init(node2);
+         }
+         return;
+      }
+
       node_ptr header1(bstree_algo::get_header(node1)), header2(bstree_algo::get_header(node2));
       swap_nodes(node1, header1, node2, header2);
    }
diff --git a/include/boost/intrusive/bstree_algorithms.hpp b/include/boost/intrusive/bstree_algorithms.hpp
index e9bdab2..ded01a7 100644
--- a/include/boost/intrusive/bstree_algorithms.hpp
+++ b/include/boost/intrusive/bstree_algorithms.hpp
@@ -281,6 +281,20 @@ class bstree_algorithms : public bstree_algorithms_base<NodeTraits>
       if(node1 == node2)
          return;
 
+      const bool unlinked1 = unique(node1), unlinked2 = unique(node2);
+      if(unlinked1 || unlinked2){
+         //If only one of them is inserted in a tree, the other one takes its place
+         if(!unlinked1){
+            replace_node(node1, node2);
+            init(node1);
+         }
+         else if(!unlinked2){
+            replace_node(node2, node1);
+            init(node2);
+         }
+         return;
+      }
+
       node_ptr header1(base_type::get_header(node1)), header2(base_type::get_header(node2));
       swap_nodes(node1, header1, node2, header2);
    }
diff --git a/include/boost/intrusive/rbtree_algorithms.hpp b/include/boost/intrusive/rbtree_algorithms.hpp
index bbb3f0f..e093992 100644
--- a/include/boost/intrusive/rbtree_algorithms.hpp
+++ b/include/boost/intrusive/rbtree_algorithms.hpp
@@ -210,6 +210,20 @@ class rbtree_algorithms
       if(node1 == node2)
          return;
 
+      const bool unlinked1 = bstree_algo::unique(node1), unlinked2 = bstree_algo::unique(node2);
+      if(unlinked1 || unlinked2){
+         //If only one of them is inserted in a tree, the other one takes its place
+         if(!unlinked1){
+            replace_node(node1, node2);
+            bstree_algo::init(node1);
+         }
+         else if(!unlinked2){
+            replace_node(node2, node1);
+            bstree_algo::init(node2);
+         }
+         return;
+      }
+
       node_ptr header1(bstree_algo::get_header(node1)), header2(bstree_algo::get_header(node2));
       swap_nodes(node1, header1, node2, header2);
    }
-- 
2.43.0


From 4d176e3c02534009bf5ff7e703730a704f39026b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:59 +0000
Subject: [PATCH 31/33] fix: unordered hooks' swap_nodes ignored groups and
 stored hashes

---
 .../boost/intrusive/unordered_set_hook.hpp    | 37 ++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/include/boost/intrusive/unordered_set_hook.hpp b/include/boost/intrusive/unordered_set_hook.hpp
index e0c306a..268d1f6 100644
--- a/include/boost/intrusive/unordered_set_hook.hpp
+++ b/include/boost/intrusive/unordered_set_hook.hpp
@@ -115,6 +115,28 @@ struct unordered_group_adapter
    {  NodeTraits::set_prev_in_group(n, next);   }
 };
 
+//Hash values stored in the nodes describe the position, so they must be exchanged when nodes are swapped
+template<class NodeTraits>
+struct unordered_stored_hash
+{
+   inline static void swap(typename NodeTraits::node_ptr, typename NodeTraits::node_ptr) BOOST_NOEXCEPT
+   {}
+};
+
+template<class VoidPointer, bool OptimizeMultiKey>
+struct unordered_stored_hash< unordered_node_traits<VoidPointer, true, OptimizeMultiKey> >
+{
+   typedef unordered_node_traits<VoidPointer, true, OptimizeMultiKey> node_traits;
+   typedef typename node_traits::node_ptr                             node_ptr;
+
+   inline static void swap(node_ptr n1, node_ptr n2) BOOST_NOEXCEPT
+   {
+      const std::size_t h1 = node_traits::get_hash(n1);
+      node_traits::set_hash(n1, node_traits::get_hash(n2));
+      node_traits::set_hash(n2, h1);
+   }
+};
+
 template<class NodeTraits>
 struct unordered_algorithms
    : public circular_slist_algorithms<NodeTraits>
@@ -144,12 +166,25 @@ struct unordered_algorithms
       base_type::unlink(n);
       group_algorithms::unlink(n);
    }
+
+   inline static void swap_nodes(typename base_type::node_ptr n1, typename base_type::node_ptr n2) BOOST_NOEXCEPT
+   {
+      base_type::swap_nodes(n1, n2);
+      group_algorithms::swap_nodes(n1, n2);
+      unordered_stored_hash<NodeTraits>::swap(n1, n2);
+   }
 };
 
 //Class to avoid defining the same algo as a circular list, as hooks would be ambiguous between them
 template<class Algo>
 struct uset_algo_wrapper : public Algo
-{};
+{
+   inline static void swap_nodes(typename Algo::node_ptr n1, typename Algo::node_ptr n2) BOOST_NOEXCEPT
+   {
+      Algo::swap_nodes(n1, n2);
+      unordered_stored_hash<typename Algo::node_traits>::swap(n1, n2);
+   }
+};
 
 template<class VoidPointer, bool StoreHash, bool OptimizeMultiKey>
 struct get_uset_node_traits
-- 
2.43.0


From e9072fa1fe3d034f8ca129cdd1d7880fe9464f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:46 +0000
Subject: [PATCH 32/33] fix: list and slist merge compared more often than
 documented

---
 include/boost/intrusive/list.hpp  | 2 ++
 include/boost/intrusive/slist.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/boost/intrusive/list.hpp b/include/boost/intrusive/list.hpp
index 2d2429a..80d6988 100644
--- a/include/boost/intrusive/list.hpp
+++ b/include/boost/intrusive/list.hpp
@@ -1093,6 +1093,8 @@ class list_impl
                ++ix; ++n;
             } while(ix != ex && p(*ix, *b));
             this->splice(b, x, x.begin(), ix, n);
+            //x's new first element was already compared with *b: it does not precede it
+            ++b;
          }
       }
    }
diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index c9d2fc7..db9bf86 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1550,6 +1550,8 @@ class slist_impl
             } while(++(ibx_next = ibx) != ex && p(*ibx_next, *bb_next));
             this->splice_after(bb, x, x.before_begin(), ibx, n);
             if(l) *l = ibx;
+            //x's new first element was already compared with *bb_next: it does not precede it
+            bb = bb_next;
          }
       }
    }
-- 
2.43.0


From fa030925f7c8819c9b7af13d785593872ecc5c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:49 +0000
Subject: [PATCH 33/33] fix: slist::check() did not notice a wrong cached last
 element in an empty circular list

---
 include/boost/intrusive/slist.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/intrusive/slist.hpp b/include/boost/intrusive/slist.hpp
index db9bf86..012ec23 100644
--- a/include/boost/intrusive/slist.hpp
+++ b/include/boost/intrusive/slist.hpp
@@ -1937,6 +1937,7 @@ class slist_impl
       BOOST_INTRUSIVE_INVARIANT_ASSERT(linear || node_traits::get_next(header_ptr));
       if (node_traits::get_next(header_ptr) == header_ptr)
       {
+         BOOST_INTRUSIVE_INVARIANT_ASSERT(!cache_last || get_last_node() == header_ptr);
          BOOST_INTRUSIVE_INVARIANT_ASSERT(!constant_time_size || this->priv_size_traits().get_size() == 0);
          return;
       }
-- 
2.43.0

