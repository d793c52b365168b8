// C24: safe-link and auto-unlink hooks know whether their element is contained, unlink themselves, detect misuse and swap
// CK: 0 list, 1 slist, 2 rb, 3 avl, 4 splay, 5 scapegoat, 6 treap, 7 bs, 8 hash
// LM: 1 safe_link, 2 auto_unlink; FL: bit 0 member hook, bit 1 any hook, bit 2 second variant of the hook or container, bit 3 another one
#include "seq.h"
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/any_hook.hpp>
using namespace boost::intrusive;
enum { AUTO = LM == 2, MEM = FL & 1, ANYH = (FL & 2) != 0, VA = (FL & 4) != 0, VB = (FL & 8) != 0 };
typedef link_mode<LM == 2 ? auto_unlink : safe_link> Lm;
#if FL & 2
typedef any_base_hook<Lm> HB; typedef any_member_hook<Lm> HM;
#elif CK == 0
typedef list_base_hook<Lm> HB; typedef list_member_hook<Lm> HM;
#elif CK == 1
typedef slist_base_hook<Lm> HB; typedef slist_member_hook<Lm> HM;
#elif CK == 2
typedef set_base_hook<Lm, optimize_size<VA> > HB; typedef set_member_hook<Lm, optimize_size<VA> > HM;
#elif CK == 3
typedef avl_set_base_hook<Lm, optimize_size<VA> > HB; typedef avl_set_member_hook<Lm, optimize_size<VA> > HM;
#elif CK == 8
typedef unordered_set_base_hook<Lm, store_hash<VA>, optimize_multikey<VB> > HB; typedef unordered_set_member_hook<Lm, store_hash<VA>, optimize_multikey<VB> > HM;
#else
typedef bs_set_base_hook<Lm> HB; typedef bs_set_member_hook<Lm> HM;
#endif
#if FL & 1
struct V { int id; uint8_t k; HM h; V(int i, uint8_t q) : id(i), k(q) {} bool is_linked() const { return h.is_linked(); }
#if !(FL & 2)
   void swap_nodes(V &o) { h.swap_nodes(o.h); }
#endif
#if LM == 2
   void unlink() { h.unlink(); }
#endif
};
typedef member_hook<V, HM, &V::h> XO;
#else
struct V : HB { int id; uint8_t k; V(int i, uint8_t q) : id(i), k(q) {} };
typedef base_hook<HB> XO;
#endif
#if FL & 2
template <int K, class X> struct Any { typedef any_to_bs_set_hook<X> type; };
template <class X> struct Any<0, X> { typedef any_to_list_hook<X> type; };
template <class X> struct Any<1, X> { typedef any_to_slist_hook<X> type; };
template <class X> struct Any<2, X> { typedef any_to_set_hook<X> type; };
template <class X> struct Any<3, X> { typedef any_to_avl_set_hook<X> type; };
template <class X> struct Any<8, X> { typedef any_to_unordered_set_hook<X> type; };
typedef Any<CK, XO>::type O;
#else
typedef XO O;
#endif
static bool operator<(const V &a, const V &b) { return a.k < b.k; }
static bool operator==(const V &a, const V &b) { return a.k == b.k; }
static bool priority_order(const V &a, const V &b) { return (a.id * 5 % 7) < (b.id * 5 % 7); }
struct Hash { std::size_t operator()(const V &v) const { return v.k; } };
typedef constant_time_size<!AUTO && (CK == 5 || !VA || CK > 1)> Cts;
enum { BK = 2, ORDERED = CK >= 2 && CK < 8, HAS = CK != 8, LIN = CK == 1 && VB };
#if CK == 0
typedef list<V, O, Cts> C;
#elif CK == 1
typedef slist<V, O, Cts, linear<LIN>, cache_last<!AUTO && !LIN && VA> > C;
#elif CK == 2
typedef multiset<V, O, Cts> C; typedef set<V, O, Cts> U;
#elif CK == 3
typedef avl_multiset<V, O, Cts> C; typedef avl_set<V, O, Cts> U;
#elif CK == 4
typedef splay_multiset<V, O, Cts> C; typedef splay_set<V, O, Cts> U;
#elif CK == 5
typedef sg_multiset<V, O, floating_point<!VA> > C; typedef sg_set<V, O, floating_point<!VA> > U;
#elif CK == 6
typedef treap_multiset<V, O, Cts> C; typedef treap_set<V, O, Cts> U;
#elif CK == 7
typedef bs_multiset<V, O, Cts> C; typedef bs_set<V, O, Cts> U;
#else
typedef unordered_multiset<V, O, hash<Hash>, Cts, cache_begin<!AUTO && VB> > C; typedef unordered_set<V, O, hash<Hash>, Cts, cache_begin<!AUTO && VB> > U;
#endif
enum { NE = 4 };
struct World { V *v[NE]; World() { for (int i = 0; i < NE; ++i) v[i] = 0; } ~World() { for (int i = 0; i < NE; ++i) delete v[i]; } void mk(int n, int keys) { for (int i = 0; i < n; ++i) v[i] = new V(i, keys ? (uint8_t)vp_pick(keys) : 0); } };
template <class CC> struct BoxT {
   World &w; Mdl m;
#if CK == 8
   typename CC::bucket_type b[BK]; CC c; BoxT(World &x) : w(x), c(typename CC::bucket_traits(b, BK)) {} ~BoxT() { c.clear(); }
   void put(int id) { c.insert(*w.v[id]); m.ins(m.n, id); }
#else
   CC c; BoxT(World &x) : w(x) {}
#if CK == 0
   void put(int id) { c.push_back(*w.v[id]); m.ins(m.n, id); }
#elif CK == 1
   void put(int id) { c.push_front(*w.v[id]); m.ins(0, id); }
#else
   void put(int id) { c.insert(*w.v[id]); int p = 0; while (p < m.n && !(w.v[id]->k < w.v[m.a[p]]->k)) ++p; m.ins(p, id); }
#endif
#endif
   void del(int id) { c.erase(c.iterator_to(*w.v[id])); m.del(m.find(id)); }
   void check(int n, bool linked = true) {
      bool seen[NE] = {0}; int k = 0; for (typename CC::iterator it = c.begin(); it != c.end() && k <= m.n; ++it, ++k) { int id = it->id; bool ok = id >= 0 && id < NE && !seen[id] && w.v[id] == &*it && (HAS ? m.a[k] == id : m.find(id) >= 0); seen[id] = true; vp_assert(ok, "hooks: the container holds exactly its elements"); }
      vp_assert(k == m.n && (int)c.size() == k && c.empty() == (k == 0), "hooks: the container holds exactly its elements");
#if CK == 8
      for (int i = 0; i < m.n; ++i) { V &x = *w.v[m.a[i]]; int e = 0; for (int j = 0; j < m.n; ++j) e += w.v[m.a[j]]->k == x.k; std::pair<typename CC::iterator, typename CC::iterator> r = c.equal_range(x); int g = 0; for (; r.first != r.second && g <= e; ++r.first, ++g) vp_assert(r.first->k == x.k, "hooks: hash lookups find exactly the equal elements"); vp_assert(g == e && c.count(x) == (unsigned)e, "hooks: hash lookups find exactly the equal elements"); }
#elif CK > 1
      for (int i = 0; i < m.n; ++i) { V &x = *w.v[m.a[i]]; int e = 0; for (int j = 0; j < m.n; ++j) e += w.v[m.a[j]]->k == x.k; vp_assert(c.count(x) == (unsigned)e, "hooks: lookups find exactly the equal elements"); }
      { int q = m.n; typename CC::iterator it = c.end(); while (q) { --it; vp_assert(it->id == m.a[--q], "hooks: reverse traversal agrees"); } vp_assert(it == c.begin(), "hooks: reverse traversal agrees"); }
#elif CK == 0
      { int q = m.n; typename CC::iterator it = c.end(); while (q) { --it; vp_assert(it->id == m.a[--q], "hooks: reverse traversal agrees"); } vp_assert(it == c.begin(), "hooks: reverse traversal agrees"); }
#endif
      if (linked) for (int i = 0; i < n; ++i) if (w.v[i]) vp_assert(w.v[i]->is_linked() == (m.find(i) >= 0), "hooks: is_linked tells whether the element is contained");
   }
};
typedef BoxT<C> Box;
enum { KH = VP_B(4, 5), KEYS = CK == 8 ? 3 : 2 };
// histories of insertions, removals, self-unlinking, destruction, copies and assignments
ENTRY(history) { World w; w.mk(3, CK > 1 ? KEYS : 0); Box b(w); b.check(3, !LIN);
   for (int s = 0; s < KH; ++s) { int id = vp_pick(3); V *x = w.v[id]; bool in = b.m.find(id) >= 0;
      switch (vp_pick(AUTO ? 5 : 4)) {
      case 0: if (in) b.del(id); else b.put(id); break;
      case 1: { V cp(*x); vp_assert(!cp.is_linked(), "hooks: a copy is not linked"); if (!LIN || !in || b.m.n > 1) { V as(7, 0); as = *x; vp_assert(!as.is_linked(), "hooks: assigning from a linked element does not link"); } break; }
      case 2: { V o(id, x->k); *x = o; V *y = w.v[(id + 1) % 3]; uint8_t k = x->k; *x = *y; x->id = id; x->k = k; break; } // the hook keeps its state
      case 3: if (!AUTO && in) break; delete x; if (in) b.m.del(b.m.find(id)); w.v[id] = new V(id, CK > 1 ? (uint8_t)(s & 1) : 0); break;
#if LM == 2
      default: x->unlink(); if (in) b.m.del(b.m.find(id)); vp_assert(!x->is_linked(), "hooks: unlink unlinks"); x->unlink(); break;
#endif
      }
      b.check(3, !LIN);
   }
   b.c.clear(); b.m.n = 0; b.check(3); }
// every way of removing elements leaves them unlinked
ENTRY(removal) { World w; w.mk(3, CK > 1 ? KEYS : 0); Box b(w); int n = vp_choose(4); for (int i = 0; i < n; ++i) b.put(i);
   int o[NE], k = 0; for (C::iterator it = b.c.begin(); it != b.c.end(); ++it) o[k++] = it->id;
   if (vp_choose(2)) { int f = vp_choose(n + 1), l = f + vp_choose(n - f + 1);
#if CK == 1
      if (LIN || l < n) b.c.erase_after(f ? nth(b.c.begin(), f - 1) : b.c.before_begin(), nth(b.c.begin(), l)); else b.c.erase(nth(b.c.begin(), f), nth(b.c.begin(), l));
#else
      b.c.erase(nth(b.c.begin(), f), nth(b.c.begin(), l));
#endif
      for (int i = f; i < l; ++i) b.m.del(b.m.find(o[i])); }
#if CK < 2
   else while (!b.c.empty()) { b.c.pop_front(); b.m.del(0); b.check(3, !LIN); }
#else
   else while (!b.c.empty()) { C::iterator it = b.c.begin(); int id = it->id; b.c.erase(it); b.m.del(b.m.find(id)); b.check(3, !LIN); }
#endif
   b.check(3, !LIN); b.c.clear(); b.m.n = 0; b.check(3); }
// the destructor of the container leaves all elements unlinked
ENTRY(container_dtor) { World w; w.mk(3, CK > 1 ? KEYS : 0); { Box b(w); int n = vp_choose(4); for (int i = 0; i < n; ++i) b.put(i); } for (int i = 0; i < 3; ++i) vp_assert(!w.v[i]->is_linked(), "hooks: destroying the container unlinks its elements"); }
#if LM == 1
// the checks of the safe mode fire
#if CK == 8
typedef C::bucket_type BT;
template <class X> struct Tab { BT b[BK]; X c; Tab() : c(typename X::bucket_traits(b, BK)) {} ~Tab() { c.clear(); } };
#else
template <class X> struct Tab { X c; };
#endif
static void where(int n, int &i) { i = vp_choose(n); if (LIN && i == 0) vp_assume(false); }
ENTRY(misuse_destroy) { World *w = new World; w->mk(3, CK > 1 ? KEYS : 0); Box *b = new Box(*w); int n = vp_choose_range(1, 3); for (int i = 0; i < n; ++i) b->put(i); int i; where(n, i); vp_expect_assert(); delete w->v[i]; }
#if CK < 2
template <class X> static void put1(X &c, V &v) { c.push_front(v); }
#else
template <class X> static void put1(X &c, V &v) { c.insert(v); }
#endif
template <class X> static void insert_again() {
   World *w = new World; w->mk(3, 0); for (int i = 0; i < 3; ++i) w->v[i]->k = i; Box *b = new Box(*w); Tab<X> *t = new Tab<X>; int n = vp_choose_range(1, 3); for (int i = 0; i < n; ++i) b->put(i); int i; where(n, i); V &x = *w->v[i]; X &c = t->c; V *extra = new V(9, 5); if (vp_choose(2)) put1(c, *extra); V **r = &w->v[i]; (void)r;
   vp_expect_assert();
#if CK == 0
   switch (vp_choose(7)) { case 0: c.push_back(x); break; case 1: c.push_front(x); break; case 2: c.insert(c.end(), x); break; case 3: c.insert(c.begin(), b->c.iterator_to(x), ++b->c.iterator_to(x)); break; case 4: c.assign(b->c.iterator_to(x), ++b->c.iterator_to(x)); break; case 5: b->c.push_back(x); break; default: new X(b->c.iterator_to(x), ++b->c.iterator_to(x)); }
#elif CK == 1
   switch (vp_choose(7)) { case 0: c.push_front(x); break; case 1: c.insert_after(c.before_begin(), x); break; case 2: c.insert(c.begin(), x); break; case 3: c.insert_after(c.before_begin(), b->c.iterator_to(x), ++b->c.iterator_to(x)); break; case 4: c.assign(b->c.iterator_to(x), ++b->c.iterator_to(x)); break; case 5: b->c.push_front(x); break; default: new X(b->c.iterator_to(x), ++b->c.iterator_to(x)); }
#else
   typename X::insert_commit_data d;
#if CK == 8
   switch (vp_choose(4)) { case 0: c.insert(x); break; case 1: c.insert(b->c.iterator_to(x), ++b->c.iterator_to(x)); break; case 2: c.insert(x); break; default: new X(b->c.iterator_to(x), ++b->c.iterator_to(x), typename X::bucket_traits(t->b, BK)); }
#else
   switch (vp_choose(7)) { case 0: c.insert(x); break; case 1: c.insert(c.begin(), x); break; case 2: c.insert(b->c.iterator_to(x), ++b->c.iterator_to(x)); break; case 3: c.insert_before(c.begin(), x); break; case 4: c.push_back(x); break; case 5: c.push_front(x); break; default: c.insert(c.end(), x); }
#endif
#endif
}
ENTRY(misuse_multi) { insert_again<C>(); }
#if CK > 1
ENTRY(misuse_uniq) { insert_again<U>(); }
ENTRY(misuse_commit) { World *w = new World; w->mk(3, 0); for (int i = 0; i < 3; ++i) w->v[i]->k = i; Box *b = new Box(*w); Tab<U> *t = new Tab<U>; int n = vp_choose_range(1, 3); for (int i = 0; i < n; ++i) b->put(i); int i; where(n, i); V &x = *w->v[i]; U &c = t->c; U::insert_commit_data d;
#if CK == 8
   bool ok = c.insert_check(x, d).second;
#elif CK == 6
   bool ok = vp_choose(2) ? c.insert_check(x, U::key_compare(), x, U::priority_compare(), d).second : c.insert_check(c.end(), x, U::key_compare(), x, U::priority_compare(), d).second;
#else
   bool ok = vp_choose(2) ? c.insert_check(x, d).second : c.insert_check(c.end(), x, d).second;
#endif
   vp_assert(ok, "hooks: insert_check allows the insertion"); vp_expect_assert(); c.insert_commit(x, d); }
#endif
#endif
#if !(FL & 2) && !(CK == 1 && LM == 1 && (FL & 12)) // any hooks have no swap_nodes; a hook cannot know that its slist is linear or caches its last element
// swapping the hooks of two elements exchanges their positions
ENTRY(swap) { World w; w.mk(NE, 0); Box a(w), b(w); int na = vp_choose(4), nb = vp_choose(NE - na > 2 ? 3 : NE - na + 1); for (int i = 0; i < na; ++i) a.put(i); for (int i = 0; i < nb; ++i) b.put(na + i);
   int p = vp_choose(NE), q = vp_choose(NE); vp_assume(p != q); w.v[p]->swap_nodes(*w.v[q]);
   for (int i = 0; i < a.m.n; ++i) a.m.a[i] = a.m.a[i] == p ? q : a.m.a[i] == q ? p : a.m.a[i]; for (int i = 0; i < b.m.n; ++i) b.m.a[i] = b.m.a[i] == p ? q : b.m.a[i] == q ? p : b.m.a[i];
   a.check(NE, false); b.check(NE, false); for (int i = 0; i < NE; ++i) vp_assert(LIN || w.v[i]->is_linked() == (a.m.find(i) >= 0 || b.m.find(i) >= 0), "hooks: swapping exchanges the linked state");
   for (int i = 0; i < NE; ++i) if (a.m.find(i) < 0 && b.m.find(i) < 0) { a.put(i); a.check(NE, false); } while (a.m.n) { a.del(a.m.a[0]); a.check(NE, false); } while (b.m.n) { b.del(b.m.a[b.m.n - 1]); b.check(NE, false); } }
#endif
#if CK == 1 && (FL & 8)
// a linear list marks its end with the same null link that marks an unlinked hook: listed as a known finding
ENTRY(linear_last) { World w; w.mk(3, 0); Box b(w); int n = vp_choose_range(1, 3); for (int i = 0; i < n; ++i) b.put(i); for (int i = n; i-- > 1;) vp_assert(w.v[i]->is_linked(), "hooks: is_linked tells whether the element is contained"); vp_assert(w.v[0]->is_linked(), "hooks: is_linked holds for the last element of a linear list"); }
#endif
