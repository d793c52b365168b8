// C32: every way of locating the hook of an element (HV) works with every container (CK), and a container touches
// nothing of an element but the hook it was given
// HV: 0 base hooks told apart by tags, 1 member hooks, 2 any base hook, 3 any member hook, 4 function hook,
//     5 derivation_value_traits, 6 member_value_traits, 7 stateful value traits
// CK: 0 list, 1 slist, 2 rb, 3 avl, 4 splay, 5 scapegoat, 6 treap, 7 bs, 8 hash
#include "seq.h"
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/splay_set.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/treap_set.hpp>
#include <boost/intrusive/bs_set.hpp>
#include <boost/intrusive/unordered_set.hpp>
#include <boost/intrusive/any_hook.hpp>
#include <boost/intrusive/derivation_value_traits.hpp>
#include <boost/intrusive/member_value_traits.hpp>
#include <boost/intrusive/parent_from_member.hpp>
using namespace boost::intrusive;
struct V;
struct TagA; struct TagB;
template <int K, class T> struct BaseHook;
template <class T> struct BaseHook<0, T> { typedef list_base_hook<tag<T> > type; typedef list_member_hook<> mtype; typedef list_node_traits<void *> nt; };
template <class T> struct BaseHook<1, T> { typedef slist_base_hook<tag<T> > type; typedef slist_member_hook<> mtype; typedef slist_node_traits<void *> nt; };
template <class T> struct BaseHook<2, T> { typedef set_base_hook<tag<T> > type; typedef set_member_hook<> mtype; typedef rbtree_node_traits<void *, false> nt; };
template <class T> struct BaseHook<3, T> { typedef avl_set_base_hook<tag<T>, optimize_size<true> > type; typedef avl_set_member_hook<optimize_size<true> > mtype; typedef avltree_node_traits<void *, true> nt; };
template <int K, class T> struct BaseHook { typedef bs_set_base_hook<tag<T> > type; typedef bs_set_member_hook<> mtype; typedef tree_node_traits<void *> nt; };
template <class T> struct BaseHook<8, T> { typedef unordered_set_base_hook<tag<T>, store_hash<true>, optimize_multikey<true> > type; typedef unordered_set_member_hook<store_hash<true> > mtype; typedef unordered_node_traits<void *, true, true> nt; };
#if HV == 0
enum { CK2 = CK };
typedef BaseHook<CK, TagA>::type HA; typedef BaseHook<CK2, TagB>::type HB;
struct Pre { uint32_t g; };
struct V : Pre, HA, HB { int id; uint8_t k; uint32_t g0, g1; };
typedef base_hook<HA> OA; typedef base_hook<HB> OB; enum { TWO = 1, ANY = 0, RAW = 0 };
#elif HV == 1
enum { CK2 = (CK + 1) % 9 };
typedef BaseHook<CK, TagA>::mtype HA; typedef BaseHook<CK2, TagB>::mtype HB;
struct Pre { uint32_t g; virtual ~Pre() {} };
struct V : Pre { uint32_t g0; HA a; int id; uint8_t k; HB b; uint32_t g1; };
typedef member_hook<V, HA, &V::a> OA; typedef member_hook<V, HB, &V::b> OB; enum { TWO = 1, ANY = 0, RAW = 0 };
#elif HV == 2 || HV == 3
#if HV == 2
typedef any_base_hook<tag<TagA> > HA; typedef any_base_hook<tag<TagB> > HB;
struct Pre { uint32_t g; };
struct V : Pre, HA, HB { int id; uint8_t k; uint32_t g0, g1; };
typedef base_hook<HA> XA; typedef base_hook<HB> XB;
#else
typedef any_member_hook<> HA; typedef any_member_hook<> HB;
struct Pre { uint32_t g; };
struct V : Pre { uint32_t g0; HA a; int id; uint8_t k; HB b; uint32_t g1; };
typedef member_hook<V, HA, &V::a> XA; typedef member_hook<V, HB, &V::b> XB;
#endif
template <int K, class X> struct Any { typedef any_to_bs_set_hook<X> type; };
template <class X> struct Any<0, X> { typedef any_to_list_hook<X> type; };
template <class X> struct Any<1, X> { typedef any_to_slist_hook<X> type; };
template <class X> struct Any<2, X> { typedef any_to_set_hook<X> type; };
template <class X> struct Any<3, X> { typedef any_to_avl_set_hook<X> type; };
template <class X> struct Any<8, X> { typedef any_to_unordered_set_hook<X> type; };
enum { CK2 = (CK + 2) % 9, TWO = 1, ANY = 1, RAW = 0 };
typedef Any<CK, XA>::type OA; typedef Any<CK2, XB>::type OB; typedef Any<(CK + 1) % 9, XA>::type OA2; // the same hook in another kind of container
#elif HV == 4
enum { CK2 = CK, TWO = 0, ANY = 0, RAW = 0 };
typedef BaseHook<CK, TagA>::mtype HA;
struct Pre { uint32_t g; };
struct V : Pre { uint32_t g0; struct Inner { int d; HA hook; } inner; int id; uint8_t k; uint32_t g1; };
struct Functor { typedef HA hook_type; typedef hook_type *hook_ptr; typedef const hook_type *const_hook_ptr; typedef V value_type; typedef V *pointer; typedef const V *const_pointer;
   static hook_ptr to_hook_ptr(V &v) { return &v.inner.hook; } static const_hook_ptr to_hook_ptr(const V &v) { return &v.inner.hook; }
   static pointer to_value_ptr(hook_ptr n) { return get_parent_from_member<V>(get_parent_from_member<V::Inner>(n, &V::Inner::hook), &V::inner); }
   static const_pointer to_value_ptr(const_hook_ptr n) { return get_parent_from_member<V>(get_parent_from_member<V::Inner>(n, &V::Inner::hook), &V::inner); } };
typedef function_hook<Functor> OA; typedef OA OB;
#elif HV == 5 || HV == 6
enum { CK2 = CK, TWO = 0, ANY = 0, RAW = 1 };
typedef BaseHook<CK, TagA>::nt NTr; struct Pre { uint32_t g; };
#if HV == 5
struct V : Pre, NTr::node { int id; uint8_t k; uint32_t g0, g1; };
typedef value_traits<derivation_value_traits<V, NTr, normal_link> > OA;
#else
struct V : Pre { uint32_t g0; NTr::node nd; int id; uint8_t k; uint32_t g1; };
typedef value_traits<member_value_traits<V, NTr, &V::nd, normal_link> > OA;
#endif
typedef OA OB;
#else
enum { CK2 = CK, TWO = 0, ANY = 0, RAW = 1 };
typedef BaseHook<CK, TagA>::nt NTr; struct Pre { uint32_t g; };
struct V : Pre { int id; uint8_t k; uint32_t g0, g1; }; // holds no hook at all
struct Stateful {
   typedef NTr node_traits; typedef NTr::node node; typedef node *node_ptr; typedef const node *const_node_ptr; typedef V value_type; typedef V *pointer; typedef const V *const_pointer; static const link_mode_type link_mode = normal_link;
   Stateful(V *v, node *n) : v_(v), n_(n) {} V *v_; node *n_;
   node_ptr to_node_ptr(V &v) const { return n_ + (&v - v_); } const_node_ptr to_node_ptr(const V &v) const { return n_ + (&v - v_); }
   pointer to_value_ptr(node_ptr n) const { return v_ + (n - n_); } const_pointer to_value_ptr(const_node_ptr n) const { return v_ + (n - n_); }
};
typedef value_traits<Stateful> OA; typedef OA OB;
#define STATE 1
#endif
static bool operator<(const V &a, const V &b) { return a.k < b.k; }
static bool operator==(const V &a, const V &b) { return a.k == b.k; }
static bool priority_order(const V &a, const V &b) { return (a.id * 5 % 7) < (b.id * 5 % 7); }
struct Hash { std::size_t operator()(const V &v) const { return v.k; } };
enum { MXE = 5, BK = 3 };
template <int K, class O> struct Cont;
template <class O> struct Cont<0, O> { typedef list<V, O> type; };
template <class O> struct Cont<1, O> { typedef slist<V, O> type; };
template <class O> struct Cont<2, O> { typedef multiset<V, O> type; };
template <class O> struct Cont<3, O> { typedef avl_multiset<V, O> type; };
template <class O> struct Cont<4, O> { typedef splay_multiset<V, O> type; };
template <class O> struct Cont<5, O> { typedef sg_multiset<V, O> type; };
template <class O> struct Cont<6, O> { typedef treap_multiset<V, O> type; };
template <class O> struct Cont<7, O> { typedef bs_multiset<V, O> type; };
template <class O> struct Cont<8, O> { typedef unordered_multiset<V, O, hash<Hash> > type; };
struct Init { V *v;
#if HV == 7
   NTr::node *n; Stateful st() const { return Stateful(v, n); }
#endif
};
// one container with its model
template <int K, class O> struct Box {
   typedef typename Cont<K, O>::type C; V *v; C c; Mdl m;
#if HV == 7
#if CK == 6
   Box(const Init &i) : v(i.v), c(typename C::key_compare(), typename C::priority_compare(), i.st()) {}
#else
   Box(const Init &i) : v(i.v), c(typename C::key_compare(), i.st()) {}
#endif
#else
   Box(const Init &i) : v(i.v) {}
#endif
   void put(int id) { c.insert(v[id]); int p = 0; while (p < m.n && !(v[id].k < v[m.a[p]].k)) ++p; m.ins(p, id); }
   void del(int id) { c.erase(c.iterator_to(v[id])); m.del(m.find(id)); }
   bool find(uint8_t) { return true; }
   void more(int id) { V q; q.k = v[id].k; q.id = 6; std::pair<typename C::iterator, typename C::iterator> r = c.equal_range(q); int a = 0; while (v[m.a[a]].k < q.k) ++a; bool ok = r.first != c.end() && &*r.first == &v[m.a[a]]; int b = a; while (b < m.n && v[m.a[b]].k == q.k) ++b; ok = ok && (b < m.n ? &*r.second == &v[m.a[b]] : r.second == c.end()) && c.count(q) == unsigned(b - a); vp_assert(ok, "traits: lookups agree with the contents"); }
   enum { ORD = 1 };
};
template <class O> struct Box<0, O> { typedef typename Cont<0, O>::type C; V *v; C c; Mdl m;
#if HV == 7
   Box(const Init &i) : v(i.v), c(i.st()) {}
#else
   Box(const Init &i) : v(i.v) {}
#endif
   void put(int id) { c.push_back(v[id]); m.ins(m.n, id); } void del(int id) { c.erase(c.iterator_to(v[id])); m.del(m.find(id)); } void more(int) { c.reverse(); m.rev(); } enum { ORD = 1 }; };
template <class O> struct Box<1, O> { typedef typename Cont<1, O>::type C; V *v; C c; Mdl m;
#if HV == 7
   Box(const Init &i) : v(i.v), c(i.st()) {}
#else
   Box(const Init &i) : v(i.v) {}
#endif
   void put(int id) { c.push_front(v[id]); m.ins(0, id); } void del(int id) { c.erase(c.iterator_to(v[id])); m.del(m.find(id)); } void more(int) { c.reverse(); m.rev(); } enum { ORD = 1 }; };
template <class O> struct Box<8, O> { typedef typename Cont<8, O>::type C; typename C::bucket_type b[BK]; V *v; C c; Mdl m;
#if HV == 7
   Box(const Init &i) : v(i.v), c(typename C::bucket_traits(b, BK), Hash(), typename C::key_equal(), i.st()) {}
#else
   Box(const Init &i) : v(i.v), c(typename C::bucket_traits(b, BK)) {}
#endif
   ~Box() { c.clear(); }
   void put(int id) { c.insert(v[id]); m.ins(m.n, id); } void del(int id) { c.erase(c.iterator_to(v[id])); m.del(m.find(id)); }
   void more(int id) { typename C::iterator f = c.find(v[id]); unsigned n = 0; for (int i = 0; i < m.n; ++i) n += v[m.a[i]].k == v[id].k; vp_assert(f != c.end() && f->k == v[id].k && c.count(v[id]) == n, "traits: lookups agree with the contents"); } enum { ORD = 0 }; };
template <class B> static void check(B &b, V *v) {
   typedef typename B::C C; const C &cc = b.c; bool seen[8] = {0}; int n = 0; typename C::const_iterator ci; typename C::iterator it; it = b.c.begin(); ci = cc.begin();
   for (; it != b.c.end() && n <= b.m.n; ++it, ++ci, ++n) { V *p = &*it; int id = it->id; bool ok = &*ci == p && ci->id == id && id >= 0 && id < 8 && p == &v[id] && !seen[id] && b.m.find(id) >= 0 && (!B::ORD || b.m.a[n] == id) && &*b.c.iterator_to(*p) == p && &*cc.iterator_to(static_cast<const V &>(*p)) == p; typename C::iterator t; t = b.c.end(); typename C::iterator u(t); u = it; ok = ok && &*u == p; vp_assert(ok, "traits: iteration yields the elements themselves, once each and in order"); seen[id] = true; vp_observe(id); }
   vp_assert(n == b.m.n && ci == cc.end() && (int)b.c.size() == n && b.c.empty() == (n == 0), "traits: iteration yields all elements");
}
struct Guard { uint32_t g, g0, g1; uint8_t k; };
static void payload(V *v, const Guard *g) { bool ok = true; for (int i = 0; i < MXE; ++i) ok = ok & (v[i].Pre::g == g[i].g) & (v[i].g0 == g[i].g0) & (v[i].g1 == g[i].g1) & (v[i].k == g[i].k) & (v[i].id == i); vp_assert(ok, "traits: nothing but the hook of an element is modified"); }
struct All { V v[MXE + 1]; Guard g[MXE];
#if HV == 7
   NTr::node n[MXE + 1]; Init in() { Init i = {v, n}; return i; }
#else
   Init in() { Init i = {v}; return i; }
#endif
   All() { for (int i = 0; i < MXE; ++i) { v[i].id = i; v[i].k = g[i].k = vp_u8(); v[i].Pre::g = g[i].g = vp_u32(); v[i].g0 = g[i].g0 = vp_u32(); v[i].g1 = g[i].g1 = vp_u32(); } if (CK == 8 || CK2 == 8 || ANY) for (int i = 0; i < MXE; ++i) vp_assume(v[i].k < 2), v[i].k = g[i].k = vp_conc(v[i].k); v[MXE].id = MXE; } };
enum { NE = 3, K = VP_B(5, 6) };
// interleaved histories over two containers holding the same elements through different hooks
ENTRY(history) {
   All e; Box<CK, OA> a(e.in());
#if HV < 4
   Box<CK2, OB> b(e.in());
#endif
   for (int s = 0; s < K; ++s) { int id = vp_pick(NE); bool second = TWO && vp_pick(2);
      if (!second) { if (a.m.find(id) < 0) a.put(id); else if (vp_pick(2)) a.del(id); else a.more(id); }
#if HV < 4
      else { if (b.m.find(id) < 0) b.put(id); else if (vp_pick(2)) b.del(id); else b.more(id); }
      check(b, e.v);
#endif
      check(a, e.v); payload(e.v, e.g); }
   a.c.clear(); a.m.n = 0; check(a, e.v);
#if HV < 4
   check(b, e.v); b.c.clear();
#endif
   payload(e.v, e.g);
}
#if HV == 2 || HV == 3
// the same any hook serves several kinds of containers, one after the other
ENTRY(any_sequence) { All e; Box<CK, OA> a(e.in()); Box<(CK + 1) % 9, OA2> b(e.in()); bool inA[NE] = {0}, inB[NE] = {0};
   for (int s = 0; s < K; ++s) { int id = vp_pick(NE); if (inA[id]) { a.del(id); inA[id] = false; if (vp_pick(2)) { b.put(id); inB[id] = true; } } else if (inB[id]) { b.del(id); inB[id] = false; if (vp_pick(2)) { a.put(id); inA[id] = true; } } else { a.put(id); inA[id] = true; } check(a, e.v); check(b, e.v); payload(e.v, e.g);
#if HV == 2
      bool ok = true; for (int i = 0; i < NE; ++i) ok = ok && (static_cast<HA &>(e.v[i]).is_linked() == (inA[i] || inB[i])); vp_assert(ok, "traits: an any hook is linked exactly while its element is contained");
#else
      bool ok = true; for (int i = 0; i < NE; ++i) ok = ok && e.v[i].a.is_linked() == (inA[i] || inB[i]); vp_assert(ok, "traits: an any hook is linked exactly while its element is contained");
#endif
   } a.c.clear(); b.c.clear(); }
#endif
// the conversions of the value traits are inverses of each other for every element
ENTRY(conversions) { All e; Box<CK, OA> a(e.in()); typedef Box<CK, OA>::C C; int i = vp_pick(MXE);
   a.put(i); C::const_iterator ci = a.c.begin(); C::iterator it = a.c.begin();
   V &x = e.v[i]; vp_assert(&*it == &x && &*ci == &x && &*a.c.iterator_to(x) == &x && it.operator->() == &x, "traits: hook and element addresses convert into each other"); a.c.clear(); }
