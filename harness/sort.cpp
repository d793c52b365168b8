// C02: sort and merge of list/slist: sorted, stable, permutation; stays correct when the predicate throws
#include "seq.h"
#include <boost/intrusive/list.hpp>
#include <boost/intrusive/slist.hpp>
using namespace boost::intrusive;
#ifndef VAR
#define VAR 0
#endif
struct Tag;
#if VAR == 0
struct V : list_base_hook<> { uint8_t k; int id; };
typedef list<V> L;
#elif VAR == 1
struct V { uint8_t k; list_member_hook<link_mode<auto_unlink>> h; int id; };
typedef list<V, member_hook<V, list_member_hook<link_mode<auto_unlink>>, &V::h>, constant_time_size<false>> L;
#else
enum { LIN = (VAR & 1), CL = (VAR >> 1) & 1, CTS = (VAR >> 2) & 1 }; // VAR 8..15
struct V : slist_base_hook<link_mode<LIN ? normal_link : safe_link>> { uint8_t k; int id; };
typedef slist<V, linear<LIN>, cache_last<CL>, constant_time_size<CTS>> L;
#endif
static bool operator<(const V &a, const V &b) { return a.k < b.k; }
enum { N = VP_B(8, 8), MA = VP_B(6, 7), MX = 48 };
struct Half { bool operator()(const V &a, const V &b) const { return (a.k >> 1) < (b.k >> 1); } };
struct Rev { bool operator()(const V &a, const V &b) const { return a.k > b.k; } };
static void fill(L &l, V *v, int n) { for (int i = n; i-- > 0;) l.push_front(v[i]); }
// the list must hold exactly the ids 0..n-1, ordered by (key, id)
template <class P> static void chk(L &l, V *v, int n, P p, const char *what) {
   int c = 0; bool seen[MX]; for (int i = 0; i < MX; ++i) seen[i] = false;
   V *prev = 0; bool perm = true;
   for (L::iterator it = l.begin(); it != l.end() && c <= n; ++it, ++c) {
      V *e = &*it; int id = e->id; perm = perm && !seen[id]; seen[id] = true; vp_observe(id);
      if (prev) vp_assert(!p(*e, *prev) & (p(*prev, *e) | (prev->id < id)), what);
      prev = e;
   }
   vp_assert(perm && c == n && (int)l.size() == n, "sort/merge: the result holds exactly the same elements");
   l.check();
#if VAR == 0 || VAR == 1
   L::iterator it = l.end(); prev = 0; for (int i = 0; i < n; ++i) { --it; if (prev) perm = perm && !p(*prev, *it); prev = &*it; }
   vp_assert(it == l.begin(), "sort/merge: backward links agree");
#endif
}
static void tail(L &l, V &w, int n) {
#if VAR == 0 || VAR == 1
   l.push_back(w); vp_assert(&l.back() == &w, "sort/merge: container usable afterwards");
#else
#if (VAR >> 1) & 1
   l.push_back(w); vp_assert(&l.back() == &w && &*l.previous(l.end()) == &w && (int)l.size() == n + 1, "sort/merge: container usable afterwards");
#endif
#endif
}
ENTRY(sort) {
   V v[MX]; L l; int n = vp_pick(N + 1); for (int i = 0; i < n; ++i) { v[i].id = i; v[i].k = vp_u8(); }
   fill(l, v, n);
   switch (vp_choose(3)) {
   case 0: l.sort(); chk(l, v, n, [](const V &a, const V &b) { return a.k < b.k; }, "sort: ordered by < and stable"); break;
   case 1: l.sort(Half()); chk(l, v, n, Half(), "sort: ordered by the predicate and stable"); break;
   case 2: l.sort(Rev()); chk(l, v, n, Rev(), "sort: ordered by the predicate and stable"); break;
   }
   tail(l, v[MX - 1], n); l.clear();
}
// long lists in which one key is arbitrary and the others follow a pattern
ENTRY(sort_long) {
   static const int sizes[] = {8, 9, 15, 16, 17, 24, 31, 32, 33, 40}; static const int pos[] = {0, 1, 3, 7};
   V v[MX]; L l; int n = sizes[vp_choose(10)], pat = vp_choose(5), q = vp_choose(5); q = q == 4 ? n - 1 : q == 3 ? n / 2 : pos[q];
   for (int i = 0; i < n; ++i) { v[i].id = i; v[i].k = pat == 0 ? 4 * i : pat == 1 ? 4 * (n - i) : pat == 2 ? 100 : pat == 3 ? (i & 1 ? 4 * i : 200 - 4 * i) : i * 37 % 64; }
   v[q].k = vp_u8(); fill(l, v, n);
   if (vp_choose(2)) { l.sort(); chk(l, v, n, [](const V &a, const V &b) { return a.k < b.k; }, "sort: ordered by < and stable"); }
   else { l.sort(Half()); chk(l, v, n, Half(), "sort: ordered by the predicate and stable"); }
   tail(l, v[MX - 1], n); l.clear();
}
ENTRY(merge) {
   V v[MX]; L x, y; int n = vp_pick(MA + 1), m = vp_pick(MA + 1); for (int i = 0; i < n + m; ++i) { v[i].id = i; v[i].k = vp_u8(); }
   int op = vp_choose(3);
   for (int i = 1; i < n; ++i) vp_assume(op == 2 ? v[i - 1].k >= v[i].k : v[i - 1].k <= v[i].k);
   for (int i = n + 1; i < n + m; ++i) vp_assume(op == 2 ? v[i - 1].k >= v[i].k : v[i - 1].k <= v[i].k);
   fill(x, v, n); fill(y, v + n, m);
   switch (op) {
   case 0: x.merge(y); chk(x, v, n + m, [](const V &a, const V &b) { return a.k < b.k; }, "merge: ordered by < and stable (elements of *this first)"); break;
   case 1: x.merge(y, Half()); chk(x, v, n + m, Half(), "merge: ordered by the predicate and stable"); break;
   case 2: x.merge(y, Rev()); chk(x, v, n + m, Rev(), "merge: ordered by the predicate and stable"); break;
   }
   vp_assert(y.empty() && y.size() == 0, "merge: the source is empty afterwards"); y.check();
   tail(x, v[MX - 1], n + m); tail(y, v[MX - 2], 0); x.clear(); y.clear();
}
#if VAR >= 8
ENTRY(merge_last) {
   // the optional out-parameter: last transferred value, or end() if the source was empty
   V v[MX]; L x, y; int n = vp_pick(MA), m = vp_pick(MA); for (int i = 0; i < n + m; ++i) { v[i].id = i; v[i].k = vp_u8(); }
   for (int i = 1; i < n; ++i) vp_assume(v[i - 1].k <= v[i].k);
   for (int i = n + 1; i < n + m; ++i) vp_assume(v[i - 1].k <= v[i].k);
   fill(x, v, n); fill(y, v + n, m); L::const_iterator l; x.merge(y, Half(), &l); 
   vp_assert(m ? &*l == &v[n + m - 1] : l == x.end(), "merge: reports the last transferred element, or end if there was none"); x.clear();
}
#endif
