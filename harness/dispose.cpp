// C26: the disposing operations dispose exactly the removed elements, once each and after their removal
// The disposer destroys the element and scribbles over its storage, or reinserts it into another container.
// KIND 0 list (VAR), 1 slist (VAR), 2 ordered containers (TREE, CFG), 3 hash containers (HCFG)
#if KIND == 0
#include "list.h"
#define LNK (VAR == 0 || VAR == 2)
#elif KIND == 1
#include "slist.h"
#define LNK HASLINK
#elif KIND == 2
#include "tree.h"
enum { MX = 16 };
#define LNK (CFG != 1)
static bool linked(const V &v) { return v.is_linked(); }
#else
#include "hash.h"
enum { MX = Env::MX };
#define LNK (HCFG != 3 && HCFG != 12)
static bool linked(const V &v) { return v.is_linked(); }
#endif
#include <cstring>
#include <new>
// disposer: counts, destroys or moves elsewhere
template <class To> struct Scrib { V *base; int *cnt; To *to; Mdl *tm;
   void operator()(V *p) {
      int id = int(p - base); vp_assert(id >= 0 && id < MX && p == &base[id] && p->id == id, "dispose: the disposer gets the removed element, intact"); ++cnt[id]; vp_assert(cnt[id] == 1, "dispose: no element is disposed twice");
#if LNK
      vp_assert(!linked(*p), "dispose: an element is unlinked before its disposer runs");
#endif
      if (to) { put(*to, *p); tm->ins(tm->n, id); } else { p->~V(); std::memset((void *)p, 0xDB, sizeof(V)); } }
#if KIND == 0
   static void put(To &t, V &v) { t.push_back(v); }
#elif KIND == 1
   static void put(To &t, V &v) { t.push_front(v); }
#else
   static void put(To &t, V &v) { t.insert(v); }
#endif
};
struct Book { int cnt[MX]; Book() { for (int i = 0; i < MX; ++i) cnt[i] = 0; } // after the operation: exactly the ids in rem were disposed
   void done(V *v, const bool *rem, bool scribbled) { for (int i = 0; i < MX; ++i) { vp_assert(cnt[i] == (rem[i] ? 1 : 0), "dispose: exactly the removed elements are disposed"); if (rem[i] && scribbled) { new (&v[i]) V; v[i].id = i; v[i].k = 0; } } } };
#if KIND < 2
typedef Scrib<L> Sc;
static void keep(Mdl &m, const bool *rem) { int n = 0; for (int i = 0; i < m.n; ++i) if (!rem[m.a[i]]) m.a[n++] = m.a[i]; m.n = n; }
enum { ALLOPS = 16 };
static bool even(const V &v) { return (v.k & 1) == 0; }
static bool near_(const V &a, const V &b) { return (a.k >> 1) == (b.k >> 1); }
#define OP(name) static void op_##name(Env &e, Sc d, bool *rem, bool) ; ENTRY(name) { Env e; Book b; bool move = vp_choose(2); bool rem[MX] = {0}; e.fill(e.x, e.mx, idx(N)); Sc d = {e.v, b.cnt, move ? &e.y : (L *)0, &e.my}; op_##name(e, d, rem, move); keep(e.mx, rem); b.done(e.v, rem, !move); \
   if (move) { bool ok = true; int n = 0; for (L::iterator it = e.y.begin(); it != e.y.end() && n < MX; ++it, ++n) ok = ok && rem[it->id]; for (int i = 0; i < MX; ++i) n -= rem[i]; vp_assert(ok && n == 0, "dispose: a disposer may insert the element elsewhere"); e.my.n = 0; for (L::iterator it = e.y.begin(); it != e.y.end(); ++it) e.my.ins(e.my.n, it->id); } e.done(); } \
   static void op_##name(Env &e, Sc d, bool *rem, bool move)
static void keys(Env &e, int bits) { for (int i = 0; i < e.used; ++i) e.v[i].k = vp_pick(1 << bits); }
OP(clear) { for (int i = 0; i < e.mx.n; ++i) rem[e.mx.a[i]] = true; e.x.clear_and_dispose(d); }
OP(erase_one) { vp_assume(e.mx.n > 0); int i = idx(e.mx.n - 1); rem[e.mx.a[i]] = true; L::iterator r = vp_choose(2) ? e.x.erase_and_dispose(e.at(i), d) : e.x.erase_and_dispose(L::const_iterator(e.at(i)), d); vp_assert(r == e.at(i), "dispose: erase returns the next element"); }
OP(erase_range) { int n = e.mx.n, i = idx(n), j = i + idx(n - i); for (int q = i; q < j; ++q) rem[e.mx.a[q]] = true; L::iterator r = e.x.erase_and_dispose(e.at(i), e.at(j), d); vp_assert(r == e.at(i), "dispose: erase returns the next element"); }
OP(pop_front) { vp_assume(e.mx.n > 0); rem[e.mx.a[0]] = true; e.x.pop_front_and_dispose(d); }
OP(assign) { int k = idx(3), f = e.used; V *src = e.v + f; e.used += k; for (int i = 0; i < e.mx.n; ++i) rem[e.mx.a[i]] = true; e.x.dispose_and_assign(d, src, src + k); for (int i = 0; i < k; ++i) e.mx.ins(e.mx.n, f + i); }
OP(remove) { keys(e, 1); V q; q.k = vp_pick(2); q.id = 99; for (int i = 0; i < e.mx.n; ++i) rem[e.mx.a[i]] = e.v[e.mx.a[i]].k == q.k; e.x.remove_and_dispose(q, d); }
OP(remove_if) { keys(e, 1); for (int i = 0; i < e.mx.n; ++i) rem[e.mx.a[i]] = even(e.v[e.mx.a[i]]); e.x.remove_and_dispose_if(even, d); }
OP(unique) { keys(e, 1); int last = -1; for (int i = 0; i < e.mx.n; ++i) { int id = e.mx.a[i]; if (last >= 0 && e.v[last].k == e.v[id].k) rem[id] = true; else last = id; } e.x.unique_and_dispose(d); }
OP(unique_pred) { keys(e, 2); int last = -1; for (int i = 0; i < e.mx.n; ++i) { int id = e.mx.a[i]; if (last >= 0 && near_(e.v[last], e.v[id])) rem[id] = true; else last = id; } e.x.unique_and_dispose(near_, d); }
#if KIND == 0
OP(pop_back) { vp_assume(e.mx.n > 0); rem[e.mx.a[e.mx.n - 1]] = true; e.x.pop_back_and_dispose(d); }
#else
OP(erase_after) { vp_assume(e.mx.n > 0); int i = idx(e.mx.n - 1); rem[e.mx.a[i]] = true; L::iterator r = e.x.erase_after_and_dispose(e.bef(i), d); vp_assert(r == e.at(i), "dispose: erase returns the next element"); }
OP(erase_after_range) { int n = e.mx.n, i = idx(n), j = i + idx(n - i); for (int q = i; q < j; ++q) rem[e.mx.a[q]] = true; L::iterator r = e.x.erase_after_and_dispose(e.bef(i), e.at(j), d); vp_assert(r == e.at(i), "dispose: erase returns the next element"); }
#if VAR == 2 || VAR == 5
OP(s_erase_after) { vp_assume(e.mx.n > 0); int i = idx(e.mx.n - 1); rem[e.mx.a[i]] = true; L::iterator r = L::s_erase_after_and_dispose(e.bef(i), d); vp_assert(r == e.at(i), "dispose: erase returns the next element"); }
OP(s_erase_after_range) { int n = e.mx.n, i = idx(n), j = i + idx(n - i); for (int q = i; q < j; ++q) rem[e.mx.a[q]] = true; L::iterator r = L::s_erase_after_and_dispose(e.bef(i), e.at(j), d); vp_assert(r == e.at(i), "dispose: erase returns the next element"); }
#endif
#endif
#elif KIND == 2
enum { NS = VP_B(TREE < 2 ? 8 : TREE == 4 ? 5 : 6, TREE < 2 ? 9 : TREE == 4 ? 6 : 7) };
template <class C, class F> static void run(bool uniq, bool symKeys, F f) {
   V v[MX]; for (int i = 0; i < MX; ++i) { v[i].id = i; v[i].k = 0; v[i].pr = 0; } Tree<C> t(v); Book b; bool rem[MX] = {0}; bool move = vp_choose(2); t.build(0, idx(NS), uniq, symKeys); M y; Mdl ym; Scrib<M> d = {v, b.cnt, move ? &y : (M *)0, &ym}; key_t_ ks[MX]; for (int i = 0; i < MX; ++i) ks[i] = v[i].k;
   f(t, d, rem); int n = 0; for (int i = 0; i < t.m.n; ++i) if (!rem[t.m.a[i]]) t.m.a[n++] = t.m.a[i]; t.m.n = n; b.done(v, rem, !move);
   if (move) { bool ok = true; int n = 0; for (M::iterator it = y.begin(); it != y.end() && n < MX; ++it, ++n) ok = ok && rem[it->id]; for (int i = 0; i < MX; ++i) n -= rem[i]; vp_assert(ok && n == 0, "dispose: a disposer may insert the element elsewhere"); }
   for (int i = 0; i < t.m.n; ++i) vp_assert(v[t.m.a[i]].k == ks[t.m.a[i]], "dispose: kept elements keep their values"); t.check(3); linkedCheck(v, MX, t.m, &ym); if (move) y.clear(); }
template <class C> struct Clear { void operator()(Tree<C> &t, Scrib<M> d, bool *rem) const { for (int i = 0; i < t.m.n; ++i) rem[i] = true; t.c.clear_and_dispose(d); } };
template <class C> struct One { void operator()(Tree<C> &t, Scrib<M> d, bool *rem) const { vp_assume(t.m.n > 0); int i = idx(t.m.n - 1); rem[i] = true; typename C::iterator r = vp_choose(2) ? t.c.erase_and_dispose(t.at(i), d) : t.c.erase_and_dispose(typename C::const_iterator(t.at(i)), d); vp_assert(r == (i + 1 < t.m.n ? t.at(i + 1) : t.c.end()), "dispose: erase returns the next element"); } };
template <class C> struct Range { void operator()(Tree<C> &t, Scrib<M> d, bool *rem) const { int n = t.m.n, i = idx(n), j = i + idx(n - i); for (int q = i; q < j; ++q) rem[q] = true; typename C::iterator e = t.at(j), r = t.c.erase_and_dispose(t.at(i), e, d); vp_assert(r == e, "dispose: erase returns the next element"); } };
template <class C> struct ByKey { int how; void operator()(Tree<C> &t, Scrib<M> d, bool *rem) const { unsigned n = 0; V q; q.id = 99; q.pr = 0; q.k = vp_u16(); if (how == 2) { vp_assume(t.m.n > 0); q.k = t.v[idx(t.m.n - 1)].k; } for (int i = 0; i < t.m.n; ++i) if (t.v[i].k == q.k) { rem[i] = true; ++n; } unsigned r = how == 1 ? t.c.erase_and_dispose(q.k, KL(), d) : t.c.erase_and_dispose(q, d); vp_assert(r == n, "dispose: erasing by key returns the number of removed elements"); } };
ENTRY(clear) { run<M>(false, false, Clear<M>()); }
ENTRY(clear_uniq) { run<S>(true, false, Clear<S>()); }
ENTRY(erase_one) { run<M>(false, false, One<M>()); }
ENTRY(erase_one_uniq) { run<S>(true, false, One<S>()); }
ENTRY(erase_range) { run<M>(false, false, Range<M>()); }
ENTRY(erase_key) { ByKey<M> f = {0}; run<M>(false, true, f); }
ENTRY(erase_key_comp) { ByKey<M> f = {1}; run<M>(false, true, f); }
ENTRY(erase_key_uniq) { ByKey<S> f = {(int)vp_choose(2)}; run<S>(true, true, f); }
#else
enum { NS = F & F_FM ? VP_B(2, 3) : VP_B(3, 4) };
template <class C, class F> static void run(void (*fill)(HT<C> &, int), F f) {
   Env e; V *v = e.v; unsigned bc = FM ? 3 : P2 ? 2u << vp_choose(2) : 2 + vp_choose(2); hashBits = 2; hashMod = bc; HT<C> t(v, bc); Book b; bool rem[MX] = {0}; bool move = vp_choose(2); int n = idx(NS); fill(t, n);
#if HINC
   if (bc > 1 && vp_choose(2)) t.c.incremental_rehash(true);
#endif
   HT<M> y(v, bc); Scrib<M> d = {v, b.cnt, move ? &y.c : (M *)0, &y.m}; int o[MX], k = 0; for (typename C::iterator it = t.c.begin(); it != t.c.end() && k < n; ++it) o[k++] = it->id;
   f(t, d, rem, o); int q = 0; for (int i = 0; i < t.m.n; ++i) if (!rem[t.m.a[i]]) t.m.a[q++] = t.m.a[i]; t.m.n = q; b.done(v, rem, !move); t.check(); if (move) y.check(); if (SAFE && !LIN) for (int i = 0; i < MX; ++i) vp_assert(v[i].is_linked() == (t.has(i) || y.has(i)), "dispose: exactly the contained elements are linked"); y.c.clear(); }
template <class C> struct Clear { void operator()(HT<C> &t, Scrib<M> d, bool *rem, int *) const { for (int i = 0; i < t.m.n; ++i) rem[i] = true; t.c.clear_and_dispose(d); } };
template <class C> struct One { void operator()(HT<C> &t, Scrib<M> d, bool *rem, int *o) const { vp_assume(t.m.n > 0); int i = idx(t.m.n - 1); rem[o[i]] = true; t.c.erase_and_dispose(typename C::const_iterator(nth(t.c.begin(), i)), d); } };
template <class C> struct Range { void operator()(HT<C> &t, Scrib<M> d, bool *rem, int *o) const { int n = t.m.n, i = idx(n), j = i + idx(n - i); for (int q = i; q < j; ++q) rem[o[q]] = true; t.c.erase_and_dispose(nth(t.c.begin(), i), nth(t.c.begin(), j), d); } };
template <class C> struct ByKey { int how; void operator()(HT<C> &t, Scrib<M> d, bool *rem, int *) const { unsigned n = 0; Key q = freshKey(t.v, t.m.n); V w; w.id = 99; w.k = q.k; w.hv = q.hv; for (int i = 0; i < t.m.n; ++i) if (t.v[i].k == q.k) { rem[i] = true; ++n; } unsigned r = how == 1 ? t.c.erase_and_dispose(q, KHash(), KEq(), d) : t.c.erase_and_dispose(w, d); vp_assert(r == n, "dispose: erasing by key returns the number of removed elements"); } };
ENTRY(clear) { run<M>(fillM, Clear<M>()); }
ENTRY(clear_uniq) { run<S>(fillS, Clear<S>()); }
ENTRY(erase_one) { run<M>(fillM, One<M>()); }
ENTRY(erase_one_uniq) { run<S>(fillS, One<S>()); }
ENTRY(erase_range) { run<M>(fillM, Range<M>()); }
ENTRY(erase_range_uniq) { run<S>(fillS, Range<S>()); }
ENTRY(erase_key) { ByKey<M> f = {(int)vp_choose(2)}; run<M>(fillM, f); }
ENTRY(erase_key_uniq) { ByKey<S> f = {(int)vp_choose(2)}; run<S>(fillS, f); }
#endif
