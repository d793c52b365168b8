// C39: the documented complexity, counted in calls of user functors: comparisons, predicates, hash functions.
#include "vp.h"
static inline long lg2(int n) { long r = 0; while ((1 << r) < n) ++r; return r; }
static long calls_ = 0, hcalls_ = 0;
static inline void count_() { ++calls_; }
#define LEAF 1
#if KIND < 2
static inline void tick() { count_(); }
#if KIND == 0
#include "list.h"
#else
#include "slist.h"
#endif
static long cost() { long c = calls_; calls_ = 0; return c; }
struct Odd { bool operator()(const V &a) const { count_(); return a.k & 1; } };
struct Lt { bool operator()(const V &a, const V &b) const { count_(); return a.k < b.k; } };
struct Same { bool operator()(const V &a, const V &b) const { count_(); return a.k == b.k; } };
struct Nop { void operator()(V *) {} };
static void keys(V *v, int f, int n, bool sorted) { for (int i = 0; i < n; ++i) { v[f + i].k = vp_u8(); if (sorted && i) vp_assume(v[f + i - 1].k <= v[f + i].k); } }
enum { NN = VP_B(6, 8), NM = VP_B(4, 5) };
ENTRY(predicates) { Env e; int n = idx(NN); e.fill(e.x, e.mx, n); keys(e.v, 0, n, false); V z; z.k = vp_u8(); cost();
   switch (vp_choose(8)) {
   case 0: e.x.remove(z); vp_assert(cost() == n, "cost: remove performs exactly size() comparisons"); break;
   case 1: e.x.remove_and_dispose(z, Nop()); vp_assert(cost() == n, "cost: remove_and_dispose performs exactly size() comparisons"); break;
   case 2: e.x.remove_if(Odd()); vp_assert(cost() == n, "cost: remove_if performs exactly size() calls of the predicate"); break;
   case 3: e.x.remove_and_dispose_if(Odd(), Nop()); vp_assert(cost() == n, "cost: remove_and_dispose_if performs exactly size() calls of the predicate"); break;
   case 4: e.x.unique(); vp_assert(cost() == (n ? n - 1 : 0), "cost: unique performs exactly size()-1 comparisons"); break;
   case 5: e.x.unique(Same()); vp_assert(cost() == (n ? n - 1 : 0), "cost: unique(pred) performs exactly size()-1 calls"); break;
   case 6: e.x.unique_and_dispose(Nop()); vp_assert(cost() == (n ? n - 1 : 0), "cost: unique_and_dispose performs exactly size()-1 comparisons"); break;
   default: e.x.unique_and_dispose(Same(), Nop()); vp_assert(cost() == (n ? n - 1 : 0), "cost: unique_and_dispose(pred) performs exactly size()-1 calls"); }
   e.x.clear(); vp_assert(cost() == 0, "cost: clear compares nothing"); }
ENTRY(merge) { Env e; int n = idx(NM), m = idx(NM); e.fill(e.x, e.mx, n); e.fill(e.y, e.my, m); keys(e.v, 0, n, true); keys(e.v, n, m, true); cost(); if (vp_choose(2)) e.x.merge(e.y); else e.x.merge(e.y, Lt()); long c = cost(); vp_assert(c <= (n && m ? n + m - 1 : 0), "cost: merge performs at most size()+x.size()-1 comparisons"); e.x.clear(); }
ENTRY(sort) { Env e; int n = idx(NN); e.fill(e.x, e.mx, n); keys(e.v, 0, n, false); cost(); if (vp_choose(2)) e.x.sort(); else e.x.sort(Lt()); long c = cost(); vp_assert(c <= n * lg2(n), "cost: sort performs at most N log N comparisons"); e.x.clear(); }
#elif KIND == 2
#include "tree.h"
static void arm() { throw_left = 1 << 20; }
static long cost() { long c = (1 << 20) - throw_left; throw_left = 1 << 20; return c; }
#if TREE == 0 || TREE == 1
enum { N = VP_B(8, 11) };
#elif TREE == 4
enum { N = VP_B(4, 5) };
#else
enum { N = VP_B(5, 6) };
#endif
struct Env { V v[MAXN + 6]; Env() { for (int i = 0; i < MAXN + 6; ++i) { v[i].id = i; v[i].k = 0; v[i].pr = 0; } } };
static void setKey(V &x) { x.k = vp_u16();
#if TREE == 4
   x.pr = vp_u8();
#endif
}
// one descent compares once per level and once more at its end; splay operations compare up to three times per level
static long one(int h) { return TREE == 2 ? 3 * h + 3 : h + 1; }
static long ins(int h) { return TREE == 4 ? 2 * h + 2 : one(h); } // treaps also compare priorities on the way up
template <class C> static void lookups(bool u) { Env e; Tree<C> t(e.v); int n = idx(N); t.build(0, n, u); t.check(0); int h = t.height; key_t_ k = vp_u16(); V &q = e.v[n]; q.k = k; const C &c = t.c; arm();
   switch (vp_choose(9)) {
   case 0: c.find(q); vp_assert(cost() <= one(h), "cost: find compares once per level"); break;
   case 1: c.lower_bound(q); vp_assert(cost() <= one(h), "cost: lower_bound compares once per level"); break;
   case 2: c.upper_bound(q); vp_assert(cost() <= one(h), "cost: upper_bound compares once per level"); break;
   case 3: c.equal_range(q); vp_assert(cost() <= 2 * one(h), "cost: equal_range compares at most twice per level"); break;
   case 4: c.count(q); vp_assert(cost() <= 2 * one(h), "cost: count compares at most twice per level"); break;
   case 5: t.c.find(k, KL()); vp_assert(cost() <= one(h), "cost: find compares once per level (key)"); break;
   case 6: t.c.lower_bound(k, KL()); vp_assert(cost() <= one(h), "cost: lower_bound compares once per level (key)"); break;
   case 7: t.c.upper_bound(k, KL()); vp_assert(cost() <= one(h), "cost: upper_bound compares once per level (key)"); break;
   default: t.c.equal_range(k, KL()); vp_assert(cost() <= 2 * one(h), "cost: equal_range compares at most twice per level (key)"); }
   throw_left = -1; }
ENTRY(lookup_multi) { lookups<M>(false); }
ENTRY(lookup_uniq) { lookups<S>(true); }
ENTRY(insert) { Env e; Tree<M> t(e.v); int n = idx(N); t.build(0, n, false); t.check(0); int h = t.height; V &x = e.v[n]; setKey(x); int lo = t.lb(x.k), hi = t.ub(x.k); arm(); long L;
   switch (vp_choose(6)) {
   case 0: t.c.insert(x); L = ins(h); break;
   case 1: t.c.insert(M::const_iterator(t.at(lo + (int)vp_pick(hi - lo + 1))), x); L = TREE == 4 ? 3 + h : TREE == 2 ? 3 + one(h) : 3; break; // a correct hint: amortized constant
   case 2: t.c.insert(M::const_iterator(t.at(idx(n))), x); L = 2 + ins(h); break; // any hint: logarithmic
   case 3: t.c.insert_before(M::const_iterator(t.at(lo)), x); L = TREE == 4 ? h + 1 : 0; break;
   case 4: vp_assume(hi == n); t.c.push_back(x); L = TREE == 4 ? h + 1 : 0; break;
   default: vp_assume(lo == 0); t.c.push_front(x); L = TREE == 4 ? h + 1 : 0; }
   vp_assert(cost() <= L, "cost: insertion compares once per level, with a correct hint a constant number of times"); throw_left = -1; }
ENTRY(insert_uniq) { Env e; Tree<S> t(e.v); int n = idx(N); t.build(0, n, true); t.check(0); int h = t.height; V &x = e.v[n]; setKey(x); int lo = t.lb(x.k); bool dup = t.ub(x.k) > lo; arm(); long L; S::insert_commit_data cd;
   switch (vp_choose(4)) {
   case 0: t.c.insert(x); L = ins(h) + 1; break;
   case 1: t.c.insert(S::const_iterator(t.at(lo)), x); L = TREE == 4 && !dup ? 4 + h : TREE == 2 || dup ? 3 + one(h) : 3; break;
   case 2: t.c.insert(S::const_iterator(t.at(idx(n))), x); L = 3 + ins(h); break;
   default: { 
#if TREE == 4
      std::pair<S::iterator, bool> r = t.c.insert_check(x, x, cd);
#else
      std::pair<S::iterator, bool> r = t.c.insert_check(x.k, KL(), cd);
#endif
      vp_assert(cost() <= ins(h) + 1, "cost: insert_check compares once per level"); if (r.second) { t.c.insert_commit(x, cd); vp_assert(cost() == 0, "cost: insert_commit compares nothing"); } throw_left = -1; return; } }
   vp_assert(cost() <= L, "cost: unique insertion compares once per level, with a correct hint a constant number of times"); throw_left = -1; }
ENTRY(erase) { Env e; Tree<M> t(e.v); int n = 1 + (int)vp_pick(N); t.build(0, n, false); t.check(0); int h = t.height; int p = vp_pick(n); arm(); long L = TREE == 4 ? h + 1 : 0; Env e2; 
   switch (vp_choose(5)) {
   case 0: t.c.erase(M::const_iterator(t.at(p))); break;
   case 1: { int q = p + (int)vp_pick(n - p + 1); L *= n; t.c.erase(M::const_iterator(t.at(p)), M::const_iterator(t.at(q))); } break;
   case 2: { V &x = e.v[n]; setKey(x); int d = t.ub(x.k) - t.lb(x.k); L = 2 * one(h) + d * L; t.c.erase(x.k, KL()); } break;
   case 3: t.c.clear(); L = 0; break;
   default: { V *w = e2.v; M o; o.clone_from(t.c, [w](const V &a) { w[a.id].k = a.k; w[a.id].pr = a.pr; return &w[a.id]; }, [](V *) {}); L = 0; vp_assert(cost() == 0, "cost: cloning compares nothing"); o.swap(t.c); vp_assert(cost() == 0, "cost: swapping compares nothing"); o.clear(); } }
   vp_assert(cost() <= L, "cost: erasing through an iterator compares no keys, by key at most twice per level"); throw_left = -1; }
#if TREE == 2
// an access path of any form: splaying its end to the root about halves the depth of every node of the path and pushes no other node down by more than a constant
enum { PD = VP_B(8, 10) };
template <class Op> static void halves(Op op, int slack) { Env e; Tree<M> t(e.v); int d = 1 + (int)vp_pick(PD - 1), lo = 0, hi = d + 1, at[PD + 1]; bool right[PD + 1]; // nodes 0..d in order; at[i] is the node at depth i of the path
   for (int i = 0; i <= d; ++i) { right[i] = i < d && vp_bool(); at[i] = right[i] ? lo++ : --hi; }
   for (int i = 0; i <= d; ++i) { e.v[i].k = 0; t.c.push_back(e.v[i]); t.m.ins(i, i); } for (int i = 0; i <= d; ++i) e.v[i].k = 2 * i;
   for (int i = 0; i <= d; ++i) { t.L[at[i]] = i < d && !right[i] ? at[i + 1] : -1; t.R[at[i]] = i < d && right[i] ? at[i + 1] : -1; }
   t.f0 = 0; typename M::node_ptr H = t.hdr(); M::node_traits::set_parent(H, t.nd(at[0])); M::node_traits::set_left(H, t.nd(0)); M::node_traits::set_right(H, t.nd(d)); t.link(at[0], H); t.check(1);
   op(t, at[d]); t.check(1); vp_assert(&*t.c.root() == &e.v[at[d]], "cost: splaying brings the accessed element to the root");
   for (int i = 0; i <= d; ++i) { int dep = 0; for (M::node_ptr p = t.nd(at[i]); M::node_traits::get_parent(p) != H || M::node_traits::get_parent(H) != p; p = M::node_traits::get_parent(p)) if (++dep > d) break; vp_assert(dep <= i / 2 + slack, "cost: splaying about halves the depth of every node on the access path"); } }
ENTRY(halve_up) { halves([](Tree<M> &t, int i) { t.c.splay_up(t.at(i)); }, 3); }
ENTRY(halve_down) { halves([](Tree<M> &t, int i) { t.c.splay_down(t.v[i].k, KL()); }, 3); }
ENTRY(halve_find) { halves([](Tree<M> &t, int i) { V q; q.k = t.v[i].k; vp_assert(&*t.c.find(q) == &t.v[i], "cost: find returns the element"); }, 3); }
#endif
#if TREE != 2
ENTRY(sorted_range) { Env e; int n = idx(N); for (int i = 0; i < n; ++i) { setKey(e.v[i]); if (i) vp_assume(e.v[i - 1].k < e.v[i].k); } arm(); long L = TREE == 4 ? 4L * n + n * lg2(n + 1) * 2 : 2 * n;
   switch (vp_choose(3)) { case 0: { M c(e.v, e.v + n); vp_assert(cost() <= L, "cost: a container is built from an ordered range in linear time"); c.clear(); } break; case 1: { S c(e.v, e.v + n); vp_assert(cost() <= L, "cost: a unique container is built from an ordered range in linear time"); c.clear(); } break; default: { M c; c.insert(e.v, e.v + n); cost(); c.clear(); } } throw_left = -1; }
#endif
#else
#include "hash.h"
enum { N = VP_B(3, 4) };
static long kh = 0; struct CKH { hval operator()(const Key &k) const { ++kh; return k.hv; } };
static void arm() { throw_left = 1 << 20; hash_calls = 0; kh = 0; }
static long hc() { long r = hash_calls; hash_calls = 0; return r; }
static long eqs() { long all = (1 << 20) - throw_left; throw_left = 1 << 20; return all; } // functor calls through tick(), hash calls of V included
template <class T> static long bsize(T &t, hval h) { long r = 0; for (int i = 0; i < t.m.n; ++i) r += t.where(t.v[t.m.a[i]].hv) == t.where(h); return r; }
ENTRY(lookups) { hashBits = 2; hashMod = B0; Env e; HT<M> t(e.v); int n = idx(N); fillM(t, n); Key q = freshKey(e.v, n); long b = bsize(t, q.hv); const M &c = t.c; arm(); int d = t.equiv(q.k);
   switch (vp_choose(3)) {
   case 0: c.find(q, CKH(), KEq()); vp_assert(eqs() <= b, "cost: find compares at most the elements of one bucket"); break;
   case 1: c.count(q, CKH(), KEq()); vp_assert(eqs() <= b + 0 * d, "cost: count compares at most the elements of one bucket"); break;
   default: c.equal_range(q, CKH(), KEq()); vp_assert(eqs() <= b, "cost: equal_range compares at most the elements of one bucket"); }
   vp_assert(kh == 1 && hc() <= b * 2, "cost: a lookup hashes its key once"); throw_left = -1; }
ENTRY(insert) { hashBits = 2; hashMod = B0; Env e; HT<M> t(e.v); int n = idx(N); fillM(t, n); setKey(e.v, n); V &x = e.v[n]; long b = bsize(t, x.hv); arm(); t.c.insert(x); long h = hc(); vp_assert(h >= 1 && eqs() - h <= b, "cost: insertion compares at most the elements of one bucket"); vp_assert(h <= 1 + (INC ? b + n : 0), "cost: insertion hashes the element once"); throw_left = -1; }
ENTRY(erase) { hashBits = 2; hashMod = B0; Env e; HT<M> t(e.v); int n = 1 + (int)vp_pick(N); fillM(t, n); arm(); switch (vp_choose(3)) { case 0: { int p = vp_pick(n); long b = bsize(t, e.v[p].hv); t.c.erase(t.c.iterator_to(e.v[p])); long h = hc(); vp_assert(eqs() == h && h <= (SH ? 0 : b + 1), "cost: erasing through an iterator compares nothing and hashes nothing that is stored"); } break;
   case 1: t.c.clear(); vp_assert(eqs() == 0 && hc() == 0, "cost: clear calls no functor"); break;
   default: { Key q = freshKey(e.v, n); long b = bsize(t, q.hv); t.c.erase(q, CKH(), KEq()); long h = hc(); vp_assert(kh == 1 && eqs() - h <= b && (!SH || h == 0), "cost: erasing a key compares at most the elements of one bucket"); } } throw_left = -1; }
#if SH_
ENTRY(rehash) { hashBits = 2; hashMod = B0; Env e; HT<M> t(e.v); int n = idx(N); fillM(t, n); arm(); 
#if HINC
   t.c.incremental_rehash(true);
#else
   t.bc = FM ? 7 : P2 ? 8 : 6; t.c.rehash(t.bt(true, t.bc));
#endif
   vp_assert(eqs() == 0 && hc() == 0, "cost: rehashing calls no functor when hashes are stored"); throw_left = -1; }
#endif
#endif
