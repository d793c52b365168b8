// Shared environment of the tree-container harnesses: configurable container types, arbitrary valid
// pre-states built link by link, and an independent structural checker.
// TREE: 0 rb, 1 avl, 2 splay, 3 scapegoat, 4 treap, 5 plain.  CFG selects hook/option variants.
#pragma once
#include "seq.h"
#include <new>
#ifndef WHAT
#define WHAT 1
#endif
#ifndef CFG
#define CFG 0
#endif
#if TREE == 0
#include <boost/intrusive/set.hpp>
#define TS set
#define TM multiset
#define TT rbtree
#define THB set_base_hook
#define THM set_member_hook
#elif TREE == 1
#include <boost/intrusive/avl_set.hpp>
#define TS avl_set
#define TM avl_multiset
#define TT avltree
#define THB avl_set_base_hook
#define THM avl_set_member_hook
#else
#define THB bs_set_base_hook
#define THM bs_set_member_hook
#if TREE == 2
#include <boost/intrusive/splay_set.hpp>
#define TS splay_set
#define TM splay_multiset
#define TT splaytree
#elif TREE == 3
#include <boost/intrusive/sg_set.hpp>
#define TS sg_set
#define TM sg_multiset
#define TT sgtree
#elif TREE == 4
#include <boost/intrusive/treap_set.hpp>
#define TS treap_set
#define TM treap_multiset
#define TT treap
#else
#include <boost/intrusive/bs_set.hpp>
#define TS bs_set
#define TM bs_multiset
#define TT bstree
#endif
#endif
using namespace boost::intrusive;
typedef uint16_t key_t_;
// CFG 0: base hook, safe, constant-time size.  1: member hook, normal link, linear size.
// CFG 2: base hook, auto-unlink (safe where a family forbids it), linear size; packed metadata for rb/avl.
// CFG 3: member hook, safe, packed metadata, small size type.
#if CFG == 0
enum { SAFE = 1, CTS = 1, AUTO = 0 };
#define HK_OPT link_mode<safe_link>
#elif CFG == 1
enum { SAFE = 0, CTS = TREE == 3, AUTO = 0 };
#define HK_OPT link_mode<normal_link>
#elif CFG == 2
enum { AUTO = TREE != 3 && TREE != 4, SAFE = 1, CTS = TREE == 3 };
#define HK_OPT link_mode<AUTO ? auto_unlink : safe_link>
#else
enum { SAFE = 1, CTS = 1, AUTO = 0 };
#define HK_OPT link_mode<safe_link>
#endif
#if (CFG == 2 || CFG == 3) && TREE < 2
#define HK_O HK_OPT, optimize_size<true>
#else
#define HK_O HK_OPT
#endif
// KOV: the container orders by a key (and a treap by a priority) that functors extract from the element, 1 by reference, 2 by value
#ifndef KOV
#define KOV 0
#endif
struct KB { key_t_ k; }; struct PB { uint8_t pr; };
#if CFG == 1 || CFG == 3
typedef THM<HK_O> HookT;
#if CFG == 3
struct V : KB, PB { int id; HookT h; bool is_linked() const { return h.is_linked(); } };
#else
struct V : KB, PB { int id; HookT h; bool is_linked() const { return false; } };
#endif
#define VT_OPT0 member_hook<V, HookT, &V::h>
#else
struct V : THB<HK_O>, KB, PB { int id; };
#define VT_OPT0 base_hook<THB<HK_O>>
#endif
#if KOV == 0
typedef V CV; typedef V PV; // what the comparisons see
#define KEYV(x) (x)
#define PRIV(x) (x)
#define VT_OPT VT_OPT0
#else
#if KOV == 1
typedef KB CV; typedef PB PV; struct KoV { typedef KB type; const KB &operator()(const V &v) const { return v; } }; struct PoV { typedef PB type; const PB &operator()(const V &v) const { return v; } };
#else
struct KC { uint32_t k; }; struct PC { uint32_t pr; };
typedef KC CV; typedef PC PV; struct KoV { typedef KC type; KC operator()(const V &v) const { KC r = {v.k}; return r; } }; struct PoV { typedef PC type; PC operator()(const V &v) const { PC r = {v.pr}; return r; } };
#endif
#define KEYV(x) KoV()(x)
#define PRIV(x) PoV()(x)
#if TREE == 4
#define VT_OPT VT_OPT0, key_of_value<KoV>, priority_of_value<PoV>
#else
#define VT_OPT VT_OPT0, key_of_value<KoV>
#endif
#endif
// a throwing operation: the throw_left-th call of any user functor fails
static int throw_left = -1; static bool thrown = false;
static inline void tick() { if (throw_left >= 0 && throw_left-- == 0) { thrown = true; throw 7; } }
static bool operator<(const CV &a, const CV &b) { tick(); return a.k < b.k; }
#ifdef VP_FINE_EQ
static uint8_t pay[32]; // operator== distinguishes more than the ordering / key equality does
static bool operator==(const V &a, const V &b) { return (a.k == b.k) & (pay[a.id] == pay[b.id]); }
#else
static bool operator==(const CV &a, const CV &b) { return a.k == b.k; }
#endif
#if TREE == 4
#if defined(STATEFUL)
struct Pri { int tag; explicit Pri(int t = 0) : tag(t) {} bool operator()(const PV &a, const PV &b) const { tick(); return tag ? b.pr < a.pr : a.pr < b.pr; } };
#define PRI_OPT , priority<Pri>
#else
static bool priority_order(const PV &a, const PV &b) { tick(); return a.pr < b.pr; }
#endif
#endif
#ifndef PRI_OPT
#define PRI_OPT
#endif
#if defined(STATEFUL)
struct Cmp { int tag; explicit Cmp(int t = 0) : tag(t) {} bool operator()(const CV &a, const CV &b) const { tick(); return tag ? b.k < a.k : a.k < b.k; } };
#define CMP_OPT , compare<Cmp>
#else
#define CMP_OPT
#endif
#if TREE == 3
#if CFG == 1
#define CT_OPT VT_OPT, floating_point<false>
#else
#define CT_OPT VT_OPT
#endif
#elif CFG == 3
#define CT_OPT VT_OPT, constant_time_size<true>, size_type<unsigned short>
#else
#define CT_OPT VT_OPT, constant_time_size<CTS>
#endif
typedef TS<V, CT_OPT CMP_OPT PRI_OPT> S;
typedef TM<V, CT_OPT CMP_OPT PRI_OPT> M;
typedef TT<V, CT_OPT CMP_OPT PRI_OPT> T;
struct KL { bool operator()(key_t_ k, const CV &v) const { tick(); return k < v.k; } bool operator()(const CV &v, key_t_ k) const { tick(); return v.k < k; } }; // heterogeneous compare
#ifndef MAXN
#define MAXN 12
#endif
template <class C> struct Tree {
   typedef typename C::node_traits NT; typedef typename NT::node_ptr NP; typedef typename C::iterator It; typedef typename C::const_iterator CIt;
   V *v; // storage; ids are indices
   C c; Mdl m;
   Tree(V *s) : v(s) {}
#if defined(STATEFUL)
#if TREE == 4
   Tree(V *s, int tag) : v(s), c(Cmp(tag), Pri(tag)) {}
#else
   Tree(V *s, int tag) : v(s), c(Cmp(tag)) {}
#endif
#endif
   ~Tree() { if (!SAFE) c.clear(); }
   NP hdr() { return c.end().pointed_node(); }
   NP nd(int id) { return c.iterator_to(v[id]).pointed_node(); }
   // ---- arbitrary valid tree over ids [f, f+n), in-order = id order
   int L[MAXN + 1], R[MAXN + 1], f0;
   static int lg(int b) { int r = 1; while (b--) r *= 2; return r; }
   static int pick(int lo, int hi) { return lo + (int)vp_pick(hi - lo); }
#if TREE == 0
   bool red[MAXN + 1];
   static bool fits(int n, int bh) { return n >= lg(bh) - 1 && n <= 2 * lg(2 * bh) - 1; }
   static bool fitsB(int n, int bh) { return bh == 0 ? n == 0 : (n >= lg(bh) - 1 && n <= lg(2 * bh) - 1); }
   static bool fitsR(int n, int bh) { return n >= lg(bh + 1) - 1 && n <= 2 * lg(2 * bh) - 1; }
   int gen(int lo, int hi, int bh, bool parentRed) {
      int n = hi - lo; if (n == 0) { vp_assume(bh == 0); return -1; }
      bool canB = fitsB(n, bh), canR = !parentRed && fitsR(n, bh); vp_assume(canB || canR);
      bool r = canR && (!canB || vp_bool()); int cb = r ? bh : bh - 1; int k = 0, opt[MAXN];
      for (int i = lo; i < hi; ++i) { int a = i - lo, b = hi - i - 1; if (r ? (fitsB(a, cb) && fitsB(b, cb)) : (fits(a, cb) && fits(b, cb))) opt[k++] = i; }
      vp_assume(k > 0); int x = opt[vp_pick(k)]; red[x] = r; L[x] = gen(lo, x, cb, r); R[x] = gen(x + 1, hi, cb, r); return x;
   }
#elif TREE == 1
   int hh[MAXN + 1];
   static bool fits(int n, int h) { if (h <= 0) return h == 0 && n == 0; int a = 0, b = 1; for (int i = 1; i < h; ++i) { int t = a + b + 1; a = b; b = t; } return n >= b && n <= lg(h) - 1; }
   int gen(int lo, int hi, int h, bool) {
      if (hi == lo) return -1; int k = 0, oi[MAXN * 3], om[MAXN * 3];
      for (int i = lo; i < hi; ++i) for (int q = 0; q < 3; ++q) if (fits(i - lo, h - 1 - (q == 1)) && fits(hi - i - 1, h - 1 - (q == 2))) { oi[k] = i; om[k++] = q; }
      vp_assume(k > 0); int z = vp_pick(k), x = oi[z], q = om[z]; hh[x] = q; L[x] = gen(lo, x, h - 1 - (q == 1), 0); R[x] = gen(x + 1, hi, h - 1 - (q == 2), 0); return x;
   }
#else
   int gen(int lo, int hi, int, bool) { if (hi == lo) return -1; int x = pick(lo, hi); L[x] = gen(lo, x, 0, 0); R[x] = gen(x + 1, hi, 0, 0); return x; }
#endif
   void link(int x, NP parent) {
      NP p = nd(f0 + x); NT::set_parent(p, parent); NT::set_left(p, L[x] < 0 ? NP() : nd(f0 + L[x])); NT::set_right(p, R[x] < 0 ? NP() : nd(f0 + R[x]));
#if TREE == 0
      NT::set_color(p, red[x] ? NT::red() : NT::black());
#elif TREE == 1
      NT::set_balance(p, hh[x] == 0 ? NT::zero() : hh[x] == 1 ? NT::positive() : NT::negative());
#elif TREE == 4
      if (L[x] >= 0) vp_assume(v[f0 + L[x]].pr >= v[f0 + x].pr); if (R[x] >= 0) vp_assume(v[f0 + R[x]].pr >= v[f0 + x].pr);
#endif
      if (L[x] >= 0) link(L[x], p); if (R[x] >= 0) link(R[x], p);
   }
   // n elements f..f+n-1 with symbolic keys, non-decreasing (or strictly increasing) in id order, any valid shape
   void build(int f, int n, bool uniq, bool symKeys = true) {
      f0 = f; for (int i = 0; i < n; ++i) { v[f + i].pr = 0; v[f + i].k = 0; c.push_back(v[f + i]); m.ins(m.n, f + i); }
      for (int i = 0; i < n; ++i) { if (!symKeys) v[f + i].k = i; else v[f + i].k = vp_u16(); if (i && symKeys) vp_assume(uniq ? v[f + i - 1].k < v[f + i].k : v[f + i - 1].k <= v[f + i].k);
#if TREE == 4
         v[f + i].pr = vp_u8();
#endif
      }
      if (!n) return;
      int h = 0;
#if TREE == 0
      { int o[8], k = 0; for (int b = 1; b < 5; ++b) if (fitsB(n, b)) o[k++] = b; h = o[vp_pick(k)]; }
      int r = gen(0, n, h, true);
#elif TREE == 1
      { int o[8], k = 0; for (int b = 1; b < 7; ++b) if (fits(n, b)) o[k++] = b; h = o[vp_pick(k)]; }
      int r = gen(0, n, h, false);
#else
      int r = gen(0, n, h, false);
#endif
      NP H = hdr(); NT::set_parent(H, nd(f + r)); NT::set_left(H, nd(f)); NT::set_right(H, nd(f + n - 1)); link(r, H);
   }
   It at(int i) { return i >= m.n ? c.end() : c.iterator_to(v[m.a[i]]); }
   V *ptr(It i) { return i == c.end() ? 0 : &*i; }
   // ---- independent structural check: links, header, in-order identity against the model, key order, size
   int cnt, height; bool ok, inv; 
   int walk(NP p, NP parent, int depth, int &info) { // info: black height / height
      if (!p) { info = 0; return 0; }
      if (depth > m.n + 1 || cnt > m.n) { ok = false; info = 0; return 0; }
      ok = ok && NT::get_parent(p) == parent; int a, b; if (depth + 1 > height) height = depth + 1;
      walk(NT::get_left(p), p, depth + 1, a); if (cnt >= m.n || p != nd(m.a[cnt])) ok = false; ++cnt; if (!ok) { info = 0; return 0; } walk(NT::get_right(p), p, depth + 1, b); if (!ok) { info = 0; return 0; }
#if TREE == 0
      bool r = NT::get_color(p) == NT::red(); inv = inv && a == b && (!r || ((!NT::get_left(p) || NT::get_color(NT::get_left(p)) == NT::black()) && (!NT::get_right(p) || NT::get_color(NT::get_right(p)) == NT::black()))); info = a + !r;
#elif TREE == 1
      inv = inv && a - b <= 1 && b - a <= 1 && NT::get_balance(p) == (a == b ? NT::zero() : a < b ? NT::positive() : NT::negative()); info = 1 + (a > b ? a : b);
#elif TREE == 4
      const V &e = v[m.a[cntOf(p)]]; if (NT::get_left(p)) inv = inv & !(v[m.a[cntOf(NT::get_left(p))]].pr < e.pr); if (NT::get_right(p)) inv = inv & !(v[m.a[cntOf(NT::get_right(p))]].pr < e.pr); info = 0;
#else
      info = 0;
#endif
      return 0;
   }
   int cntOf(NP p) { for (int i = 0; i < m.n; ++i) if (nd(m.a[i]) == p) return i; ok = false; return 0; }
   enum { ORDER = 1, INVAR = 2 };
   void check(int what, bool sorted = true) {
      NP H = hdr(), root = NT::get_parent(H); cnt = height = 0; ok = inv = true; int info;
      ok = (root == NP()) == (m.n == 0); if (ok && root) walk(root, H, 0, info);
      ok = ok && cnt == m.n && (m.n ? NT::get_left(H) == nd(m.a[0]) && NT::get_right(H) == nd(m.a[m.n - 1]) : NT::get_left(H) == H && NT::get_right(H) == H);
#if TREE == 0
      if (root) inv = inv && NT::get_color(root) == NT::black();
      inv = inv && NT::get_color(H) == NT::red();
#elif TREE == 1
      inv = inv && NT::get_balance(H) == NT::zero();
#endif
      vp_assert(ok && (int)c.size() == m.n && c.empty() == (m.n == 0), "tree: contents, order, links and size match the specification");
      if (what & ORDER) {
         bool s = true; if (sorted) { for (int i = 1; i < m.n; ++i) s = s & !(v[m.a[i]].k < v[m.a[i - 1]].k); vp_assert(s, "tree: elements are in key order"); }
         It it = c.begin(); bool o = true; for (int i = 0; o && i < m.n; ++i, ++it) o = it != c.end() && &*it == &v[m.a[i]]; o = o && it == c.end();
         for (int i = m.n; o && i-- > 0;) { --it; o = &*it == &v[m.a[i]]; } vp_assert(o && it == c.begin(), "tree: forward and backward traversal visit exactly the contents in order");
      }
      if (what & INVAR) vp_assert(inv, "tree: the family's structural invariant holds");
      for (int i = 0; i < m.n; ++i) vp_observe(m.a[i]);
   }
   int ub(key_t_ k) { int p = 0; while (p < m.n && !(k < v[m.a[p]].k)) ++p; return p; }
   int lb(key_t_ k) { int p = 0; while (p < m.n && v[m.a[p]].k < k) ++p; return p; }
};
static void linkedCheck(V *v, int n, const Mdl &a, const Mdl *b = 0) {
   if (!SAFE) return;
   bool ok = true; for (int i = 0; i < n; ++i) ok = ok && v[i].is_linked() == (a.find(i) >= 0 || (b && b->find(i) >= 0));
   vp_assert(ok, "tree: exactly the contained elements are linked");
}
static unsigned idx(unsigned n) { return vp_pick(n + 1); }
struct Disp { Mdl *d; void operator()(V *p) { d->ins(d->n, p->id); if (SAFE) vp_assert(!p->is_linked(), "tree: an element is unlinked before its disposer runs"); } };
