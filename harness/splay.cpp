// C11: splaying puts the accessed element at the root and keeps the contents; const lookups leave the tree untouched
#define TREE 2
#include "tree.h"
enum { N = VP_B(8, 9), MX = 12 };
struct Env { V v[MX]; Env() { for (int i = 0; i < MX; ++i) { v[i].id = i; v[i].k = 0; v[i].pr = 0; } } };
template <class C> static int rootPos(Tree<C> &t) { V *r = t.ptr(t.c.root()); for (int i = 0; i < t.m.n; ++i) if (&t.v[t.m.a[i]] == r) return i; return -1; }
ENTRY(splay_up) { Env e; Tree<M> t(e.v); int n = 1 + vp_pick(N); t.build(0, n, false); int p = vp_pick(n); t.c.splay_up(t.at(p)); vp_assert(rootPos(t) == p, "splay: splay_up makes the element the root"); t.check(1); }
ENTRY(splay_up_end) { Env e; Tree<M> t(e.v); int n = idx(N); t.build(0, n, false); t.c.splay_up(t.c.end()); t.check(1); if (n) vp_assert(rootPos(t) == n - 1, "splay: splaying end() moves the last element to the root"); }
template <class C, class F> static void down(bool uniq, F f) {
   Env e; Tree<C> t(e.v); int n = idx(N); t.build(0, n, uniq); V k; k.k = vp_u16(); k.pr = 0; int lo = t.lb(k.k), hi = t.ub(k.k); typename C::iterator r = f(t.c, k); int q = rootPos(t);
   if (n == 0) vp_assert(r == t.c.end(), "splay: splay_down of an empty tree returns end"); else { vp_assert(r == t.c.root(), "splay: splay_down returns the new root"); vp_assert(lo < hi ? q >= lo && q < hi : q == lo || q == lo - 1, "splay: an equivalent element, or a neighbour of the missing key, becomes the root"); } t.check(1);
}
struct D0 { template <class C> typename C::iterator operator()(C &c, V &k) { return c.splay_down(k); } };
struct D1 { template <class C> typename C::iterator operator()(C &c, V &k) { return c.splay_down(k.k, KL()); } };
ENTRY(splay_down) { if (vp_choose(2)) down<M>(false, D0()); else down<S>(true, D0()); }
ENTRY(splay_down_het) { if (vp_choose(2)) down<M>(false, D1()); else down<S>(true, D1()); }
ENTRY(access) { // non-const operations document that they splay; const ones document that they do not
   Env e; Tree<M> t(e.v); int n = idx(N - 1); t.build(0, n, false); V k; k.k = vp_u16(); k.pr = 0; int lo = t.lb(k.k), hi = t.ub(k.k); const M &cc = t.c; V *r0 = t.ptr(t.c.root()); V *L[MX], *R[MX]; typedef Tree<M>::NT NT; for (int i = 0; i < n; ++i) { L[i] = (V *)(void *)NT::get_left(t.nd(i)); R[i] = (V *)(void *)NT::get_right(t.nd(i)); }
   bool cst = vp_choose(2); int op = vp_choose(6); int rk = lo;
   switch (op) {
   case 0: if (cst) cc.find(k); else t.c.find(k); break;
   case 1: if (cst) cc.lower_bound(k); else t.c.lower_bound(k); break;
   case 2: if (cst) cc.upper_bound(k); else t.c.upper_bound(k); break;
   case 3: if (cst) cc.equal_range(k); else t.c.equal_range(k); break;
   case 4: if (cst) cc.count(k); else t.c.count(k); rk = -1; break;
   case 5: { V k2; k2.k = vp_u16(); k2.pr = 0; vp_assume(k.k < k2.k); if (cst) cc.bounded_range(k, k2, true, true); else t.c.bounded_range(k, k2, true, true); } break;
   }
   if (cst) { bool same = t.ptr(t.c.root()) == r0; for (int i = 0; i < n; ++i) same = same && L[i] == (V *)(void *)NT::get_left(t.nd(i)) && R[i] == (V *)(void *)NT::get_right(t.nd(i)); vp_assert(same, "splay: const lookups do not restructure the tree"); }
   else if (lo < hi) { int q = rootPos(t); vp_assert(q >= lo && q < hi, "splay: a non-const lookup leaves an equivalent element at the root"); }
   else if (n) { int q = rootPos(t); vp_assert(q == lo || q == lo - 1, "splay: a non-const lookup of an absent key leaves a neighbour at the root"); }
   t.check(1);
}
ENTRY(insert_root) { // positional insertions splay the new element
   Env e; Tree<M> t(e.v); int n = idx(N - 1); t.build(0, n, false); V &x = e.v[n]; x.k = vp_u16();
   switch (vp_choose(4)) {
   case 0: { int h = idx(n); vp_assume((h == 0 || !(x.k < e.v[h - 1].k)) && (h == n || !(e.v[h].k < x.k))); t.c.insert_before(t.at(h), x); t.m.ins(h, n); vp_assert(rootPos(t) == h, "splay: an element inserted by position becomes the root"); } break;
   case 1: vp_assume(n == 0 || !(x.k < e.v[n - 1].k)); t.c.push_back(x); t.m.ins(n, n); vp_assert(rootPos(t) == n, "splay: an element inserted by position becomes the root"); break;
   case 2: vp_assume(n == 0 || !(e.v[0].k < x.k)); t.c.push_front(x); t.m.ins(0, n); vp_assert(rootPos(t) == 0, "splay: an element inserted by position becomes the root"); break;
   case 3: { vp_assume(n > 0); int p = vp_pick(n); t.c.erase(M::const_iterator(t.at(p))); t.m.del(p); } break;
   }
   t.check(1);
}
