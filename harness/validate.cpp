// C41: check() passes on every intact container and asserts on every corrupted one.
#include "vp.h"
#if KIND == 0
#include "list.h"
typedef L::node_traits NT; typedef L::node_traits::node_ptr NP; typedef L::node_algorithms NA;
ENTRY(intact) { Env &e = *new Env; e.fill(e.x, e.mx, idx(N)); e.fill(e.y, e.my, idx(1)); e.x.check(); e.y.check(); if (vp_choose(2)) e.x.swap(e.y); else e.x.splice(e.x.begin(), e.y); e.x.check(); e.y.check(); vp_reach("checked"); }
// one link of one node or of the header leads elsewhere
ENTRY(link) { Env &e = *new Env; int n = 1 + (int)vp_pick(N); e.fill(e.x, e.mx, n); NP p[N + 3]; for (int i = 0; i < n; ++i) p[i] = e.at(i).pointed_node(); p[n] = e.x.end().pointed_node();
   int i = vp_pick(n + 1), j = vp_pick(n + 2); bool nx = vp_choose(2); NP to = j > n ? NP() : p[j], old = nx ? NT::get_next(p[i]) : NT::get_previous(p[i]); vp_assume(to != old);
   if (nx) NT::set_next(p[i], to); else NT::set_previous(p[i], to); vp_expect_assert(); e.x.check(); }
// elements came or went behind the back of the list: its cached size, if there is one, is wrong
ENTRY(size) { Env &e = *new Env; int n = idx(N); e.fill(e.x, e.mx, n); bool add = n == 0 || vp_choose(2); int i = vp_pick(add ? n + 1 : n), id; NP h = e.at(i).pointed_node();
   if (add) { e.y.push_back(e.fresh(id)); NP z = e.y.begin().pointed_node(); NA::unlink(z); NA::link_before(h, z); } else NA::unlink(h);
   if (CTS) vp_expect_assert(); e.x.check(); vp_reach("checked"); }
#elif KIND == 1
#include "slist.h"
typedef L::node_traits NT; typedef L::node_traits::node_ptr NP;
ENTRY(intact) { Env &e = *new Env; e.fill(e.x, e.mx, idx(N)); e.fill(e.y, e.my, idx(1)); e.x.check(); e.y.check(); if (vp_choose(2)) e.x.swap(e.y); else e.x.splice_after(e.x.before_begin(), e.y); e.x.check(); e.y.check(); vp_reach("checked"); }
// the chain is cut, or elements were dropped from it or added to it behind the back of the list
ENTRY(chain) { Env &e = *new Env; int n = 1 + (int)vp_pick(N); e.fill(e.x, e.mx, n); NP p[N + 3]; p[0] = e.x.before_begin().pointed_node(); for (int i = 0; i < n; ++i) p[i + 1] = nth(e.x.begin(), i).pointed_node(); NP end = LIN ? NP() : p[0]; bool bad;
   switch (vp_choose(3)) {
   case 0: { int i = vp_pick(n + 1); if (LIN) { vp_assume(i < n); bad = CTS || CL; } else bad = true; NT::set_next(p[i], NP()); } break;
   case 1: { int i = vp_pick(n), j = i + 1 + (int)vp_pick(n - i); NT::set_next(p[i], j == n ? end : p[j + 1]); bad = CTS || (CL && j == n); } break;
   default: { int i = vp_pick(n + 1), id; e.y.push_front(e.fresh(id)); NP z = e.y.begin().pointed_node(); NT::set_next(z, NT::get_next(p[i])); NT::set_next(p[i], z); bad = CTS || (CL && i == n); } }
   if (bad) vp_expect_assert(); e.x.check(); vp_reach("checked"); }
#elif KIND == 2
#include "tree.h"
struct Env { V v[MAXN + 2]; Env() { for (int i = 0; i < MAXN + 2; ++i) { v[i].id = i; v[i].k = 0; v[i].pr = 0; } } };
#if TREE < 2
enum { N = VP_B(9, 10), NB = VP_B(5, 5) };
#else
enum { N = VP_B(6, 7), NB = VP_B(5, 5) };
#endif
#define NEWTREE(C) Env &e = *new Env; Tree<C> &t = *new Tree<C>(e.v); typedef typename Tree<C>::NT NT; typedef typename Tree<C>::NP NP; (void)sizeof(NT); (void)sizeof(NP)
// any keys at all: only non-decreasing ones pass
template <class C> static void keys() { NEWTREE(C); int n = idx(VP_B(5, 6)); t.build(0, n, false); bool ok = true; for (int i = 0; i < n; ++i) { e.v[i].k = vp_u16(); if (i) ok = ok & !(e.v[i].k < e.v[i - 1].k); }
   if (!ok) vp_expect_assert(); t.c.check(); vp_reach("checked"); }
ENTRY(keys_multi) { keys<M>(); }
ENTRY(keys_uniq) { keys<S>(); }
// sees every node once, children before parents, with the results of exactly the two subtrees
static int seen_ = 0;
template <class VT> struct Extra { typedef typename VT::node_traits NT; typedef typename NT::const_node_ptr CP; struct return_type { int n; CP lo, hi; return_type() : n(0), lo(), hi() {} };
   void operator()(CP p, const return_type &a, const return_type &b, return_type &r) { CP l = NT::get_left(p), q = NT::get_right(p); bool ok = (a.n > 0) == !!l && (b.n > 0) == !!q; if (l) while (NT::get_left(l)) l = NT::get_left(l); if (q) while (NT::get_right(q)) q = NT::get_right(q); 
      ok = ok && a.lo == l && b.hi == q; vp_assert(ok, "check: an extra checker gets the results of the two subtrees"); r.n = a.n + b.n + 1; r.lo = l ? a.lo : p; r.hi = q ? b.hi : p; ++seen_; } };
template <class C> static void extra() { NEWTREE(C); int n = idx(N); t.build(0, n, false); seen_ = 0; const C &c = t.c; c.check(); c.check(Extra<typename C::value_traits>()); vp_assert(seen_ == n, "check: an extra checker sees every element once"); t.check(3); }
ENTRY(extra_multi) { extra<M>(); }
// one structural link leads elsewhere
ENTRY(link) { NEWTREE(M); int n = 1 + (int)vp_pick(VP_B(5, 6)); t.build(0, n, false); NP H = t.hdr(); int i = vp_pick(n), j = vp_pick(n + 1); NP x = t.nd(i), to = j == n ? H : t.nd(j);
   switch (vp_choose(3)) {
   case 0: vp_assume(NT::get_parent(x) != to); NT::set_parent(x, to); break;
   case 1: vp_assume(i == 0 && NT::get_left(H) != to); NT::set_left(H, to); break;
   default: vp_assume(i == 0 && NT::get_right(H) != to); NT::set_right(H, to); }
   vp_expect_assert(); t.c.check(); }
ENTRY(empty) { NEWTREE(M); V &z = e.v[0]; M &o = *new M; o.insert(z); NP H = t.hdr(), y = o.iterator_to(z).pointed_node(); t.c.check(); if (vp_choose(2)) NT::set_left(H, y); else NT::set_right(H, y); vp_expect_assert(); t.c.check(); }
// a subtree was cut off: the cached size is wrong
ENTRY(size) { NEWTREE(M); int n = 1 + (int)vp_pick(VP_B(5, 6)); t.build(0, n, false); int i = vp_pick(n); NP x = t.nd(i), p = NT::get_parent(x); vp_assume(p != t.hdr()); bool end = false; 
   if (NT::get_left(p) == x) NT::set_left(p, NP()); else NT::set_right(p, NP());
   NP r = NT::get_parent(t.hdr()), l = r; while (NT::get_left(l)) l = NT::get_left(l); while (NT::get_right(r)) r = NT::get_right(r); NT::set_left(t.hdr(), l); NT::set_right(t.hdr(), r); (void)end;
   if (CTS) { vp_expect_assert(); t.c.check(); } }
#if TREE == 0 || TREE == 1
// any shape with any colours or balances: exactly the red-black and AVL trees pass
static int L_[12], R_[12], I_[12]; static bool valid_;
static int shape(int lo, int hi) { if (lo == hi) return -1; int x = lo + (int)vp_pick(hi - lo); I_[x] = TREE == 0 ? (int)vp_pick(2) : (int)vp_pick(3); L_[x] = shape(lo, x); R_[x] = shape(x + 1, hi); return x; }
static int grade(int x, bool red) { if (x < 0) return 0; int a = grade(L_[x], I_[x] == 1), b = grade(R_[x], I_[x] == 1);
   if (TREE == 0) { if (a != b || (red && I_[x] == 1)) valid_ = false; return a + (I_[x] != 1); } // 1: red
   if (I_[x] != (a == b ? 0 : a < b ? 1 : 2) || a > b + 1 || b > a + 1) valid_ = false; return 1 + (a > b ? a : b); }
template <class T> static void put(T &t, int x, typename T::NP parent) { typedef typename T::NT NT; typename T::NP p = t.nd(x); NT::set_parent(p, parent); NT::set_left(p, L_[x] < 0 ? typename T::NP() : t.nd(L_[x])); NT::set_right(p, R_[x] < 0 ? typename T::NP() : t.nd(R_[x]));
#if TREE == 0
   NT::set_color(p, I_[x] ? NT::red() : NT::black());
#else
   NT::set_balance(p, I_[x] == 0 ? NT::zero() : I_[x] == 1 ? NT::positive() : NT::negative());
#endif
   if (L_[x] >= 0) put(t, L_[x], p); if (R_[x] >= 0) put(t, R_[x], p); }
ENTRY(metadata) { NEWTREE(M); int n = 1 + (int)vp_pick(NB); for (int i = 0; i < n; ++i) { e.v[i].k = i; t.c.push_back(e.v[i]); } int r = shape(0, n); NP H = t.hdr(); NT::set_parent(H, t.nd(r)); NT::set_left(H, t.nd(0)); NT::set_right(H, t.nd(n - 1)); put(t, r, H);
   valid_ = true; grade(r, true); if (!valid_) vp_expect_assert(); t.c.check(); vp_reach("checked"); }
#elif TREE == 4
ENTRY(metadata) { NEWTREE(M); int n = 1 + (int)vp_pick(NB); t.build(0, n, false); bool ok = true; for (int i = 0; i < n; ++i) e.v[i].pr = vp_u8(); for (int i = 0; i < n; ++i) { if (t.L[i] >= 0) ok = ok & !(e.v[t.L[i]].pr < e.v[i].pr); if (t.R[i] >= 0) ok = ok & !(e.v[t.R[i]].pr < e.v[i].pr); }
   if (!ok) vp_expect_assert(); t.c.check(); if (ok) { seen_ = 0; t.c.check(Extra<M::value_traits>()); vp_assert(seen_ == n, "check: an extra checker sees every element once"); } vp_reach("checked"); }
#endif
#endif
