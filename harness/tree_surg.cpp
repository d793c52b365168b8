// C16: node-level surgery on every valid shape: swapping, replacing, unlinking, rebalancing and whole-tree swaps
#include "tree.h"
enum { N = TREE == 4 ? VP_B(4, 5) : TREE < 2 ? VP_B(8, 9) : VP_B(6, 7), N2 = TREE < 2 ? VP_B(5, 5) : VP_B(4, 4), MX = 24 };
struct Env { V v[MX]; Env() { for (int i = 0; i < MX; ++i) { v[i].id = i; v[i].k = 0; v[i].pr = 0; } } };
typedef Tree<M>::NT NT; typedef Tree<M>::NP NP; typedef M::node_algorithms NA; typedef M::value_traits VTr;
enum { KEEP = TREE < 2 ? WHAT : 1 }; // swapped nodes trade places, so a treap's priorities move with them
static int szn(NP p) { return p ? 1 + szn(NT::get_left(p)) + szn(NT::get_right(p)) : 0; }
struct Protected : NA { using NA::subtree_size; };
ENTRY(swap_same) {
   Env e; Tree<M> t(e.v); int n = 1 + vp_pick(N); t.build(0, n, false); int i = vp_pick(n), j = vp_pick(n);
   if (vp_choose(2)) NA::swap_nodes(t.nd(i), t.nd(j)); else NA::swap_nodes(t.nd(i), t.hdr(), t.nd(j), t.hdr());
   t.m.a[i] = j; t.m.a[j] = i; t.check(KEEP, false); linkedCheck(e.v, MX, t.m);
}
ENTRY(swap_two) {
   Env e; Tree<M> t(e.v), u(e.v); int n = 1 + vp_pick(N2), q = 1 + vp_pick(N2); t.build(0, n, false); u.build(n, q, false); int i = vp_pick(n), j = vp_pick(q);
   if (vp_choose(2)) NA::swap_nodes(t.nd(i), u.nd(n + j)); else NA::swap_nodes(t.nd(i), t.hdr(), u.nd(n + j), u.hdr());
   t.m.a[i] = n + j; u.m.a[j] = i; t.check(KEEP, false); u.check(KEEP, false); linkedCheck(e.v, MX, t.m, &u.m);
}
ENTRY(replace) {
   Env e; Tree<M> t(e.v); int n = 1 + vp_pick(N); t.build(0, n, false); int i = vp_pick(n); V &x = e.v[n]; x.k = e.v[i].k; x.pr = e.v[i].pr;
   switch (vp_choose(3)) {
   case 0: t.c.replace_node(t.at(i), x); break;
   case 1: NA::replace_node(t.nd(i), t.nd(n)); NA::init(t.nd(i)); break;
   case 2: NA::replace_node(t.nd(i), t.hdr(), t.nd(n)); NA::init(t.nd(i)); break;
   }
   t.m.a[i] = n; t.check(WHAT); linkedCheck(e.v, MX, t.m);
}
ENTRY(swap_tree) {
   Env e; Tree<M> t(e.v), u(e.v); int n = idx(N2), q = idx(N2); t.build(0, n, false); u.build(n, q, false); Mdl a = t.m;
   switch (vp_choose(3)) {
   case 0: t.c.swap(u.c); t.m = u.m; u.m = a; break;
   case 1: { using std::swap; swap(t.c, u.c); } t.m = u.m; u.m = a; break;
   case 2: t.c.swap(t.c); break;
   }
   t.check(WHAT); u.check(WHAT); linkedCheck(e.v, MX, t.m, &u.m);
}
ENTRY(navigation) { // header recognition, size and neighbours computed from any node
   Env e; Tree<M> t(e.v); int n = 1 + vp_pick(N); t.build(0, n, false); NP h = t.hdr(); bool ok = NA::get_header(h) == h && NA::is_header(h) && NA::begin_node(h) == t.nd(0) && NA::end_node(h) == h && NA::size(h) == (unsigned)n;
   for (int i = 0; i < n; ++i) { NP p = t.nd(i); ok = ok && NA::get_header(p) == h && !NA::is_header(p) && !NA::unique(p) && NA::next_node(p) == (i + 1 < n ? t.nd(i + 1) : h) && (i == 0 || NA::prev_node(p) == t.nd(i - 1)); }
   ok = ok && NA::prev_node(h) == t.nd(n - 1); vp_assert(ok, "tree: header, size and neighbours are found from every node");
#if CFG != 2
   V &x = e.v[n]; vp_assert(!SAFE || NA::unique(t.c.iterator_to(x).pointed_node()), "tree: an uncontained node is unique");
#endif
   t.check(WHAT);
}
#if TREE >= 2 && TREE != 4
static int hgt(NP p) { if (!p) return 0; int a = hgt(NT::get_left(p)), b = hgt(NT::get_right(p)); return 1 + (a > b ? a : b); }
static bool balanced(NP p) { int s = szn(p), h = 0; while (s) { ++h; s /= 2; } return hgt(p) == h; }
ENTRY(rebalance) {
   Env e; Tree<M> t(e.v); int n = idx(N + 2); t.build(0, n, false); t.c.rebalance(); t.check(WHAT); if (n) vp_assert(balanced(NT::get_parent(t.hdr())), "tree: rebalance gives minimal height");
}
ENTRY(rebalance_subtree) {
   Env e; Tree<M> t(e.v); int n = 1 + vp_pick(N + 1); t.build(0, n, false); int i = vp_pick(n); NP p = t.nd(i), up = NT::get_parent(p); bool wasRoot = up == t.hdr(), left = !wasRoot && NT::get_left(up) == p; int s = szn(p);
   M::iterator r = t.c.rebalance_subtree(t.at(i)); NP q = r.pointed_node(); vp_assert(NT::get_parent(q) == up && (wasRoot ? NT::get_parent(up) == q : left ? NT::get_left(up) == q : NT::get_right(up) == q), "tree: rebalance_subtree returns the new root of the subtree");
   t.check(WHAT); vp_assert(szn(q) == s && balanced(q), "tree: rebalance_subtree gives the subtree minimal height");
}
#endif
ENTRY(node_queries) { Env e; Tree<M> t(e.v); int n = 1 + vp_pick(N); t.build(0, n, false); NP H = t.hdr(); vp_assert(NA::size(H) == (unsigned)n && NA::root_node(H) == NT::get_parent(H) && NA::begin_node(H) == t.nd(0) && NA::end_node(H) == H && NA::is_header(H), "tree: queries of the header");
   int i = vp_pick(n); NP p = t.nd(i); int d = 0; for (NP q = p; NT::get_parent(H) != q; q = NT::get_parent(q)) ++d;
   vp_assert(Protected::subtree_size(p) == (unsigned)szn(p), "tree: subtree_size counts the nodes of the subtree"); vp_assert(bstree_algorithms<NT>::depth(p) == (unsigned)d, "tree: depth counts the ancestors"); vp_assert(NA::get_header(p) == H && !NA::is_header(p) && !NA::unique(p), "tree: queries of a node");
   NP lo = p, hi = p; while (NT::get_left(lo)) lo = NT::get_left(lo); while (NT::get_right(hi)) hi = NT::get_right(hi); vp_assert(bstree_algorithms<NT>::minimum(p) == lo && bstree_algorithms<NT>::maximum(p) == hi, "tree: extremes of a subtree"); vp_assert(NA::next_node(p) == (i + 1 < n ? t.nd(i + 1) : H) && (i == 0 || NA::prev_node(p) == t.nd(i - 1)) && NA::prev_node(H) == t.nd(n - 1), "tree: neighbours in order"); t.check(WHAT); }
struct NC { bool operator()(M::const_node_ptr a, M::const_node_ptr b) const { return VTr::to_value_ptr(a)->k < VTr::to_value_ptr(b)->k; } };
struct NPC { bool operator()(M::const_node_ptr a, M::const_node_ptr b) const { return VTr::to_value_ptr(a)->pr < VTr::to_value_ptr(b)->pr; } };
#if CFG == 1 || CFG == 2
enum { LIN = TREE != 3 };
#else
enum { LIN = 0 };
#endif
#if TREE != 3 && (CFG == 1 || CFG == 2)
ENTRY(algo_insert_erase) { // the node-algorithm interface used directly (containers without a cached size)
   Env e; Tree<M> t(e.v); int n = idx(N); t.build(0, n, false); V &x = e.v[n]; x.k = vp_u16();
#if TREE == 4
   x.pr = vp_u8();
#define PCX , NPC()
#define PCY , t.nd(n), NPC()
#else
#define PCX
#endif
   NP z = t.nd(n); int h;
   switch (vp_choose(5)) {
   case 0: NA::insert_equal_lower_bound(t.hdr(), z, NC() PCX); t.m.ins(t.lb(x.k), n); break;
   case 1: NA::insert_equal_upper_bound(t.hdr(), z, NC() PCX); t.m.ins(t.ub(x.k), n); break;
   case 2: { h = idx(n); NA::insert_equal(t.hdr(), h < n ? t.nd(h) : t.hdr(), z, NC() PCX); int lo = t.lb(x.k), hi = t.ub(x.k); t.m.ins(h >= lo && h <= hi ? h : h < lo ? lo : hi, n); break; }
   case 3: vp_assume(n > 0); { int p = vp_pick(n); NP y = t.nd(p);
#if TREE == 4
      NA::erase(t.hdr(), y, NPC());
#else
      NA::erase(t.hdr(), y);
#endif
      NA::init(y); t.m.del(p); } break;
   case 4: vp_assume(n > 0); { int p = vp_pick(n); NP y = t.nd(p);
#if TREE == 4
      NA::unlink(y, NPC());
#else
      NA::unlink(y);
#endif
      NA::init(y); t.m.del(p); } break;
   }
   t.check(WHAT); linkedCheck(e.v, MX, t.m);
}
#endif
