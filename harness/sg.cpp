// C12: scapegoat trees stay loosely balanced; the balance factor is configurable
#define TREE 3
#define MAXN 40
#include "tree.h"
enum { N = VP_B(7, 9), MX = 20 };
struct Env { V v[MX]; Env() { for (int i = 0; i < MX; ++i) { v[i].id = i; v[i].k = 0; v[i].pr = 0; } } };
typedef Tree<M>::NT NT; typedef Tree<M>::NP NP;
static int hgt(NP p) { if (!p) return -1; int a = hgt(NT::get_left(p)), b = hgt(NT::get_right(p)); return 1 + (a > b ? a : b); } // in edges
static int flog2(int n) { int h = 0; while (n > 1) { n /= 2; ++h; } return h; }
// floor(log_{1/alpha} n): largest h with (1/alpha)^h <= n, i.e. alpha^h * n >= 1, in exact integer arithmetic
#if CFG == 1
static int hAlpha(int n) { int h = 0; while ((1ll << (h + 1)) <= (long long)n * n) ++h; return h; } // alpha = 1/sqrt 2
enum { ANUM = 70711, ADEN = 100000, WNUM = 3, WDEN = 4 };
#else
static long long an = 70711, ad = 100000;
static int hAlpha(int n) { int h = 0; double x = n; while (x * an / ad >= 0.99999) { x = x * an / ad; ++h; } return h; }
#endif
static void bound(Tree<M> &t, int mx) { NP r = NT::get_parent(t.hdr()); if (t.m.n) vp_assert(hgt(r) <= hAlpha(mx), "sg: height stays within log base 1/alpha of the largest size since the last rebuild"); }
// erasures keep the height within one level of the bound for the current size
static void bound1(Tree<M> &t) { NP r = NT::get_parent(t.hdr()); if (t.m.n) vp_assert(hgt(r) <= hAlpha(t.m.n) + 1, "sg: height stays within one level of log base 1/alpha of the current size"); }
static void ins(Env &, Tree<M> &t, int id) { // every insertion form, at a symbolic position
   int n = t.m.n, h = idx(n); V &x = t.v[id]; x.k = 5; // equal keys: position alone decides
   int op = vp_choose(3);
   if (op == 0) t.c.insert_before(t.at(h), x); else if (op == 1) t.c.insert(M::const_iterator(t.at(h)), x); else { vp_assume(h == n || h == 0); if (h == n) { if (vp_choose(2)) t.c.push_back(x); else t.c.insert(x); } else t.c.push_front(x); }
   t.m.ins(h, id);
}
static int rootId(Tree<M> &t) { NP r = NT::get_parent(t.hdr()); for (int i = 0; i < t.m.n; ++i) if (t.nd(t.m.a[i]) == r) return t.m.a[i]; return -1; }
// an element off the path from the root to a deepest node: erasing it keeps the height
static int offDeepest(Tree<M> &t) { bool on[64]; for (int i = 0; i < 64; ++i) on[i] = false; NP r = NT::get_parent(t.hdr()); while (r) { on[M::value_traits::to_value_ptr(r)->id] = true; r = hgt(NT::get_left(r)) >= hgt(NT::get_right(r)) ? NT::get_left(r) : NT::get_right(r); } for (int i = 0; i < t.m.n; ++i) if (!on[t.m.a[i]]) return i; return 0; }
ENTRY(from_any) { // any shape within the bound, a few erasures, then insertions
   Env e; Tree<M> t(e.v); int n = idx(N); t.build(0, n, false); for (int i = 0; i < n; ++i) e.v[i].k = 5; NP r = NT::get_parent(t.hdr()); int mx = n; if (n) vp_assume(hgt(r) <= hAlpha(n));
   int er = vp_choose(3); for (int i = 0; i < er && t.m.n > 1; ++i) { int p = vp_pick(t.m.n); t.c.erase(M::const_iterator(t.at(p))); t.m.del(p); bound1(t); }
   t.check(1); bound(t, mx);
   int in = 1 + (er == 0 ? vp_choose(VP_B(1, 2)) : 0); for (int i = 0; i < in; ++i) { ins(e, t, n + i); if (t.m.n > mx) mx = t.m.n; bound(t, mx); bound1(t); }
   t.check(1);
}
ENTRY(shrink) { // from any shape down to one element, in several orders
   Env e; Tree<M> t(e.v); int n = 2 + vp_pick(N - 1); t.build(0, n, false); for (int i = 0; i < n; ++i) e.v[i].k = i; NP r = NT::get_parent(t.hdr()); vp_assume(hgt(r) <= hAlpha(n));
   int pat = vp_choose(4), form = vp_choose(3); while (t.m.n > 1) { int p = pat == 0 ? 0 : pat == 1 ? t.m.n - 1 : pat == 2 ? t.m.n / 2 : t.m.find(NT::get_parent(t.hdr()) == NP() ? 0 : rootId(t)); if (form == 0) t.c.erase(M::const_iterator(t.at(p))); else if (form == 1) t.c.erase(e.v[t.m.a[p]]); else t.c.erase(M::const_iterator(t.at(p)), M::const_iterator(t.at(p + 1))); t.m.del(p); bound1(t); bound(t, n); } t.check(1);
}
ENTRY(swap_move_clone) { // the balance bookkeeping travels with the contents
   Env e; Tree<M> t(e.v), u(e.v); int n = idx(N - 2), q = vp_choose(2) * 7; t.build(0, n, false); for (int i = 0; i < n; ++i) e.v[i].k = 5; NP r = NT::get_parent(t.hdr()); if (n) vp_assume(hgt(r) <= hAlpha(n));
   for (int i = 0; i < q; ++i) { e.v[n + i].k = 5; u.c.push_back(e.v[n + i]); u.m.ins(i, n + i); }
   struct Cl { V *v; int *k; V *operator()(const V &s) const { V &d = v[(*k)++]; d.k = s.k; return &d; } }; struct Ds { void operator()(V *) const {} }; int next = MX - N; Mdl tm = t.m, um = u.m; int op = vp_choose(5);
   switch (op) {
   case 0: t.c.swap(u.c); t.m = um; u.m = tm; break;
   case 1: { M z(boost::move(t.c)); u.c.clear(); u.m.n = 0; u.c.swap(z); u.m = tm; t.m.n = 0; break; }
   case 2: u.c.clear(); u.c = boost::move(t.c); u.m = tm; t.m.n = 0; break;
   case 3: { Cl c = {e.v, &next}; u.c.clone_from(t.c, c, Ds()); u.m.n = 0; for (int i = 0; i < n; ++i) u.m.ins(i, -1); M::iterator it = u.c.begin(); for (int i = 0; i < n; ++i, ++it) u.m.a[i] = it->id; break; }
   case 4: { u.c.clear(); u.m.n = 0; u.c.swap(t.c); u.m = tm; t.m.n = 0; break; }
   }
   int mx = u.m.n; if (next + 2 > MX) return; bound(u, mx); for (int i = 0; i < 2 && u.m.n; ++i) { V &x = e.v[op == 3 ? next + i : MX - 1 - i]; x.k = 5; int h = i ? u.m.n : idx(u.m.n); u.c.insert_before(u.at(h), x); u.m.ins(h, x.id); mx = u.m.n; bound(u, mx); }
   u.check(1); while (u.m.n > 1) { u.c.erase(u.c.begin()); u.m.del(0); bound1(u); } u.check(1);
}
ENTRY(grow) { // growth by single insertions only: bounded by the current size at every step
   Env e; Tree<M> t(e.v); for (int i = 0; i < VP_B(6, 7); ++i) { int h = idx(i); e.v[i].k = 5; t.c.insert_before(t.at(h), e.v[i]); t.m.ins(h, i); bound(t, i + 1); } t.check(1);
}
ENTRY(ends) { // long monotone growth and shrinkage
   Env e; V *v = new V[40]; for (int i = 0; i < 40; ++i) { v[i].id = i; v[i].k = 5; v[i].pr = 0; } { Tree<M> t(v); int n = VP_B(28, 40); bool front = vp_choose(2);
#if CFG != 1
   static const int al[] = {0, 55, 60, 80, 95}; int a = al[vp_choose(5)]; if (a) { t.c.balance_factor(a / 100.0f); an = a; ad = 100; }
#endif
   for (int i = 0; i < n; ++i) { if (front) { t.c.push_front(v[i]); t.m.ins(0, i); } else { t.c.push_back(v[i]); t.m.ins(i, i); } bound(t, i + 1); }
   int p = vp_choose(4); for (int i = n; i > 0; --i) { int q = p == 0 ? 0 : p == 1 ? i - 1 : p == 2 ? i / 2 : offDeepest(t); t.c.erase(M::const_iterator(t.at(q))); t.m.del(q); int lim = i * 2 > n ? n : i * 2; bound(t, lim); bound1(t); } t.check(1);
#if CFG != 1
   an = 70711; ad = 100000;
#endif
   } delete[] v;
}
ENTRY(unique_commit) { // check/commit insertion keeps the bound as well
   Env e; Tree<S> t(e.v); int n = idx(N - 1); t.build(0, n, true); typedef Tree<S>::NT NT2; (void)sizeof(NT2); NP r = NT::get_parent(t.hdr()); if (n) vp_assume(hgt(r) <= hAlpha(n)); V &x = e.v[n]; x.k = vp_u16(); int p = t.lb(x.k); vp_assume(p == n || x.k < e.v[p].k);
   int op = vp_choose(3); if (op == 0) t.c.insert(x); else { S::insert_commit_data cd; int h = op == 2 ? idx(n) : 0; bool ok = op == 1 ? t.c.insert_check(x, cd).second : t.c.insert_check(S::const_iterator(t.at(h)), x, cd).second; vp_assert(ok, "sg: insert_check permits a new key"); t.c.insert_commit(x, cd); }
   t.m.ins(p, n); t.check(1); vp_assert(hgt(NT::get_parent(t.hdr())) <= hAlpha(n + 1), "sg: height stays within log base 1/alpha of the size");
}
#if CFG != 1
static const int alphas[] = {55, 60, 75, 90, 95};
ENTRY(factor) {
   Env e; Tree<M> t(e.v); int n = idx(N - 1); t.build(0, n, false); for (int i = 0; i < n; ++i) e.v[i].k = 5; NP r = NT::get_parent(t.hdr()); if (n) vp_assume(hgt(r) <= hAlpha(n));
   int a = alphas[vp_choose(5)]; float f = a / 100.0f; bool strict = f < t.c.balance_factor(); t.c.balance_factor(f); vp_assert(t.c.balance_factor() == f, "sg: the balance factor reads back"); t.check(1);
   if (n && strict) vp_assert(hgt(NT::get_parent(t.hdr())) == flog2(n), "sg: a stricter balance factor rebalances the tree");
   if (strict || n == 0) { an = a; ad = 100; int mx = n; for (int i = 0; i < 2; ++i) { ins(e, t, n + i); mx = t.m.n; bound(t, mx); } t.check(1); an = 70711; ad = 100000; }
}
#endif
