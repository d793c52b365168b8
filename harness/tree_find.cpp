// C08: every lookup on every valid shape with symbolic keys and a symbolic probe
#include "tree.h"
enum { N = TREE == 4 ? VP_B(4, 5) : TREE < 2 ? VP_B(6, 9) : VP_B(5, 7), MX = 12 };
struct Env { V v[MX]; Env() { for (int i = 0; i < MX; ++i) { v[i].id = i; v[i].k = 0; v[i].pr = 0; } } };
struct Rg { key_t_ lo, hi; }; // a key equivalent to every element in [lo, hi]
struct RgC { bool operator()(const Rg &r, const CV &x) const { return r.hi < x.k; } bool operator()(const CV &x, const Rg &r) const { return x.k < r.lo; } bool operator()(const Rg &a, const Rg &b) const { return a.hi < b.lo; } };
template <class C, class P> static int pos(Tree<C> &t, P it) { if (it == t.c.cend()) return t.m.n; for (int i = 0; i < t.m.n; ++i) if (&*it == &t.v[t.m.a[i]]) return i; return -1; }
template <class C, class TR> static void looks(Tree<C> &t, C *mc, const C *cc, int op, TR) {
   bool het = op & 1; Rg r; V k; k.k = vp_u16(); k.pr = 0; k.id = 0; r.lo = r.hi = k.k; if (het) { r.hi = vp_u16(); vp_assume(r.lo <= r.hi); }
   int lo = t.lb(r.lo), hi = t.ub(r.hi); RgC rc;
#define BOTH(m_, c_, h_) (mc ? pos(t, het ? mc->h_ : mc->m_) : pos(t, het ? cc->h_ : cc->m_))
   switch (op >> 1) {
   case 0: { int p = BOTH(find(KEYV(k)), find(KEYV(k)), find(r, rc)); vp_assert(p == (lo < hi ? lo : t.m.n), "tree: find returns the first equivalent element or end"); } break;
   case 1: { int p = BOTH(lower_bound(KEYV(k)), lower_bound(KEYV(k)), lower_bound(r, rc)); vp_assert(p == lo, "tree: lower_bound is the first element not less than the key"); } break;
   case 2: { int p = BOTH(upper_bound(KEYV(k)), upper_bound(KEYV(k)), upper_bound(r, rc)); vp_assert(p == hi, "tree: upper_bound is the first element greater than the key"); } break;
   case 3: { int a, b;
      if (mc) { std::pair<typename C::iterator, typename C::iterator> q = het ? mc->equal_range(r, rc) : mc->equal_range(KEYV(k)); a = pos(t, q.first); b = pos(t, q.second); }
      else { std::pair<typename C::const_iterator, typename C::const_iterator> q = het ? cc->equal_range(r, rc) : cc->equal_range(KEYV(k)); a = pos(t, q.first); b = pos(t, q.second); }
      vp_assert(a == lo && b == hi, "tree: equal_range is [lower_bound, upper_bound)"); } break;
   case 4: { std::size_t n = mc ? (het ? mc->count(r, rc) : mc->count(KEYV(k))) : (het ? cc->count(r, rc) : cc->count(KEYV(k))); vp_assert(n == (unsigned)(hi - lo), "tree: count is the number of equivalent elements"); } break;
   case 5: { bool lc = vp_choose(2), rcl = vp_choose(2); V k2; k2.k = vp_u16(); k2.pr = 0; k2.id = 0; Rg r2; r2.lo = r2.hi = k2.k; if (het) { r2.hi = vp_u16(); vp_assume(r2.lo <= r2.hi); }
      if (het) { vp_assume(r.hi < r2.lo); } // distinct keys
      else vp_assume(k.k < k2.k || (k.k == k2.k && (lc || rcl)));
      int a, b, ea = lc ? t.lb(r.lo) : t.ub(r.hi), eb = rcl ? t.ub(r2.hi) : t.lb(r2.lo);
      if (mc) { std::pair<typename C::iterator, typename C::iterator> q = het ? mc->bounded_range(r, r2, rc, lc, rcl) : mc->bounded_range(KEYV(k), KEYV(k2), lc, rcl); a = pos(t, q.first); b = pos(t, q.second); }
      else { std::pair<typename C::const_iterator, typename C::const_iterator> q = het ? cc->bounded_range(r, r2, rc, lc, rcl) : cc->bounded_range(KEYV(k), KEYV(k2), lc, rcl); a = pos(t, q.first); b = pos(t, q.second); }
      vp_assert(a == ea && b == eb, "tree: bounded_range returns the requested bounds"); } break;
   }
   t.check(WHAT);
}
ENTRY(multi) { Env e; Tree<M> t(e.v); int n = idx(N); t.build(0, n, false); int op = vp_choose(12); if (vp_choose(2)) looks(t, &t.c, &t.c, op, 0); else looks(t, (M *)0, &t.c, op, 0); linkedCheck(e.v, MX, t.m); }
ENTRY(uniq) { Env e; Tree<S> t(e.v); int n = idx(N); t.build(0, n, true); int op = vp_choose(12); if (vp_choose(2)) looks(t, &t.c, &t.c, op, 0); else looks(t, (S *)0, &t.c, op, 0); linkedCheck(e.v, MX, t.m); }
ENTRY(raw) { // the tree itself: heterogeneous lower_bound_range is reached through set::equal_range; here the raw interface
   Env e; Tree<T> t(e.v); int n = idx(N - 1); t.build(0, n, false); int op = vp_choose(12); if (vp_choose(2)) looks(t, &t.c, &t.c, op, 0); else looks(t, (T *)0, &t.c, op, 0); linkedCheck(e.v, MX, t.m);
}
ENTRY(observers) { // the functors a container hands out judge keys, elements and priorities as it does itself
   V a, b; a.k = vp_u16(); b.k = vp_u16(); a.pr = vp_u8(); b.pr = vp_u8(); M m; S s; T t; bool lt = a.k < b.k;
   vp_assert(m.key_comp()(KEYV(a), KEYV(b)) == lt && s.key_comp()(KEYV(a), KEYV(b)) == lt && t.key_comp()(KEYV(a), KEYV(b)) == lt, "tree: key_comp compares keys");
   vp_assert(m.value_comp()(a, b) == lt && s.value_comp()(a, b) == lt && t.value_comp()(a, b) == lt, "tree: value_comp compares the keys of elements");
#if TREE == 4
   bool pl = a.pr < b.pr; vp_assert(m.priority_comp()(PRIV(a), PRIV(b)) == pl && s.priority_comp()(PRIV(a), PRIV(b)) == pl && t.priority_comp()(PRIV(a), PRIV(b)) == pl, "treap: priority_comp compares priorities");
#endif
}
