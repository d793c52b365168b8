// C17: merging between any two containers of one family, from every pair of valid shapes
#include "tree.h"
enum { N = TREE < 2 ? VP_B(4, 5) : TREE == 4 ? VP_B(2, 3) : VP_B(3, 4), MX = 12 };
struct Env { V v[MX]; Env() { for (int i = 0; i < MX; ++i) { v[i].id = i; v[i].k = 0; v[i].pr = 0; } } };
template <class A, class B> static void mergeUnique(bool uniqSrc) {
   Env e; Tree<A> t(e.v); Tree<B> u(e.v); int n = idx(N), q = idx(N); t.build(0, n, true); u.build(n, q, uniqSrc); if (vp_choose(2)) t.c.merge(u.c); else t.c.merge(static_cast<B &>(u.c));
   int w = 0; for (int i = 0; i < q; ++i) { int id = n + i; int p = t.lb(e.v[id].k); bool dup = p < t.m.n && !(e.v[id].k < e.v[t.m.a[p]].k); if (dup) u.m.a[w++] = id; else t.m.ins(p, id); } u.m.n = w;
   t.check(WHAT); u.check(WHAT); linkedCheck(e.v, MX, t.m, &u.m);
}
template <class A, class B> static void mergeEqual(bool uniqSrc) {
   Env e; Tree<A> t(e.v); Tree<B> u(e.v); int n = idx(N), q = idx(N); t.build(0, n, false); u.build(n, q, uniqSrc); t.c.merge(u.c);
   for (int i = 0; i < q; ++i) t.m.ins(t.ub(e.v[n + i].k), n + i); u.m.n = 0;
   t.check(WHAT); u.check(WHAT); linkedCheck(e.v, MX, t.m, &u.m);
}
ENTRY(set_set) { mergeUnique<S, S>(true); }
ENTRY(set_multi) { mergeUnique<S, M>(false); }
ENTRY(multi_multi) { mergeEqual<M, M>(false); }
ENTRY(multi_set) { mergeEqual<M, S>(true); }
struct Rev { bool operator()(const CV &a, const CV &b) const { return b.k < a.k; } };
typedef TS<V, CT_OPT, compare<Rev>> SR; typedef TM<V, CT_OPT, compare<Rev>> MR;
// a source ordered by another comparison: its elements arrive in descending order
template <class C> static void srcFill(Env &e, C &c, int n, int q) { for (int i = 0; i < q; ++i) { e.v[n + i].k = vp_u16();
#if TREE == 4
   e.v[n + i].pr = vp_u8();
#endif
   if (i) vp_assume(e.v[n + i].k < e.v[n + i - 1].k); c.push_back(e.v[n + i]); } }
ENTRY(other_order) {
   Env e; int n = idx(N), q = idx(N);
   if (vp_choose(2)) { Tree<S> t(e.v); t.build(0, n, true); SR s; srcFill(e, s, n, q); t.c.merge(s); Mdl left; for (int i = 0; i < q; ++i) { int id = n + i, p = t.lb(e.v[id].k); if (p < t.m.n && !(e.v[id].k < e.v[t.m.a[p]].k)) left.ins(left.n, id); else t.m.ins(p, id); }
      t.check(WHAT); Tree<SR> z(e.v); z.c.swap(s); z.m = left; z.check(WHAT, false); linkedCheck(e.v, MX, t.m, &left); }
   else { Tree<M> t(e.v); t.build(0, n, false); MR s; srcFill(e, s, n, q); t.c.merge(s); for (int i = 0; i < q; ++i) t.m.ins(t.ub(e.v[n + i].k), n + i); t.check(WHAT); vp_assert(s.empty() && s.begin() == s.end(), "tree: merging into a multiset empties the source"); linkedCheck(e.v, MX, t.m); }
}
