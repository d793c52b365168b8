// C31: ==, !=, <, >, <=, >= between containers
// KIND 0 list, 1 slist, 2 ordered containers (TREE, CFG), 3 hash containers (HCFG)
#define STATEFUL 1
#define VP_FINE_EQ 1
#if KIND == 0
#include "list.h"
#elif KIND == 1
#include "slist.h"
#elif KIND == 2
#define MAXN 8
#include "tree.h"
enum { MX = 16 };
#else
#include "hash.h"
#endif
#if KIND < 3
// the six operators against the specification on the sequences of elements a and b
template <class C> static void six(const C &x, const C &y, const V *v, const Mdl &a, const Mdl &b) {
   bool lt = false, eq = a.n == b.n, dec = false, gt = false;
   for (int i = 0; i < a.n && i < b.n; ++i) { const V &p = v[a.a[i]], &q = v[b.a[i]]; eq = eq & (p.k == q.k) & (pay[p.id] == pay[q.id]); lt = lt | (!dec & (p.k < q.k)); gt = gt | (!dec & (q.k < p.k)); dec = dec | (p.k != q.k); }
   lt = lt | (!dec & (a.n < b.n)); gt = gt | (!dec & (b.n < a.n));
   bool r1 = x == y, r2 = x != y, r3 = x < y, r4 = x > y, r5 = x <= y, r6 = x >= y;
   vp_assert((r1 == eq) & (r2 == !eq), "compare: containers are equal exactly when their sequences are element-wise equal");
   vp_assert((r3 == lt) & (r4 == gt) & (r5 == !gt) & (r6 == !lt), "compare: ordering is lexicographical over the elements");
   vp_observe(r1 + 2 * r3 + 4 * r4);
}
#endif
#if KIND < 2
enum { NC = VP_B(4, 5) };
ENTRY(compare) { Env e; e.fill(e.x, e.mx, idx(NC)); e.fill(e.y, e.my, idx(NC)); for (int i = 0; i < e.used; ++i) { e.v[i].k = vp_u8() & 3; pay[i] = vp_u8() & 1; } six(e.x, e.y, e.v, e.mx, e.my); e.done(); }
ENTRY(compare_self) { Env e; e.fill(e.x, e.mx, idx(NC)); for (int i = 0; i < e.used; ++i) { e.v[i].k = vp_u8(); pay[i] = 0; } six(e.x, e.x, e.v, e.mx, e.mx); e.done(); }
#elif KIND == 2
enum { NC = VP_B(4, 5) };
struct Env { V v[MX]; Env() { for (int i = 0; i < MX; ++i) { v[i].id = i; v[i].k = 0; v[i].pr = 0; pay[i] = 0; } } };
template <class C> static void cmp(bool uniq) {
   Env e; Tree<C> t(e.v, 0), u(e.v, 0); int n = idx(NC), m = idx(NC); t.build(0, n, uniq); for (int i = 0; i < m; ++i) { V &x = e.v[n + i]; x.k = vp_u16(); if (i) { if (uniq) vp_assume(e.v[n + i - 1].k < x.k); else vp_assume(e.v[n + i - 1].k <= x.k); } u.c.push_back(x); u.m.ins(i, n + i); }
   for (int i = 0; i < n + m; ++i) pay[i] = vp_u8() & 1;
   six(t.c, u.c, e.v, t.m, u.m); t.check(3); u.check(3);
}
ENTRY(compare_multi) { cmp<M>(false); }
ENTRY(compare_uniq) { cmp<S>(true); }
#else
enum { NC = F & F_FM ? 2 : 3 };
// two tables over the same functors, with different bucket counts; equality is independent of bucket layout and insertion order
template <class C> static void cmp(bool uniq) {
   Env e; for (int i = 0; i < Env::MX; ++i) pay[i] = 0; int z = (F & F_FM) ? 1 : vp_choose(2); unsigned sb = FM ? 3 : P2 ? 4 : 3, db = z ? sb : FM ? 7 : P2 ? 2 : 2; hashBits = 2; hashMod = sb; while (hashMod % db) hashMod += sb; HT<C> t(e.v, sb, 0), u(e.v, db, 0); int n = idx(z ? NC : NC - 1), m = idx(z ? NC : NC - 1); if (n != m) vp_assume(n + m < 2 * NC - 2);
   for (int i = 0; i < n + m; ++i) { setKey(e.v, i); HT<C> &w = i < n ? t : u; if (uniq && w.equiv(e.v[i].k)) vp_assume(false); w.c.insert(e.v[i]); w.m.ins(w.m.n, i); }
   for (int i = 0; i < n + m; ++i) pay[i] = vp_u8() & 1;
   bool eq = n == m; for (int i = 0; i < n + m; ++i) { V &p = e.v[i]; int a = 0, b = 0; for (int j = 0; j < n + m; ++j) { int d = (e.v[j].k == p.k) & (pay[j] == pay[i]); if (j < n) a += d; else b += d; } eq = eq & (a == b); }
   const C &x = t.c, &y = u.c; bool r1 = x == y, r2 = x != y, r3 = y == x;
   vp_assert((r1 == eq) & (r2 == !eq) & (r3 == eq), "compare: hash containers are equal exactly when each element occurs equally often in both"); vp_observe(r1);
   t.check(); u.check();
}
ENTRY(compare_multi) { cmp<M>(false); }
ENTRY(compare_uniq) { cmp<S>(true); }
// one key, several elements
ENTRY(compare_group) { Env e; enum { G = FM ? VP_B(2, 3) : VP_B(3, 4) }; unsigned sb = FM ? 3 : P2 ? 2 : 3; HT<M> t(e.v, sb, 0), u(e.v, sb, 0); hval h = vp_choose(2); for (int i = 0; i < Env::MX; ++i) pay[i] = 0;
   for (int i = 0; i < 2 * G; ++i) { e.v[i].k = 0; e.v[i].hv = h; HT<M> &w = i < G ? t : u; w.c.insert(e.v[i]); w.m.ins(w.m.n, i); pay[i] = vp_u8() & 3; }
   bool eq = true; for (int i = 0; i < 2 * G; ++i) { int a = 0, b = 0; for (int j = 0; j < 2 * G; ++j) { int d = pay[j] == pay[i]; if (j < G) a += d; else b += d; } eq = eq & (a == b); }
   bool r1 = t.c == u.c; vp_assert(r1 == eq, "compare: hash containers are equal exactly when each element occurs equally often in both"); vp_observe(r1); t.check(); u.check(); }
#endif
