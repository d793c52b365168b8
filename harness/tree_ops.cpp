// C06 (contents and order) and C09..C13 (family invariants): one operation from every valid tree, and histories from empty
#include "tree.h"
enum { N = TREE == 0 || TREE == 1 ? VP_B(9, 11) : TREE == 4 ? VP_B(5, 5) : VP_B(6, 8), MX = 16 };
struct Env { V v[MX]; Env() { for (int i = 0; i < MX; ++i) { v[i].id = i; v[i].k = 0; v[i].pr = 0; } } };
static void setKey(V &x) { x.k = vp_u16();
#if TREE == 4
   x.pr = vp_u8();
#endif
}
ENTRY(insert) { // multiset insert without hint: after every equivalent element
   Env e; Tree<M> t(e.v); int n = idx(N); t.build(0, n, false); V &x = e.v[n]; setKey(x);
   M::iterator r = t.c.insert(x); vp_assert(&*r == &x, "tree: insert returns the inserted element"); t.m.ins(t.ub(x.k), n); t.check(WHAT); linkedCheck(e.v, MX, t.m);
}
ENTRY(insert_unique) {
   Env e; Tree<S> t(e.v); int n = idx(N); t.build(0, n, true); V &x = e.v[n]; setKey(x);
   std::pair<S::iterator, bool> r = t.c.insert(x); int p = t.lb(x.k); bool dup = p < n && !(x.k < e.v[p].k);
   vp_assert(r.second == !dup && &*r.first == (dup ? &e.v[p] : &x), "tree: unique insertion succeeds exactly when no equivalent key exists"); if (!dup) t.m.ins(p, n); t.check(WHAT); linkedCheck(e.v, MX, t.m);
}
ENTRY(insert_at) { // hinted and positional insertion
   Env e; Tree<M> t(e.v); int n = idx(N); t.build(0, n, false); V &x = e.v[n]; setKey(x); int h = idx(n);
   switch (vp_choose(4)) {
   case 0: { M::iterator r = t.c.insert(M::const_iterator(t.at(h)), x); vp_assert(&*r == &x, "tree: insert returns the inserted element");
      int lo = t.lb(x.k), hi = t.ub(x.k); t.m.ins(h >= lo && h <= hi ? h : h < lo ? lo : hi, n); break; }
   case 1: vp_assume((h == 0 || !(x.k < e.v[h - 1].k)) && (h == n || !(e.v[h].k < x.k))); { M::iterator r = t.c.insert_before(t.at(h), x); vp_assert(&*r == &x, "tree: insert_before returns the inserted element"); } t.m.ins(h, n); break;
   case 2: vp_assume(n == 0 || !(x.k < e.v[n - 1].k)); t.c.push_back(x); t.m.ins(n, n); break;
   case 3: vp_assume(n == 0 || !(e.v[0].k < x.k)); t.c.push_front(x); t.m.ins(0, n); break;
   }
   t.check(WHAT); linkedCheck(e.v, MX, t.m);
}
ENTRY(erase) {
   Env e; Tree<M> t(e.v); int n = 1 + vp_pick(N); t.build(0, n, false); int p = vp_pick(n); Mdl d; Disp di = {&d}; M::iterator r;
   switch (vp_choose(6)) {
   case 0: r = t.c.erase(M::const_iterator(t.at(p))); t.m.del(p); break;
   case 1: r = t.c.erase_and_dispose(M::const_iterator(t.at(p)), di); t.m.del(p); vp_assert(d.n == 1 && d.a[0] == p, "tree: the erased element is disposed once"); break;
   case 2: { V *x = t.c.unlink_leftmost_without_rebalance(); vp_assert(x == &e.v[0], "tree: unlink_leftmost returns the first element"); t.m.del(0); t.check(1); linkedCheck(e.v, MX, t.m); while (t.c.unlink_leftmost_without_rebalance()) t.m.del(0); t.check(WHAT); return; } // invariants are given up on purpose until the tree is empty
   case 3: if (AUTO) { e.v[p].~V(); t.m.del(p); t.check(WHAT); new (&e.v[p]) V; e.v[p].id = p; linkedCheck(e.v, MX, t.m); return; }
#if TREE != 3 && TREE != 4 && (CFG == 1 || CFG == 2)
      M::remove_node(e.v[p]); t.m.del(p); t.check(WHAT); linkedCheck(e.v, MX, t.m);
#endif
      return;
   case 4: t.c.clear(); t.m.n = 0; t.check(WHAT); linkedCheck(e.v, MX, t.m); return;
   case 5: t.c.clear_and_dispose(di); t.m.n = 0; { bool s = d.n == n; for (int i = 0; i < n; ++i) s = s && d.find(i) >= 0; vp_assert(s, "tree: clear_and_dispose disposes each element once"); } t.check(WHAT); linkedCheck(e.v, MX, t.m); return;
   }
   vp_assert(r == t.at(p), "tree: erase returns the position after the erased element"); t.check(WHAT); linkedCheck(e.v, MX, t.m);
}
ENTRY(erase_many) { // ranges and keys
   Env e; Tree<M> t(e.v); int n = idx(TREE < 2 ? N - 1 : N - 1); t.build(0, n, false); Mdl d; Disp di = {&d}; int f = 0, l = 0; int op = vp_choose(6);
   if (op < 2) { f = idx(n); l = f + idx(n - f); M::iterator r = op ? t.c.erase_and_dispose(M::const_iterator(t.at(f)), M::const_iterator(t.at(l)), di) : t.c.erase(M::const_iterator(t.at(f)), M::const_iterator(t.at(l))); vp_assert(r == t.at(l), "tree: range erase returns the end of the range"); }
   else { V k; setKey(k); f = t.lb(k.k); l = t.ub(k.k); std::size_t r = op == 2 ? t.c.erase(KEYV(k)) : op == 3 ? t.c.erase(k.k, KL()) : op == 4 ? t.c.erase_and_dispose(KEYV(k), di) : t.c.erase_and_dispose(k.k, KL(), di); vp_assert(r == (unsigned)(l - f), "tree: erase(key) returns the number erased"); }
   if (op == 1 || op > 3) { bool s = d.n == l - f; for (int i = 0; s && i < d.n; ++i) s = d.a[i] == f + i; vp_assert(s, "tree: erased elements are disposed once each"); }
   t.m.del(f, l); t.check(WHAT); linkedCheck(e.v, MX, t.m);
}
ENTRY(history) { // from empty: any sequence of inserts, erases and key erases
   enum { K = TREE == 4 ? VP_B(3, 4) : VP_B(4, 5) };
   Env e; Tree<M> t(e.v); int used = 0;
   for (int s = 0; s < K; ++s) {
      int op = t.m.n ? vp_choose(3) : 0;
      if (op == 0) { V &x = e.v[used]; setKey(x); t.c.insert(x); t.m.ins(t.ub(x.k), used++); }
      else if (op == 1) { int p = vp_pick(t.m.n); t.c.erase(M::const_iterator(t.at(p))); t.m.del(p); }
      else { key_t_ k = vp_u16(); int f = t.lb(k), l = t.ub(k); t.c.erase(k, KL()); t.m.del(f, l); }
      t.check(WHAT);
   }
   linkedCheck(e.v, MX, t.m);
}
ENTRY(construct_range) {
   enum { K = VP_B(4, 5) - (TREE == 4) };
   Env e; int n = idx(K); for (int i = 0; i < n; ++i) setKey(e.v[i]);
   if (vp_choose(2)) { M c(e.v, e.v + n); Mdl m; for (int i = 0; i < n; ++i) { int p = 0; while (p < m.n && !(e.v[i].k < e.v[m.a[p]].k)) ++p; m.ins(p, i); } Tree<M> t(e.v); t.c.swap(c); t.m = m; t.check(WHAT); linkedCheck(e.v, MX, t.m); }
   else { S c; if (vp_choose(2) && n) { c.insert(e.v[0]); c.insert(e.v + 1, e.v + n); } else c.insert(e.v, e.v + n); Mdl m; for (int i = 0; i < n; ++i) { int p = 0; while (p < m.n && e.v[m.a[p]].k < e.v[i].k) ++p; if (p == m.n || e.v[i].k < e.v[m.a[p]].k) m.ins(p, i); } Tree<S> t(e.v); t.c.swap(c); t.m = m; t.check(WHAT); linkedCheck(e.v, MX, t.m); }
}
