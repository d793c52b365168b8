// C07: unique insertion, hinted insertion and the two-step check/commit protocol, from every valid shape
#include "tree.h"
enum { N = TREE == 4 ? VP_B(4, 5) : TREE < 2 ? VP_B(8, 10) : VP_B(6, 7), MX = 14 };
struct Env { V v[MX]; Env() { for (int i = 0; i < MX; ++i) { v[i].id = i; v[i].k = 0; v[i].pr = 0; } } };
static void setKey(V &x) { x.k = vp_u16();
#if TREE == 4
   x.pr = vp_u8();
#endif
}
#if TREE == 4
struct PL { bool operator()(uint8_t p, const PV &x) const { return p < x.pr; } bool operator()(const PV &x, uint8_t p) const { return x.pr < p; } };
#define PR1 , PRIV(x)
#define PR2 , x.pr, PL()
#else
#define PR1
#define PR2
#endif
ENTRY(plain) {
   Env e; Tree<S> t(e.v); int n = idx(N); t.build(0, n, true); V &x = e.v[n]; setKey(x); int p = t.lb(x.k); bool dup = p < n && !(x.k < e.v[p].k);
   if (vp_choose(2)) { std::pair<S::iterator, bool> r = t.c.insert(x); vp_assert(r.second == !dup && &*r.first == (dup ? &e.v[p] : &x), "set: insertion succeeds exactly when no equivalent key is contained"); }
   else { int h = idx(n); S::iterator r = t.c.insert(S::const_iterator(t.at(h)), x); vp_assert(&*r == (dup ? &e.v[p] : &x), "set: hinted insertion returns the inserted or the equivalent element"); }
   if (!dup) t.m.ins(p, n); t.check(WHAT); linkedCheck(e.v, MX, t.m);
}
ENTRY(check_commit) {
   Env e; Tree<S> t(e.v); int n = idx(N); t.build(0, n, true); V &x = e.v[n]; setKey(x); int p = t.lb(x.k); bool dup = p < n && !(x.k < e.v[p].k); S::insert_commit_data cd; std::pair<S::iterator, bool> r;
   int op = vp_choose(4); int h = op & 1 ? idx(n) : 0;
   switch (op) {
   case 0: r = t.c.insert_check(KEYV(x) PR1, cd); break;
   case 1: r = t.c.insert_check(S::const_iterator(t.at(h)), KEYV(x) PR1, cd); break;
   case 2: r = t.c.insert_check(x.k, KL() PR2, cd); break;
   case 3: r = t.c.insert_check(S::const_iterator(t.at(h)), x.k, KL() PR2, cd); break;
   }
   vp_assert(r.second == !dup, "set: insert_check permits insertion exactly when no equivalent key is contained"); if (dup) vp_assert(&*r.first == &e.v[p], "set: a failed insert_check designates the equivalent element");
   if (dup || vp_choose(2)) { t.check(WHAT); linkedCheck(e.v, MX, t.m); if (dup) return; }
   S::iterator q = t.c.insert_commit(x, cd); vp_assert(&*q == &x, "set: insert_commit returns the inserted element"); t.m.ins(p, n); t.check(WHAT); linkedCheck(e.v, MX, t.m);
}
ENTRY(positional) { // positional insertion into a set: the caller vouches for the order
   Env e; Tree<S> t(e.v); int n = idx(N); t.build(0, n, true); V &x = e.v[n]; setKey(x); int h = idx(n); vp_assume((h == 0 || e.v[h - 1].k < x.k) && (h == n || x.k < e.v[h].k));
   switch (vp_choose(3)) {
   case 0: { S::iterator r = t.c.insert_before(S::const_iterator(t.at(h)), x); vp_assert(&*r == &x, "set: insert_before returns the inserted element"); } break;
   case 1: vp_assume(h == n); t.c.push_back(x); break;
   case 2: vp_assume(h == 0); t.c.push_front(x); break;
   }
   t.m.ins(h, n); t.check(WHAT); linkedCheck(e.v, MX, t.m);
}
ENTRY(history) { // sequences of every insertion form interleaved with erasure, from empty
   enum { K = TREE == 4 ? VP_B(3, 4) : VP_B(4, 5) };
   Env e; Tree<S> t(e.v); int used = 0;
   for (int s = 0; s < K; ++s) {
      int op = t.m.n ? vp_choose(4) : 0;
      if (op == 3) { int p = vp_pick(t.m.n); t.c.erase(S::const_iterator(t.at(p))); t.m.del(p); t.check(WHAT); continue; }
      V &x = e.v[used]; setKey(x); int p = t.lb(x.k); bool dup = p < t.m.n && !(x.k < e.v[t.m.a[p]].k), got;
      if (op == 0) got = t.c.insert(x).second;
      else if (op == 1) { S::iterator r = t.c.insert(S::const_iterator(t.at(idx(t.m.n))), x); got = &*r == &x; }
      else { S::insert_commit_data cd; got = t.c.insert_check(KEYV(x) PR1, cd).second; if (got) t.c.insert_commit(x, cd); }
      vp_assert(got == !dup, "set: insertion succeeds exactly when no equivalent key is contained"); if (got) t.m.ins(p, used); ++used; t.check(WHAT);
   }
   linkedCheck(e.v, MX, t.m);
}
