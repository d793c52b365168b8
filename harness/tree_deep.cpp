// C09, C10, C13 (family invariants), deeper: one structural operation at every position of every valid tree of more elements. Keys play no
// role in positional insertion and erasure, so they are concrete; shapes (and priorities) are symbolic.
#define MAXN 24
#include "tree.h"
enum { N = TREE == 0 ? VP_B(15, 17) : TREE == 1 ? VP_B(18, 21) : VP_B(8, 9), MX = 24 };
struct Env { V v[MX]; Env() { for (int i = 0; i < MX; ++i) { v[i].id = i; v[i].k = 0; v[i].pr = 0; } } };
ENTRY(insert) { Env e; Tree<M> t(e.v); int n = idx(N); t.build(0, n, false, false); int p = idx(n); V &x = e.v[n]; x.k = p;
#if TREE == 4
   x.pr = vp_u8();
#endif
   M::iterator r = t.c.insert_before(t.at(p), x); vp_assert(&*r == &x, "tree: insert_before returns the inserted element"); t.m.ins(p, n); t.check(WHAT); }
ENTRY(erase) { Env e; Tree<M> t(e.v); int n = 1 + idx(N - 1); t.build(0, n, false, false); int p = vp_pick(n); M::iterator r = t.c.erase(M::const_iterator(t.at(p))); t.m.del(p); vp_assert(r == t.at(p), "tree: erase returns the position after the erased element"); t.check(WHAT); }
#if TREE < 2
ENTRY(replace) { Env e; Tree<M> t(e.v); int n = 1 + idx(VP_B(8, 10)); t.build(0, n, false, false); int p = vp_pick(n); t.c.replace_node(t.at(p), e.v[n]); t.m.a[p] = n; t.check(WHAT); }
#endif
