// C19: groups of equivalent elements in multi hash containers: few keys, many equal elements, arbitrary (possibly colliding) hashes
#include "hash.h"
enum { N = VP_B(6, 7) };
static void fill2(HT<M> &t, int n) { for (int i = 0; i < n; ++i) { int c = classes(t.v, i); t.v[i].k = vp_pick(c + 1 > 2 ? 2 : c + 1); t.v[i].hv = hashOf(t.v, i, t.v[i].k); t.c.insert(t.v[i]); t.m.ins(t.m.n, i); } }
static Mdl order(HT<M> &t) { Mdl o; for (M::iterator i = t.c.begin(); i != t.c.end(); ++i) { if (o.n >= t.m.n) vp_fail("hash: iteration does not end"); o.ins(o.n, i->id); } return o; }
static void sameOrder(HT<M> &t, const Mdl &o) { Mdl n = order(t); bool ok = n.n == o.n; for (int i = 0; ok && i < o.n; ++i) ok = n.a[i] == o.a[i]; vp_assert(ok, "hash: the other elements keep their relative order"); }
ENTRY(erase_any) { Env e; HT<M> t(e.v); int n = 1 + vp_pick(N); fill2(t, n); Mdl o = order(t); int p = vp_pick(n); bool rev = vp_choose(2); t.c.erase(nth(t.c.cbegin(), p)); t.m.del(t.m.find(o.a[p])); o.del(p); t.check(); sameOrder(t, o);
   if (rev && o.n) { int q = vp_pick(o.n); t.c.erase(nth(t.c.cbegin(), q)); t.m.del(t.m.find(o.a[q])); o.del(q); t.check(); sameOrder(t, o); } t.linked(Env::MX); }
ENTRY(erase_span) { Env e; HT<M> t(e.v); int n = idx(N); fill2(t, n); Mdl o = order(t); int f = idx(n), l = f + idx(n - f); t.c.erase(nth(t.c.cbegin(), f), nth(t.c.cbegin(), l)); for (int i = f; i < l; ++i) t.m.del(t.m.find(o.a[i])); o.del(f, l); t.check(); sameOrder(t, o); t.linked(Env::MX); }
ENTRY(erase_then_insert) { Env e; HT<M> t(e.v); int n = 1 + vp_pick(N - 1); fill2(t, n); Mdl o = order(t); int p = vp_pick(n); t.c.erase(nth(t.c.cbegin(), p)); t.m.del(t.m.find(o.a[p])); e.v[n].k = vp_pick(2); e.v[n].hv = hashOf(e.v, n, e.v[n].k); t.c.insert(e.v[n]); t.m.ins(t.m.n, n); t.check(); t.linked(Env::MX); }
ENTRY(erase_eq) { Env e; HT<M> t(e.v); int n = 1 + vp_pick(N); fill2(t, n); Mdl o = order(t); hkey k = vp_pick(2); Key q = {k, hashOf(e.v, n, k)}; int c = t.equiv(k); vp_assert(t.c.erase(q, KHash(), KEq()) == (unsigned)c, "hash: erase(key) returns the number of erased elements"); for (int i = 0; i < n; ++i) if (e.v[i].k == k) { t.m.del(t.m.find(i)); o.del(o.find(i)); } t.check(); sameOrder(t, o); t.linked(Env::MX); }
ENTRY(drain) { Env e; HT<M> t(e.v); int n = idx(N); fill2(t, n); bool front = vp_choose(2); while (t.m.n) { Mdl o = order(t); int p = front ? 0 : t.m.n - 1; t.c.erase(nth(t.c.cbegin(), p)); t.m.del(t.m.find(o.a[p])); o.del(p); sameOrder(t, o); } t.check(); t.linked(Env::MX); }
