// C18/C19: hash containers under an arbitrary hash function: contents, lookups, grouping, erasure, in every option combination
#include "hash.h"
enum { N = VP_B(4, 5) };
ENTRY(multi_insert) { Env e; HT<M> t(e.v); int n = idx(N); for (int i = 0; i < n; ++i) { setKey(e.v, i); M::iterator r = t.c.insert(e.v[i]); vp_assert(&*r == &e.v[i], "hash: insert returns the inserted element"); t.m.ins(t.m.n, i); if (MK || i + 1 == n) t.check(i + 1 == n); } Key q = freshKey(e.v, n); t.lookup(q); t.linked(Env::MX); }
ENTRY(uniq_insert) { Env e; HT<S> t(e.v); int n = idx(N);
   for (int i = 0; i < n; ++i) { setKey(e.v, i); bool dup = t.equiv(e.v[i].k) > 0; std::pair<S::iterator, bool> r = t.c.insert(e.v[i]); vp_assert(r.second == !dup && (dup ? r.first->k == e.v[i].k && &*r.first != &e.v[i] : &*r.first == &e.v[i]), "hash: unique insertion succeeds exactly when no equivalent element is contained"); if (!dup) t.m.ins(t.m.n, i); }
   t.check(); t.linked(Env::MX); }
ENTRY(check_commit) { Env e; HT<S> t(e.v); int n = idx(N); fillS(t, n); setKey(e.v, n); V &x = e.v[n]; bool dup = t.equiv(x.k) > 0; S::insert_commit_data cd; int op = vp_choose(2); int how = vp_choose(2);
   std::pair<S::iterator, bool> r = op ? t.c.insert_check(KEYV(x), cd) : t.c.insert_check(Key{x.k, x.hv}, KHash(), KEq(), cd);
   vp_assert(r.second == !dup && (!dup || r.first->k == x.k), "hash: insert_check permits insertion exactly when no equivalent element is contained");
   if (dup || vp_choose(2)) { t.check(); t.linked(Env::MX); return; }
#if HINC
   if (vp_choose(2)) { int k = vp_choose(3); for (int i = 0; i < k; ++i) t.c.incremental_rehash(false); how = 0; }
#endif
   S::iterator q = how && !INC ? t.c.insert_fast_commit(x, cd) : t.c.insert_commit(x, cd); vp_assert(&*q == &x, "hash: insert_commit returns the inserted element"); t.m.ins(t.m.n, n); t.check(); t.linked(Env::MX); }
ENTRY(erase_one) { Env e; HT<M> t(e.v); int n = 1 + vp_pick(N); fillM(t, n); int p = vp_pick(n); Mdl d; Disp di = {&d};
   switch (vp_choose(3)) {
   case 0: t.c.erase(t.c.iterator_to(e.v[p])); break;
   case 1: t.c.erase_and_dispose(t.c.iterator_to(e.v[p]), di); vp_assert(d.n == 1 && d.a[0] == p, "hash: the erased element is disposed once"); break;
   case 2: if (!AUTO) return; e.v[p].~V(); t.m.del(t.m.find(p)); t.check(); new (&e.v[p]) V; e.v[p].id = p; t.linked(Env::MX); return;
   }
   t.m.del(t.m.find(p)); t.check(); t.linked(Env::MX); }
ENTRY(erase_range) { Env e; HT<M> t(e.v); int n = idx(N); fillM(t, n); Mdl o; for (M::iterator i = t.c.begin(); i != t.c.end(); ++i) { if (o.n >= n) vp_fail("hash: iteration does not end"); o.ins(o.n, i->id); } int f = idx(n), l = f + idx(n - f); Mdl d; Disp di = {&d};
   M::const_iterator a = nth(t.c.cbegin(), f), b = nth(t.c.cbegin(), l); bool dp = vp_choose(2); if (dp) t.c.erase_and_dispose(a, b, di); else t.c.erase(a, b);
   if (dp) { bool ok = d.n == l - f; for (int i = f; ok && i < l; ++i) ok = d.find(o.a[i]) >= 0; vp_assert(ok, "hash: range erase disposes each erased element once"); }
   for (int i = f; i < l; ++i) t.m.del(t.m.find(o.a[i])); t.check(); t.linked(Env::MX); }
ENTRY(erase_key) { Env e; HT<M> t(e.v); int n = idx(N); fillM(t, n); setKey(e.v, n); V &x = e.v[n]; Mdl d; Disp di = {&d}; int cnt = t.equiv(x.k); Key q = {x.k, x.hv}; unsigned r = 0; int op = vp_choose(4);
   switch (op) { case 0: r = t.c.erase(KEYV(x)); break; case 1: r = t.c.erase(q, KHash(), KEq()); break; case 2: r = t.c.erase_and_dispose(KEYV(x), di); break; case 3: r = t.c.erase_and_dispose(q, KHash(), KEq(), di); break; }
   vp_assert(r == (unsigned)cnt, "hash: erase(key) returns the number of erased elements"); Mdl m; for (int i = 0; i < n; ++i) if (!(e.v[i].k == x.k)) m.ins(m.n, i);
   if (op > 1) { bool ok = d.n == cnt; for (int i = 0; ok && i < d.n; ++i) { ok = d.a[i] < n && e.v[d.a[i]].k == x.k; for (int j = 0; j < i; ++j) ok = ok && d.a[j] != d.a[i]; } vp_assert(ok, "hash: erase(key) disposes each equivalent element once"); }
   t.m = m; t.check(); t.linked(Env::MX); }
ENTRY(clear) { Env e; HT<M> t(e.v); int n = idx(N); fillM(t, n); Mdl d; Disp di = {&d}; if (vp_choose(2)) t.c.clear(); else { t.c.clear_and_dispose(di); bool ok = d.n == n; for (int i = 0; i < n; ++i) ok = ok && d.find(i) >= 0; vp_assert(ok, "hash: clear_and_dispose disposes each element once"); }
   t.m.n = 0; t.check(); t.linked(Env::MX); setKey(e.v, n); t.c.insert(e.v[n]); t.m.ins(0, n); t.check(); t.linked(Env::MX); }
ENTRY(lookup_value) { Env e; HT<M> t(e.v); int n = idx(N); fillM(t, n); setKey(e.v, n); V &x = e.v[n]; const M &c = t.c; int k = t.equiv(x.k);
   M::const_iterator f = c.find(KEYV(x)); vp_assert((k == 0) == (f == c.end()) && t.c.find(KEYV(x)) == f && c.count(KEYV(x)) == (unsigned)k && (k == 0 || f->k == x.k), "hash: find and count by value agree with the contents");
   std::pair<M::const_iterator, M::const_iterator> r = c.equal_range(KEYV(x)); M::const_iterator i = r.first; bool ok = r.first == f; for (int j = 0; j < k; ++j, ++i) ok = ok && i != c.end() && i->k == x.k; vp_assert(ok && i == r.second && c.bucket(KEYV(x)) == t.where(x.hv), "hash: equal_range and bucket by value agree with the contents"); t.check(false); }
ENTRY(range_ctor) { Env e; int n = idx(N); for (int i = 0; i < n; ++i) setKey(e.v, i); if (vp_choose(2)) { HT<M> t(e.v); if (vp_choose(2)) t.c.insert(e.v, e.v + n); else { M x(e.v, e.v + n, t.bt(true, t.bc)); t.c.swap(x); } for (int i = 0; i < n; ++i) t.m.ins(i, i); t.check(); t.linked(Env::MX); }
   else { HT<S> t(e.v); Mdl m; t.c.insert(e.v, e.v + n); for (int i = 0; i < n; ++i) if (!t.equiv(e.v[i].k)) t.m.ins(t.m.n, i); t.check(); t.linked(Env::MX); } }
ENTRY(history) { enum { K = VP_B(4, 5) }; Env e; HT<M> t(e.v); int u = 0; for (int s = 0; s < K; ++s) { int op = t.m.n ? vp_choose(3) : 0; if (op == 0) { setKey(e.v, u); t.c.insert(e.v[u]); t.m.ins(t.m.n, u++); } else if (op == 1) { int p = vp_pick(t.m.n); t.c.erase(t.c.iterator_to(e.v[t.m.a[p]])); t.m.del(p); } else { int p = vp_pick(t.m.n); hkey k = e.v[t.m.a[p]].k; Key q = {k, e.v[t.m.a[p]].hv}; t.c.erase(q, KHash(), KEq()); Mdl m; for (int i = 0; i < t.m.n; ++i) if (e.v[t.m.a[i]].k != k) m.ins(m.n, t.m.a[i]); t.m = m; } t.check(s + 1 == K); } t.linked(Env::MX); }
