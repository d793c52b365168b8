// C27: an exception of a user functor leaves every container as documented (strong or basic guarantee)
// KIND 0 list, 1 slist, 2 ordered containers (TREE, CFG), 3 hash containers (HCFG)
#if KIND < 2
#define LEAF 1
static int throw_left = -1; static bool thrown = false;
static inline void tick() { if (throw_left >= 0 && throw_left-- == 0) { thrown = true; throw 7; } }
#endif
#if KIND == 0
#include "list.h"
#elif KIND == 1
#include "slist.h"
#elif KIND == 2
#define STATEFUL 1
#include "tree.h"
#else
#define STATEFUL 1
#include "hash.h"
#endif
// runs f with the throw point armed; returns true when it threw
template <class F> static bool run(unsigned calls, F f) {
   throw_left = (int)vp_pick(calls); thrown = false; bool out = false; try { f(); } catch (int) { out = true; }
   throw_left = -1; vp_assert(out == thrown, "exception: what a functor throws reaches the caller"); return out;
}
#if KIND < 2
struct Less { bool operator()(const V &a, const V &b) const { tick(); return a.k < b.k; } };
struct Eqv { bool operator()(const V &a, const V &b) const { tick(); return a.k == b.k; } };
struct Pred { bool operator()(const V &a) const { tick(); return a.k & 1; } };
static void collect(Env &e, const L &l, Mdl &m, const Mdl *other) { m.n = 0; for (L::const_iterator i = l.begin(); i != l.end(); ++i) { int id = i->id; if (id < 0 || id >= MX || m.n > 12 || m.find(id) >= 0 || (other && other->find(id) >= 0)) vp_fail("exception: every element is in at most one place of one list"); m.ins(m.n, id); } }
ENTRY(predicates) {
   Env e; int n = idx(N); e.fill(e.x, e.mx, n); int op = vp_choose(12), q = op == 6 || op == 11 ? (int)idx(3) : 0; e.fill(e.y, e.my, q); Mdl all = e.mx; for (int i = 0; i < n + q; ++i) e.v[i].k = vp_u8(); Mdl d; Ctr c = {&d}; V val; val.k = op == 8 || op == 9 ? vp_u8() : 0;
   if (op == 6 || op == 11) { for (int i = 1; i < n; ++i) vp_assume(e.v[i - 1].k <= e.v[i].k); for (int i = 1; i < q; ++i) vp_assume(e.v[n + i - 1].k <= e.v[n + i].k); }
   bool t = run(8, [&] { switch (op) { case 0: e.x.sort(Less()); break; case 1: e.x.remove_if(Pred()); break; case 2: e.x.remove_and_dispose_if(Pred(), c); break; case 3: e.x.unique(Eqv()); break; case 4: e.x.unique_and_dispose(Eqv(), c); break; case 5: { V *v = e.v; struct P { V *v; int at; bool operator()(const V &a) const { tick(); return a.id == at; } } p = {v, 1}; e.x.remove_if(p); break; } case 6: e.x.merge(e.y, Less()); break; case 7: e.x.sort(); break; case 8: e.x.remove(val); break; case 9: e.x.remove_and_dispose((const V &)val, c); break; case 10: e.x.unique(); break; case 11: e.x.merge(e.y); break; } });
   if (!t) return; Mdl a, b; collect(e, e.x, a, 0); collect(e, e.y, b, &a); e.check(e.x, a); e.check(e.y, b);
   bool ok = true; for (int i = 0; i < n + q; ++i) { bool in = a.find(i) >= 0 || b.find(i) >= 0, ds = d.find(i) >= 0; if (in) ok = ok && !ds;
      if (op == 6 || op == 11 || op == 1 || op == 8) { /* nothing may be lost by merging; removal keeps what it has not decided to remove */ if (op == 1) { if (!in) ok = ok & ((e.v[i].k & 1) != 0); } else if (op == 8) { if (!in) ok = ok & (e.v[i].k == val.k); } else ok = ok && in; }
      if (op == 2 || op == 4 || op == 9) ok = ok && (in != ds); } // an element that left the list was disposed
   vp_assert(ok, "exception: no element is lost, duplicated or disposed while contained"); for (int i = 0; i < d.n; ++i) for (int j = 0; j < i; ++j) vp_assert(d.a[i] != d.a[j], "exception: no element is disposed twice");
#if (KIND == 0 && (VAR == 0 || VAR == 2)) || (KIND == 1 && HASLINK)
   ok = true; for (int i = 0; i < MX; ++i) ok = ok && linked(e.v[i]) == (a.find(i) >= 0 || b.find(i) >= 0); vp_assert(ok, "exception: exactly the contained elements are linked");
#endif
   e.x.push_front(e.v[MX - 1]); a.ins(0, MX - 1); e.check(e.x, a); e.x.clear(); e.check(e.x, Mdl()); e.y.clear(); }
#elif KIND == 2
enum { MX = 16, N = TREE < 2 ? VP_B(7, 8) : TREE == 4 ? VP_B(4, 5) : VP_B(5, 6) };
struct Env { V v[MX]; Env() { for (int i = 0; i < MX; ++i) { v[i].id = i; v[i].k = 0; v[i].pr = 0; } } };
struct PK { bool operator()(const V &a, const V &b) const { tick(); return a.pr < b.pr; } };
template <class C> static void same(Tree<C> &t, Env &e) { t.check(3); linkedCheck(e.v, MX, t.m); }
#ifndef ASSERTED
ENTRY(insert) { // strong guarantee of single insertion
   Env e; Tree<M> t(e.v); int n = idx(N); t.build(0, n, false); V &x = e.v[n]; x.k = vp_u16(); x.pr = vp_u8(); int op = vp_choose(3); int h = op == 1 ? idx(n) : 0; bool done = false;
   if (!run(5, [&] { switch (op) { case 0: t.c.insert(x); break; case 1: t.c.insert(M::const_iterator(t.at(h)), x); break; case 2: { M::const_iterator i = t.c.lower_bound(x.k, KL()); (void)i; i = t.c.upper_bound(x.k, KL()); break; } } done = true; })) { if (op == 2) return; t.m.n = 0; for (M::iterator i = t.c.begin(); i != t.c.end(); ++i) t.m.ins(t.m.n, i->id); t.check(3); return; }
   same(t, e); t.c.insert(x); t.m.ins(t.ub(x.k), n); same(t, e); }
#endif
ENTRY(insert_unique) {
   Env e; Tree<S> t(e.v); int n = idx(N); t.build(0, n, true); V &x = e.v[n]; x.k = vp_u16(); x.pr = vp_u8(); int op = vp_choose(3); int h = op == 1 ? idx(n) : 0; S::insert_commit_data cd;
   if (!run(5, [&] { switch (op) { case 0: t.c.insert(x); break; case 1: t.c.insert(S::const_iterator(t.at(h)), x); break; case 2:
#if TREE == 4
      t.c.insert_check(x.k, KL(), x, PK(), cd);
#else
      t.c.insert_check(x.k, KL(), cd);
#endif
      break; } })) return;
   same(t, e); int p = t.lb(x.k); bool dup = p < n && e.v[p].k == x.k; std::pair<S::iterator, bool> r = t.c.insert(x); vp_assert(r.second == !dup, "exception: insertion works as before after a failed one"); if (!dup) t.m.ins(p, n); same(t, e); }
#ifndef ASSERTED
ENTRY(insert_range) { // the elements before the failing one stay inserted, the others stay out
   Env e; Tree<M> t(e.v); int n = idx(2); t.build(0, n, false, false); int k = 3; for (int i = 0; i < k; ++i) { e.v[n + i].k = vp_u8(); e.v[n + i].pr = vp_u8(); }
   bool th = run(6, [&] { t.c.insert(e.v + n, e.v + n + k); }); int in = t.c.size() - n; vp_assert(th || in == k, "exception: range insertion inserts everything without an exception"); for (int i = 0; i < in; ++i) t.m.ins(t.ub(e.v[n + i].k), n + i); same(t, e); }
ENTRY(lookups) {
   Env e; Tree<M> t(e.v); int n = 1 + vp_pick(N); t.build(0, n, false); key_t_ k = vp_u16(), k2 = vp_u16(); vp_assume(k < k2); int op = vp_choose(6); const M &c = t.c;
   if (!run(7, [&] { switch (op) { case 0: t.c.find(k, KL()); break; case 1: t.c.equal_range(k, KL()); break; case 2: t.c.count(k, KL()); break; case 3: c.find(k, KL()); c.count(k, KL()); break; case 4: t.c.bounded_range(k, k2, KL(), true, false); break; case 5: t.c.lower_bound(k, KL()); t.c.upper_bound(k, KL()); break; } })) return;
   same(t, e); M::iterator f = t.c.find(k, KL()); vp_assert((f == t.c.end()) == (t.lb(k) == t.ub(k)), "exception: lookups work as before after a failed one"); t.check(3); }
ENTRY(erase_key) { // basic guarantee: nothing is lost, nothing disposed while contained
   Env e; Tree<M> t(e.v); int n = 1 + vp_pick(N - 1); t.build(0, n, false); key_t_ k = vp_u16(); Mdl d; Disp di = {&d}; int op = vp_choose(2);
   if (!run(6, [&] { switch (op) { case 0: t.c.erase(k, KL()); break; case 1: t.c.erase_and_dispose(k, KL(), di); break; } })) return;
   Mdl left; for (M::iterator i = t.c.begin(); i != t.c.end() && left.n <= n; ++i) left.ins(left.n, i->id); bool ok = true; for (int i = 0; i < n; ++i) { bool in = left.find(i) >= 0; if (!in) ok = ok & (e.v[i].k == k); if (op == 1) ok = ok && in != (d.find(i) >= 0); } vp_assert(ok, "exception: a failed erase(key) removes only equivalent elements and disposes exactly the removed ones"); t.m = left; t.check(3); linkedCheck(e.v, MX, t.m); }
ENTRY(merge) { // each element stays in exactly one container
   Env e; Tree<M> t(e.v), u(e.v); int n = idx(3), q = idx(2); t.build(0, n, false); u.build(n, q, false);
   if (!run(5, [&] { t.c.merge(u.c); })) return;
   t.m.n = u.m.n = 0; for (M::iterator i = t.c.begin(); i != t.c.end() && t.m.n <= n + q; ++i) t.m.ins(t.m.n, i->id); for (M::iterator i = u.c.begin(); i != u.c.end() && u.m.n <= n + q; ++i) u.m.ins(u.m.n, i->id);
   bool ok = t.m.n + u.m.n == n + q; for (int i = 0; i < n + q; ++i) ok = ok && (t.m.find(i) >= 0) != (u.m.find(i) >= 0) && (i >= n || t.m.find(i) >= 0); vp_assert(ok, "exception: an interrupted merge leaves every element in exactly one container"); t.check(3); u.check(3); linkedCheck(e.v, MX, t.m, &u.m); }
#if TREE == 4
ENTRY(treap_position) { // strong guarantee when only priorities are compared
   Env e; Tree<M> t(e.v); int n = 1 + vp_pick(N); t.build(0, n, false, false); V &x = e.v[n]; x.pr = vp_u8(); int op = vp_choose(4), h = idx(n);
   if (op == 1) vp_assume(h < n);
   if (!run(4, [&] { switch (op) { case 0: t.c.insert_before(t.at(h), x); break; case 1: t.c.erase(M::const_iterator(t.at(h))); break; case 2: t.c.push_back(x); break; case 3: t.c.push_front(x); break; } })) return;
   same(t, e); }
#endif
#endif
#else
enum { NM = F & F_FM ? VP_B(2, 3) : VP_B(4, 4) };
template <class C> static void same(HT<C> &t) { t.check(); t.linked(Env::MX); }
template <class C> static void after(HT<C> &t, Env &e) { // contents are what is iterated; each is linked, the others not
   t.m.n = 0; for (typename C::iterator i = t.c.begin(); i != t.c.end(); ++i) { if (t.m.n >= (int)Env::MX) vp_fail("exception: iteration ends"); t.m.ins(t.m.n, i->id); } same(t); }
ENTRY(insert) {
   Env e; HT<M> t(e.v); int n = idx(NM); fillM(t, n); setKey(e.v, n); V &x = e.v[n];
   if (!run(4, [&] { t.c.insert(x); })) { t.m.ins(n, n); return; }
   same(t); t.c.insert(x); t.m.ins(t.m.n, n); same(t); }
ENTRY(insert_unique) {
   Env e; HT<S> t(e.v); int n = idx(NM); fillS(t, n); setKey(e.v, n); V &x = e.v[n]; int op = vp_choose(2); S::insert_commit_data cd; Key k = {x.k, x.hv};
   if (!run(4, [&] { if (op) t.c.insert(x); else t.c.insert_check(k, KHash(), KEq(), cd); })) return;
   same(t); bool dup = t.equiv(x.k); vp_assert(t.c.insert(x).second == !dup, "exception: insertion works as before after a failed one"); if (!dup) t.m.ins(t.m.n, n); same(t); }
ENTRY(insert_range) {
   Env e; HT<M> t(e.v); int k = 3; for (int i = 0; i < k; ++i) setKey(e.v, i);
   run(6, [&] { t.c.insert(e.v, e.v + k); }); after(t, e); bool ok = true; for (int i = 0; i < t.m.n; ++i) ok = ok && t.has(i); vp_assert(ok, "exception: a failed range insertion has inserted a prefix"); }
ENTRY(lookup_erase) {
   Env e; HT<M> t(e.v); int n = 1 + vp_pick(NM); fillM(t, n); Key q = freshKey(e.v, n); Mdl d; Disp di = {&d}; int op = vp_choose(4); V x; x.k = q.k; x.hv = q.hv;
   if (!run(5, [&] { switch (op) { case 0: t.c.find(q, KHash(), KEq()); t.c.count(q, KHash(), KEq()); break; case 1: t.c.equal_range(q, KHash(), KEq()); break; case 2: t.c.erase(x); break; case 3: t.c.erase_and_dispose(q, KHash(), KEq(), di); break; } })) return;
   if (op < 2) { same(t); return; } Mdl o = t.m; after(t, e); bool ok = true; for (int i = 0; i < n; ++i) { bool in = t.has(i); ok = ok && (in || e.v[i].k == q.k) && (op != 3 || in != (d.find(i) >= 0)); } vp_assert(ok, "exception: a failed erase(key) removes only equivalent elements and disposes exactly the removed ones"); }
template <class C> static void usable(HT<C> &t, Env &e) { V &x = e.v[Env::MX - 1], &y = e.v[Env::MX - 2]; x.k = 90; x.hv = 5; y.k = 91; y.hv = 2; t.c.insert(x); t.m.ins(t.m.n, Env::MX - 1); t.c.insert(y); t.m.ins(t.m.n, Env::MX - 2); same(t); t.c.erase(t.c.iterator_to(x)); t.m.del(t.m.find(Env::MX - 1)); same(t); }
#if HCFG == 4 || HCFG == 9
static const unsigned sizes[] = {3, 7, 3};
#elif HCFG == 1 || HCFG == 2 || HCFG == 6 || HCFG == 8 || HCFG == 11
static const unsigned sizes[] = {2, 4, 8};
#else
static const unsigned sizes[] = {2, 3, 6};
#endif
ENTRY(rehash) { // basic guarantee: whatever stays contained is consistent, whatever does not is unlinked, and the container is usable
   Env e; unsigned from = sizes[1], to = sizes[vp_choose(3)]; bool other = vp_choose(2), full = vp_choose(2); hashBits = 3; hashMod = FM ? 21 : 6; if (full && (other || to != sizes[0])) return; HT<M> t(e.v, from); int n = idx(FM ? 2 : 3); fillM(t, n);
   if (!run(4, [&] { if (full) t.c.full_rehash(); else t.c.rehash(t.bt(other, to)); })) return;
   after(t, e); usable(t, e); typename HT<M>::B *old = other && !full ? t.b2 : t.b; if (other && !full) for (unsigned i = 0; i < to; ++i) vp_assert(!(old[i].get_node_ptr()->next_ && old[i].get_node_ptr()->next_ != old[i].get_node_ptr()), "exception: no element is left behind in the refused buckets"); }
#if HINC
ENTRY(incremental) { // a failed incremental step changes nothing but the order inside a bucket
   Env e; unsigned from = sizes[vp_choose(2)]; hashBits = 3; HT<M> t(e.v, from); int pre = vp_choose(from - from / 2); for (int i = 0; i < pre; ++i) t.c.incremental_rehash(true); int n = idx(3); fillM(t, n); unsigned sp = t.c.split_count();
   if (!run(3, [&] { t.c.incremental_rehash(true); })) return;
   vp_assert(t.c.split_count() == sp, "exception: a failed incremental step keeps the split"); same(t); vp_assert(t.c.incremental_rehash(true), "exception: the step can be repeated"); same(t); usable(t, e); }
#endif
#endif
