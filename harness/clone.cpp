// C25: clone_from copies the whole source, disposes the old contents once, and undoes everything when something throws
// KIND 0 list, 1 slist, 2 ordered containers (TREE, CFG), 3 hash containers (HCFG)
#define STATEFUL 1
#if KIND < 2
#define LEAF 1
static int throw_left = -1; static bool thrown = false;
static inline void tick() { if (throw_left >= 0 && throw_left-- == 0) { thrown = true; throw 7; } }
#endif
#if KIND == 0
#include "list.h"
#elif KIND == 1
#include "slist.h"
#elif KIND == 2
#include "tree.h"
enum { MX = 32 };
#else
#include "hash.h"
#endif
enum { C0 = KIND == 3 ? 7 : KIND == 2 ? 16 : 12, DISPOSED = 99 }; // ids of clones start at C0
struct Rec { V *v; int made, of[16], disp[32]; int rv; Rec(V *s) : v(s), made(0), rv(0) { for (int i = 0; i < 32; ++i) disp[i] = 0; } };
static void copyPayload(V &d, const V &s) { d.k = s.k;
#if KIND == 2
   d.pr = s.pr;
#elif KIND == 3
   d.hv = s.hv;
#endif
}
struct Clone { Rec *r; V *operator()(const V &s) const { tick(); if (C0 + r->made >= MXV) vp_fail("clone: more clones than source elements"); V &d = r->v[C0 + r->made]; r->of[r->made++] = s.id; copyPayload(d, s); return &d; } enum { MXV = KIND == 3 ? 12 : KIND == 2 ? 31 : 20 }; };
struct CloneRv { Rec *r; V *operator()(V &s) const { r->rv++; Clone c = {r}; return c(s); } };
struct Dsp { Rec *r; void operator()(V *p) const { r->disp[p->id]++;
#if KIND == 2 || KIND == 3
   if (SAFE) vp_assert(!p->is_linked(), "clone: an element is unlinked before its disposer runs");
#elif (KIND == 1 && HASLINK) || (KIND == 0 && (VAR == 0 || VAR == 2))
   vp_assert(!linked(*p), "clone: an element is unlinked before its disposer runs");
#endif
} };
#if KIND == 3
enum { NS = F & (F_FM) ? VP_B(3, 3) : VP_B(4, 4), ND = 1 }; // n
#elif KIND == 2
enum { NS = TREE < 2 ? VP_B(9, 10) : TREE == 4 ? VP_B(5, 6) : VP_B(6, 7), ND = 2 };
#else
enum { NS = VP_B(6, 8), ND = 2 };
#endif
// returns true if clone_from completed
template <class C> static bool run(C &dst, C &src, Rec &r, bool rv) {
   Clone c = {&r}; CloneRv cr = {&r}; Dsp d = {&r}; bool done = false;
   try { if (rv) dst.clone_from(boost::move(src), cr, d); else dst.clone_from(src, c, d); done = true; } catch (int) {}
   throw_left = -1; vp_assert(done == !thrown, "clone: an exception of the cloner or a functor leaves clone_from"); thrown = false;
   return done;
}
// the disposer ran once for each old element of the destination, and for each clone exactly when cloning was undone
static void disposals(Rec &r, const Mdl &old, bool done) {
   bool ok = true; for (int i = 0; i < C0; ++i) ok = ok && r.disp[i] == (old.find(i) >= 0 ? 1 : 0); vp_assert(ok, "clone: every old element of the destination is disposed exactly once and no other");
   ok = true; for (int i = 0; i < r.made; ++i) ok = ok && r.disp[C0 + i] == (done ? 0 : 1); vp_assert(ok, "clone: after an exception every clone is disposed exactly once, otherwise none");
}
static int cloneFor(Rec &r, int id) { int f = -1; for (int i = 0; i < r.made; ++i) if (r.of[i] == id) { vp_assert(f < 0, "clone: each source element is cloned once"); f = C0 + i; } vp_assert(f >= 0, "clone: each source element is cloned"); return f; }
#if KIND < 2
ENTRY(clone) {
   Env e; e.fill(e.y, e.my, idx(NS)); e.fill(e.x, e.mx, idx(ND)); Mdl old = e.mx; Rec r(e.v); bool rv = vp_choose(2); if (vp_bool()) throw_left = (int)vp_pick(NS + 1);
   bool done = run(e.x, e.y, r, rv); disposals(r, old, done); e.mx.n = 0;
   if (done) { vp_assert(r.made == e.my.n, "clone: each source element is cloned once"); for (int i = 0; i < e.my.n; ++i) e.mx.ins(i, cloneFor(r, e.my.a[i])); vp_assert(!rv || r.rv == r.made, "clone: the cloner receives the source elements"); }
   e.used = C0 + NS; e.done(); int id; V &w = e.fresh(id); e.x.push_front(w); e.mx.ins(0, id); e.done();
}
#elif KIND == 2
struct Env { V v[MX]; Env() { for (int i = 0; i < MX; ++i) { v[i].id = i; v[i].k = 0; v[i].pr = 0; } } };
ENTRY(clone) {
   Env e; Tree<M> t(e.v, 0), u(e.v, 1); int n = idx(NS), m = idx(ND); t.build(0, n, false); for (int i = 0; i < m; ++i) { e.v[n + i].k = i; u.c.insert(e.v[n + i]); u.m.ins(i, n + i); }
   Mdl old = u.m; Rec r(e.v); bool rv = vp_choose(2); if (vp_bool()) throw_left = (int)vp_pick(NS + 1); Tree<M>::NP root = Tree<M>::NT::get_parent(t.hdr());
#if TREE == 3 && CFG != 1
   t.c.balance_factor(0.8f);
#endif
   bool done = run(u.c, t.c, r, rv); disposals(r, old, done); u.m.n = 0;
   if (done) { vp_assert(r.made == n, "clone: each source element is cloned once"); for (int i = 0; i < n; ++i) u.m.ins(i, cloneFor(r, t.m.a[i])); vp_assert(!rv || r.rv == n, "clone: the cloner receives the source elements");
      if (n) vp_assert(u.c.key_comp().tag == 0, "clone: the key comparison is copied");
#if TREE == 4
      if (n) vp_assert(u.c.priority_comp().tag == 0, "clone: the priority comparison is copied");
#endif
#if TREE == 3 && CFG != 1
      vp_assert(u.c.balance_factor() == 0.8f, "clone: the balance factor is copied");
#endif
   }
   t.check(3); u.check(3); linkedCheck(e.v, MX, t.m, &u.m); vp_assert(Tree<M>::NT::get_parent(t.hdr()) == root, "clone: the source is not modified");
   // both stay usable
   V &x = e.v[MX - 1]; x.k = vp_u16(); if (done) { u.c.insert(x); u.m.ins(u.ub(x.k), MX - 1); } else { u.c.insert(x); u.m.ins(0, MX - 1); }
   u.check(3); if (n) { u.c.clear(); u.m.n = 0; t.c.erase(t.c.begin()); t.m.del(0); } t.check(3); u.check(3);
}
#else
static const unsigned szs[][2] = {{FM ? 3u : P2 ? 2u : 4u, FM ? 7u : P2 ? 4u : 2u}, {FM ? 7u : P2 ? 4u : 2u, FM ? 3u : P2 ? 2u : 4u}, {3, 3}, {3, 2}};
template <class C, class FI> static void cl(FI fill) {
   Env e; int z = vp_choose(P2 ? 2 : FM ? 3 : 4); unsigned sb = szs[z][0], db = szs[z][1]; hashBits = 2; hashMod = sb; while (hashMod % db) hashMod += sb; bool rv = vp_choose(2);
   HT<C> t(e.v, sb, 0), u(e.v, db, 1); int n = idx(hashMod > 4 && NS > 2 ? NS - 1 : NS), m = ND; fill(t, n); for (int i = 0; i < m; ++i) { e.v[n + i].k = 50 + i; e.v[n + i].hv = i + 1; u.c.insert(e.v[n + i]); u.m.ins(i, n + i); }
#if HINC
   if (rv) t.c.incremental_rehash(true); else u.c.incremental_rehash(true);
#endif
   Mdl old = u.m; Rec r(e.v); if (vp_bool()) throw_left = (int)vp_pick((SH ? 1 : 2) * NS + MK); hash_calls = 0;
   bool done = run(u.c, t.c, r, rv); disposals(r, old, done); u.m.n = 0; if (SH) vp_assert(hash_calls == 0, "clone: the hash function is not used when hashes are stored");
   if (done) { vp_assert(r.made == n, "clone: each source element is cloned once"); for (int i = 0; i < n; ++i) u.m.ins(i, cloneFor(r, t.m.a[i])); vp_assert(!rv || r.rv == n, "clone: the cloner receives the source elements");
      vp_assert(u.c.hash_function().tag == 0 && u.c.key_eq().tag == 0, "clone: the hash function and the key equality are copied"); }
   t.check(); u.check();
   if (SAFE) { bool ok = true; for (int i = 0; i < Env::MX; ++i) { bool in = t.has(i) || u.has(i); ok = ok && (LIN ? !e.v[i].is_linked() || in : e.v[i].is_linked() == in); } vp_assert(ok, "clone: exactly the contained elements are linked"); }
   if (done && n) { int p = rv ? 0 : n - 1, c = cloneFor(r, p); u.c.erase(u.c.iterator_to(e.v[c])); u.m.del(u.m.find(c)); V &x = e.v[Env::MX - 1]; copyPayload(x, e.v[p]); u.c.insert(x); u.m.ins(0, Env::MX - 1); u.check(); }
   if (!done) { V &x = e.v[Env::MX - 1]; x.k = 77; x.hv = 5; u.c.insert(x); vp_assert(u.c.size() == 1 && &*u.c.begin() == &x && ++u.c.begin() == u.c.end(), "clone: an emptied destination stays usable"); u.c.erase(u.c.begin()); u.check(false); }
   t.check();
}
struct FM_ { void operator()(HT<M> &t, int n) { fillM(t, n); } }; struct FS_ { void operator()(HT<S> &t, int n) { fillS(t, n); } };
ENTRY(clone_multi) { cl<M>(FM_()); }
ENTRY(clone_uniq) { cl<S>(FS_()); }
#endif
