// C29: swap and move transfer the whole container (contents, functors, cached state); range constructors and destructors
// KIND 0 list, 1 slist, 2 ordered containers (TREE, CFG), 3 hash containers (HCFG)
#define STATEFUL 1
#if KIND == 0
#include "list.h"
#elif KIND == 1
#include "slist.h"
#elif KIND == 2
#include "tree.h"
enum { MX = 24 };
#else
#include "hash.h"
#endif
enum { SWAP, FSWAP, MASSIGN, STDMASSIGN, NSW };
template <class C> static void doSwap(C &a, C &b, int how) {
   switch (how) {
   case SWAP: a.swap(b); break;
   case FSWAP: {
#if KIND == 3
      boost::adl_move_swap(a, b); // no swap function is provided for hash containers: the generic one moves
#else
      swap(a, b);
#endif
      break; }
   case MASSIGN: { C &r = (a = boost::move(b)); vp_assert(&r == &a, "move: assignment returns the container itself"); break; }
   default: { C &r = (a = static_cast<C &&>(b)); vp_assert(&r == &a, "move: assignment returns the container itself"); }
   }
}
#if KIND < 2
static void use(Env &e, L &l, Mdl &m) { int id; V &w = e.fresh(id); l.push_front(w); m.ins(0, id); if (m.n > 1) { 
#if KIND == 0
   l.pop_back(); m.del(m.n - 1);
#else
   l.erase_after(l.begin()); m.del(1);
#endif
   } }
ENTRY(swap) {
   Env e; e.fill(e.x, e.mx, idx(N)); e.fill(e.y, e.my, idx(N)); int how = vp_choose(NSW); int k = e.mx.n ? vp_pick(e.mx.n) : -1; L::iterator it = k >= 0 ? e.at(k) : e.x.end();
   doSwap(e.x, e.y, how); { Mdl t = e.mx; e.mx = e.my; e.my = t; }
   if (k >= 0) { vp_assert(&*it == &e.v[e.my.a[k]], "swap: iterators to elements stay valid"); ++it; vp_assert(k + 1 < e.my.n ? it != e.y.end() && &*it == &e.v[e.my.a[k + 1]] : it == e.y.end(), "swap: iterators now traverse the other container"); }
   e.done(); use(e, e.x, e.mx); e.check(e.x, e.mx); use(e, e.y, e.my); e.done();
}
ENTRY(swap_self) { Env e; e.fill(e.x, e.mx, idx(N)); e.x.swap(e.x); e.done(); use(e, e.x, e.mx); e.done(); }
ENTRY(move_ctor) {
   Env e; e.fill(e.x, e.mx, idx(N)); int n = e.mx.n; bool used = vp_choose(2);
   { L z(boost::move(e.x)); Mdl mz = e.mx; e.mx.n = 0; e.check(z, mz); e.check(e.x, e.mx);
     if (used) { use(e, z, mz); use(e, e.x, e.mx); e.check(z, mz); e.check(e.x, e.mx); }
#if KIND == 0 && (VAR == 0 || VAR == 2) || KIND == 1 && HASLINK
     for (int i = 0; i < n; ++i) vp_assert(linked(e.v[i]) == (mz.find(i) >= 0), "move: exactly the moved elements are linked");
#endif
   }
   e.done(); // destroying z unlinked its elements
}
ENTRY(range_ctor_dtor) {
   Env e; int n = idx(N); int f = vp_pick(n + 1), l = f + vp_pick(n - f + 1);
   { L z(&e.v[0] + f, &e.v[0] + l); Mdl m; for (int i = f; i < l; ++i) m.ins(m.n, i); e.check(z, m); e.used = n;
     if (vp_choose(2)) { use(e, z, m); e.check(z, m); } if (!SAFE) z.clear(); }
#if KIND == 0 && (VAR == 0 || VAR == 2) || KIND == 1 && HASLINK
   for (int i = 0; i < MX; ++i) vp_assert(!linked(e.v[i]), "move: a destroyed container leaves its elements unlinked");
#endif
   e.done();
}
#elif KIND == 2
enum { NS = VP_B(TREE < 2 ? 6 : TREE == 4 ? 4 : 5, TREE < 2 ? 8 : TREE == 4 ? 5 : 6), ND = VP_B(3, 4) };
struct Env { V v[MX]; Env() { for (int i = 0; i < MX; ++i) { v[i].id = i; v[i].k = 0; v[i].pr = 0; } } };
// container with comparator tag 1 (descending keys); ids f..f+m-1
static void fill1(V *v, Tree<M> &u, int f, int m) { for (int i = 0; i < m; ++i) { v[f + i].k = i; v[f + i].pr = i & 1; u.c.insert(v[f + i]); u.m.ins(0, f + i); } }
template <class C> static void tags(C &c, int t) {
   vp_assert(c.key_comp().tag == t && c.value_comp().tag == t, "move: the comparison object goes with the contents");
#if TREE == 4
   vp_assert(c.priority_comp().tag == t, "move: the priority comparison goes with the contents");
#endif
}
// inserts and erases through a container whose comparator is tag t and whose model is m
static void use(V *v, Tree<M> &t, int tag, int id, bool er) {
   V &x = v[id]; x.k = vp_u16(); x.pr = 0; int p = 0; if (tag == 0) p = t.ub(x.k); else while (p < t.m.n && !(v[t.m.a[p]].k < x.k)) ++p;
   t.c.insert(x); t.m.ins(p, id); if (er) { t.c.erase(t.c.begin()); t.m.del(0); }
}
static void order1(V *v, Tree<M> &u) { for (int i = 1; i < u.m.n; ++i) vp_assert(v[u.m.a[i]].k <= v[u.m.a[i - 1]].k, "tree: order"); }
ENTRY(swap) {
   Env e; Tree<M> t(e.v, 0), u(e.v, 1); int n = idx(NS), m = idx(ND); t.build(0, n, false); fill1(e.v, u, n, m); int how = vp_choose(NSW); int k = n ? vp_pick(n) : 0; M::iterator it = t.at(k);
#if TREE == 3 && CFG != 1
   t.c.balance_factor(0.8f); u.c.balance_factor(0.6f);
#endif
   doSwap(t.c, u.c, how); { Mdl z = t.m; t.m = u.m; u.m = z; } tags(t.c, 1); tags(u.c, 0);
#if TREE == 3 && CFG != 1
   vp_assert(t.c.balance_factor() == 0.6f && u.c.balance_factor() == 0.8f, "move: the balance factor goes with the contents");
#endif
   if (n) { vp_assert(&*it == &e.v[k], "swap: iterators to elements stay valid"); ++it; vp_assert(k + 1 < n ? &*it == &e.v[k + 1] : it == u.c.end(), "swap: iterators now traverse the other container"); }
   t.check(TREE == 4 ? 1 : 3, false); u.check(3); linkedCheck(e.v, MX, t.m, &u.m);
   use(e.v, t, 1, MX - 1, n & 1); use(e.v, u, 0, MX - 2, n & 1); t.check(TREE == 4 ? 1 : 3, false); u.check(3); linkedCheck(e.v, MX, t.m, &u.m);
}
ENTRY(move_ctor) {
   Env e; Tree<M> t(e.v, 0); int n = idx(NS); t.build(0, n, false); bool used = vp_choose(2);
#if TREE == 3 && CFG != 1
   t.c.balance_factor(0.8f);
#endif
   { alignas(Tree<M>) unsigned char raw[sizeof(Tree<M>)]; (void)raw;
     M z(boost::move(t.c)); tags(z, 0);
#if TREE == 3 && CFG != 1
     vp_assert(z.balance_factor() == 0.8f, "move: the balance factor goes with the contents");
#endif
     vp_assert(t.c.empty() && t.c.size() == 0 && t.c.begin() == t.c.end(), "move: the source is left empty");
     linkedCheck(e.v, MX, t.m);
     // look at the moved container through a second wrapper
     Tree<M> u(e.v, 0); u.c.swap(z); u.m = t.m; t.m.n = 0; u.check(3); t.check(3);
     if (used) { use(e.v, u, 0, MX - 1, n & 1); u.check(3); t.c.insert(e.v[MX - 2]); t.m.ins(0, MX - 2); t.check(3); }
     linkedCheck(e.v, MX, t.m, &u.m); vp_assert(z.empty(), "swap: contents exchanged"); if (!SAFE) u.c.clear(); }
   linkedCheck(e.v, MX, t.m); t.check(3); // destroying the container unlinked its elements
}
template <class C> static void range(bool uniq) {
   Env e; int n = idx(VP_B(4, 5)); for (int i = 0; i < n; ++i) { e.v[i].k = vp_u16(); e.v[i].pr = TREE == 4 ? vp_u8() : 0; }
   Mdl want; for (int i = 0; i < n; ++i) { int p = 0; while (p < want.n && !(e.v[i].k < e.v[want.a[p]].k)) ++p; if (uniq && p && e.v[want.a[p - 1]].k == e.v[i].k) continue; want.ins(p, i); }
   { C z(&e.v[0], &e.v[0] + n, Cmp(0)); Tree<C> u(e.v, 0); u.c.swap(z); u.m = want; u.check(3); linkedCheck(e.v, MX, u.m); if (!SAFE) u.c.clear(); }
   linkedCheck(e.v, MX, Mdl());
}
ENTRY(range_ctor_multi) { range<M>(false); }
ENTRY(range_ctor_uniq) { range<S>(true); }
// the generic tree container: constructor taking the uniqueness as an argument
ENTRY(range_ctor_tree) { Env e; int n = idx(3); for (int i = 0; i < n; ++i) { e.v[i].k = vp_u16(); e.v[i].pr = 0; } bool u = vp_choose(2);
   Mdl want; for (int i = 0; i < n; ++i) { int p = 0; while (p < want.n && !(e.v[i].k < e.v[want.a[p]].k)) ++p; if (u && p && e.v[want.a[p - 1]].k == e.v[i].k) continue; want.ins(p, i); }
   { T z(u, &e.v[0], &e.v[0] + n, Cmp(0)); Tree<T> w(e.v, 0); w.c.swap(z); w.m = want; w.check(3); linkedCheck(e.v, MX, w.m); if (!SAFE) w.c.clear(); } linkedCheck(e.v, MX, Mdl()); }
#else
enum { NS = F & F_FM ? VP_B(2, 3) : VP_B(3, 4) };
static const unsigned szs[][2] = {{FM ? 3u : P2 ? 2u : 4u, FM ? 7u : P2 ? 4u : 2u}, {FM ? 7u : P2 ? 4u : 2u, FM ? 3u : P2 ? 2u : 4u}};
struct FM_ { void operator()(HT<M> &t, int n) { fillM(t, n); } }; struct FS_ { void operator()(HT<S> &t, int n) { fillS(t, n); } };
template <class C> static void tags(C &c, int t) { vp_assert(c.hash_function().tag == t && c.key_eq().tag == t, "move: the hash function and the key equality go with the contents"); }
template <class C> struct Other { Env &e; HT<C> t; Other(Env &e_, unsigned bc, int f, int m) : e(e_), t(e_.v, bc, 1) { for (int i = 0; i < m; ++i) { e.v[f + i].k = 50 + i; e.v[f + i].hv = i + 1; t.c.insert(e.v[f + i]); t.m.ins(i, f + i); } } };
// t now owns what u held and vice versa: exchange the harness's books and check both
template <class C> static void books(HT<C> &t, HT<C> &u) { Mdl m = t.m; t.m = u.m; u.m = m; unsigned b = t.bc; t.bc = u.bc; u.bc = b; }
template <class C> static void content(HT<C> &u, int f) { // table whose functors are tag 1: contents only
   bool seen[16]; for (int i = 0; i < 16; ++i) seen[i] = false; int n = 0; for (typename C::iterator i = u.c.begin(); i != u.c.end() && n <= u.m.n; ++i, ++n) { int id = i->id; vp_assert(u.has(id) && !seen[id], "hash: iteration visits each contained element exactly once"); seen[id] = true; }
   vp_assert(n == u.m.n && u.c.size() == (unsigned)n && u.c.empty() == (n == 0) && u.c.bucket_count() == u.bc, "hash: contents, size and bucket count match"); (void)f;
}
template <class C, class FI> static void sw(FI fill) {
   Env e; int z = vp_choose(2); unsigned sb = szs[z][0], db = szs[z][1]; hashBits = 2; hashMod = sb; int how = vp_choose(NSW);
   HT<C> t(e.v, sb, 0); int n = idx(NS), m = idx(2); fill(t, n); Other<C> o(e, db, n, m); HT<C> &u = o.t;
#if HINC
   bool grown = vp_choose(2); if (grown) t.c.incremental_rehash(true); unsigned s1 = t.c.split_count(), s2 = u.c.split_count();
#endif
   typename C::bucket_ptr b1 = t.c.bucket_pointer(), b2 = u.c.bucket_pointer();
   doSwap(t.c, u.c, how); books(t, u); tags(t.c, 1); tags(u.c, 0); vp_assert(t.c.bucket_pointer() == b2 && u.c.bucket_pointer() == b1, "swap: the bucket arrays are exchanged");
#if HINC
   vp_assert(t.c.split_count() == s2 && u.c.split_count() == s1, "swap: the split counts are exchanged");
#endif
   content(t, n); u.check();
   { V &x = e.v[Env::MX - 1]; x.k = 77; x.hv = 0; u.c.insert(x); u.m.ins(0, x.id); V &y = e.v[Env::MX - 2]; y.k = 78; y.hv = 0; t.c.insert(y); t.m.ins(0, y.id); }
   content(t, n); u.check(); u.linked(0); { bool ok = true; for (int i = 0; i < Env::MX; ++i) if (SAFE && !LIN) ok = ok && e.v[i].is_linked() == (t.has(i) || u.has(i)); vp_assert(ok, "hash: exactly the contained elements are linked"); }
   u.c.erase(u.c.begin()); t.c.clear(); t.m.n = 0; content(t, n); u.c.clear(); t.c.swap(u.c); 
}
ENTRY(swap_multi) { sw<M>(FM_()); }
ENTRY(swap_uniq) { sw<S>(FS_()); }
template <class C, class FI> static void mv(FI fill) {
   Env e; unsigned sb = szs[0][0]; hashBits = 2; hashMod = sb; HT<C> t(e.v, sb, 0); int n = idx(NS); fill(t, n); Mdl m0 = t.m; bool used = vp_choose(2);
#if HINC
   if (vp_choose(2)) t.c.incremental_rehash(true);
#endif
   typename C::bucket_ptr bp = t.c.bucket_pointer();
   { HT<C> u(e.v, szs[0][1], 1);
     { C z(boost::move(t.c)); tags(z, 0); vp_assert(z.bucket_pointer() == bp && z.bucket_count() == sb && z.size() == (unsigned)n, "move: the bucket array and the elements go to the new container");
       u.c.swap(z); u.bc = sb; u.m = m0; u.check(); u.linked(Env::MX);
       if (used) { V &x = e.v[Env::MX - 1]; x.k = 77; x.hv = 3; u.c.insert(x); u.m.ins(0, x.id); u.check(); u.c.erase(u.c.iterator_to(x)); u.m.del(0); u.check(); } }
     u.check(); if (!SAFE) u.c.clear(); }
   if (SAFE && !LIN) for (int i = 0; i < Env::MX; ++i) vp_assert(!e.v[i].is_linked(), "move: destroying the container unlinks its elements");
   // a moved-from container can be assigned and destroyed
   if (vp_choose(2)) { typename HT<C>::B b[5]; C w(typename HT<C>::BT(b, (FM ? 3 : 4) + LIN), Hash(0), Eq(0)); V &x = e.v[0]; x.k = 1; x.hv = 2; w.insert(x); t.c = boost::move(w); vp_assert(t.c.size() == 1 && &*t.c.begin() == &x && ++t.c.begin() == t.c.end(), "move: a moved-from container can be assigned to"); t.c.clear(); t.c.swap(w); w.clear(); }
}
ENTRY(move_multi) { mv<M>(FM_()); }
ENTRY(move_uniq) { mv<S>(FS_()); }
template <class C> static void range(bool uniq) {
   Env e; int n = idx(NS); hashBits = 2; hashMod = FM ? 3 : 4; for (int i = 0; i < n; ++i) setKey(e.v, i); Mdl w; for (int i = 0; i < n; ++i) { bool dup = false; for (int j = 0; j < w.n; ++j) dup = dup || e.v[w.a[j]].k == e.v[i].k; if (!(uniq && dup)) w.ins(w.n, i); }
   { HT<C> u(e.v, FM ? 3 : P2 ? 4 : 4, 0); typename HT<C>::B b[5]; { C z(&e.v[0], &e.v[0] + n, typename HT<C>::BT(b, u.bc + LIN), Hash(0), Eq(0)); tags(z, 0); u.c.swap(z); u.m = w; u.check(); u.linked(Env::MX); z.swap(u.c); if (!SAFE) z.clear(); } }
   if (SAFE && !LIN) for (int i = 0; i < Env::MX; ++i) vp_assert(!e.v[i].is_linked(), "move: destroying the container unlinks its elements");
}
ENTRY(range_multi) { range<M>(false); }
ENTRY(range_uniq) { range<S>(true); }
#endif
