// Shared environment of the hash-container harnesses. HCFG selects hook and container options.
// The hash of a key is an arbitrary symbolic value carried by the element; equal keys are assumed to have equal hashes.
#pragma once
#include "seq.h"
#include <boost/intrusive/unordered_set.hpp>
#include <new>
using namespace boost::intrusive;
#ifndef HCFG
#define HCFG 0
#endif
// bits: 1 power_2, 2 cache_begin, 4 compare_hash, 8 incremental, 16 linear, 32 fastmod, 64 store_hash, 128 optimize_multikey, 256 constant_time_size, 512 normal link, 1024 auto_unlink, 2048 member hook
enum { F_P2 = 1, F_CB = 2, F_CH = 4, F_INC = 8, F_LIN = 16, F_FM = 32, F_SH = 64, F_MK = 128, F_CTS = 256, F_NL = 512, F_AU = 1024, F_MH = 2048 };
#if HCFG == 0
enum { F = F_CTS };
#elif HCFG == 1
enum { F = F_CTS | F_P2 | F_CB | F_SH };
#elif HCFG == 2
enum { F = F_CTS | F_P2 | F_INC | F_SH | F_MK };
#elif HCFG == 3
enum { F = F_LIN | F_NL | F_MH };
#elif HCFG == 4
enum { F = F_CTS | F_FM | F_SH | F_CH | F_MH };
#elif HCFG == 5
enum { F = F_CTS | F_SH | F_MK | F_CH };
#elif HCFG == 6
enum { F = F_CTS | F_MK | F_P2 | F_CB | F_INC };
#elif HCFG == 7
enum { F = F_LIN | F_MK | F_CB | F_SH | F_CTS };
#elif HCFG == 8
enum { F = F_AU | F_MH | F_P2 };
#elif HCFG == 9
enum { F = F_FM | F_LIN | F_CB | F_CTS | F_MK };
#elif HCFG == 10
enum { F = F_MK | F_AU };
#elif HCFG == 11
enum { F = F_INC | F_P2 | F_LIN | F_CB | F_CTS | F_SH | F_CH };
#elif HCFG == 12
enum { F = F_CB | F_NL };
#endif
#if HCFG == 1 || HCFG == 2 || HCFG == 4 || HCFG == 5 || HCFG == 7 || HCFG == 11
#define SH_ 1
#else
#define SH_ 0
#endif
enum { SAFE = !(F & F_NL), AUTO = !!(F & F_AU), CTS = !!(F & F_CTS), P2 = !!(F & (F_P2 | F_INC)), INC = !!(F & F_INC), LIN = !!(F & F_LIN), FM = !!(F & F_FM), SH = !!(F & F_SH), MK = !!(F & F_MK), CB = !!(F & F_CB), CH = !!(F & F_CH) };
#if HCFG == 2 || HCFG == 6 || HCFG == 11
#define HINC 1
#else
#define HINC 0
#endif
typedef uint8_t hkey;
typedef std::size_t hval;
#define LMODE link_mode<(F & F_NL) ? normal_link : (F & F_AU) ? auto_unlink : safe_link>
#define HOPTS LMODE, store_hash<SH>, optimize_multikey<MK>
// KOV: the container hashes and compares a key that a functor extracts from the element, 1 by reference, 2 by value
#ifndef KOV
#define KOV 0
#endif
struct KB { hkey k; hval hv; };
#if HCFG == 3 || HCFG == 4 || HCFG == 8
typedef unordered_set_member_hook<HOPTS> HookT;
#if HCFG == 3
struct V : KB { int id; HookT h; bool is_linked() const { return false; } };
#else
struct V : KB { int id; HookT h; bool is_linked() const { return h.is_linked(); } };
#endif
#define VT_OPT0 member_hook<V, HookT, &V::h>
#else
typedef unordered_set_base_hook<HOPTS> HookT;
#if HCFG == 12
struct V : HookT, KB { int id; bool is_linked() const { return false; } };
#else
struct V : HookT, KB { int id; };
#endif
#define VT_OPT0 base_hook<HookT>
#endif
#if KOV == 0
typedef V CV;
#define KEYV(x) (x)
#define VT_OPT VT_OPT0
#else
#if KOV == 1
typedef KB CV; struct KoV { typedef KB type; const KB &operator()(const V &v) const { return v; } };
#else
struct KC { hval hv; unsigned k; }; typedef KC CV; struct KoV { typedef KC type; KC operator()(const V &v) const { KC r = {v.hv, v.k}; return r; } };
#endif
#define KEYV(x) KoV()(x)
#define VT_OPT VT_OPT0, key_of_value<KoV>
#endif
// a throwing operation: the throw_left-th call of any user functor fails
static int throw_left = -1; static bool thrown = false;
static inline void tick() { if (throw_left >= 0 && throw_left-- == 0) { thrown = true; throw 7; } }
#ifdef VP_FINE_EQ
static uint8_t pay[32]; // operator== distinguishes more than the ordering / key equality does
static bool operator==(const V &a, const V &b) { return (a.k == b.k) & (pay[a.id] == pay[b.id]); }
#else
static bool operator==(const CV &a, const CV &b) { tick(); return a.k == b.k; }
#endif
struct Key { hkey k; hval hv; };
static unsigned hash_calls = 0;
#if defined(STATEFUL)
// tag 0 is the functor the model follows; other tags behave differently on purpose
struct Hash { int tag; explicit Hash(int t = 0) : tag(t) {} hval operator()(const CV &v) const { ++hash_calls; tick(); return tag ? ~v.hv : v.hv; } };
struct Eq { int tag; explicit Eq(int t = 0) : tag(t) {} bool operator()(const CV &a, const CV &b) const { tick(); return tag ? false : a.k == b.k; } };
#define EQ_OPT equal<Eq>,
#else
struct Hash { hval operator()(const CV &v) const { ++hash_calls; tick(); return v.hv; } };
#define EQ_OPT
#endif
struct KHash { hval operator()(const Key &v) const { tick(); return v.hv; } };
struct KEq { bool operator()(const Key &a, const CV &b) const { tick(); return a.k == b.k; } bool operator()(const CV &b, const Key &a) const { tick(); return a.k == b.k; } };
#define COPTS VT_OPT, EQ_OPT hash<Hash>, constant_time_size<CTS>, power_2_buckets<!!(F & F_P2)>, cache_begin<CB>, compare_hash<CH>, incremental<INC>, linear_buckets<LIN>, fastmod_buckets<FM>
typedef unordered_set<V, COPTS> S;
typedef unordered_multiset<V, COPTS> M;
#ifndef B0
#define B0 (P2 ? 4 : 3)
#endif
enum { BMAX = 18 };
template <class C> struct HT {
   typedef typename C::bucket_type B; typedef typename C::bucket_traits BT; typedef typename C::iterator It; typedef typename C::const_iterator CIt; typedef typename C::local_iterator LIt; typedef typename C::const_local_iterator CLIt;
   V *v; B b[BMAX]; B b2[BMAX]; unsigned bc; C c; Mdl m; // m: contained ids, in no particular order
   HT(V *s, unsigned n = B0) : v(s), bc(n), c(BT(b, n + LIN)) {}
#if defined(STATEFUL)
   HT(V *s, unsigned n, int tag) : v(s), bc(n), c(BT(b, n + LIN), Hash(tag), Eq(tag)) {}
#endif
   ~HT() { if (!SAFE) c.clear(); }
   BT bt(bool other, unsigned n) { return BT(other ? b2 : b, n + LIN); }
   unsigned split() { return c.split_count(); }
   unsigned where(hval h) { unsigned n = P2 ? unsigned(h & (bc - 1)) : unsigned(h % bc); if (INC && n >= split()) n -= bc / 2; return n; }
   int equiv(hkey k) { int r = 0; for (int i = 0; i < m.n; ++i) if (v[m.a[i]].k == k) ++r; return r; }
   int firstEquiv(hkey k) { for (int i = 0; i < m.n; ++i) if (v[m.a[i]].k == k) return m.a[i]; return -1; }
   bool has(int id) { return m.find(id) >= 0; }
   int idOf(const V *p) { for (int i = 0; i < m.n; ++i) if (p == &v[m.a[i]]) return m.a[i]; return -1; }
   // every contained element is visited once, from the right bucket, equivalent ones adjacent
   void check(bool deep = true) {
      const C &cc = c; bool seen[32]; for (int i = 0; i < 32; ++i) seen[i] = false; int n = 0; int order[32]; bool ok = true; CIt it = cc.begin(), e = cc.end();
      for (; it != e && n < m.n; ++it, ++n) { int id = idOf(&*it); vp_assert(id >= 0 && !seen[id], "hash: iteration visits each contained element exactly once"); seen[id] = true; order[n] = id; }
      vp_assert(it == e && n == m.n, "hash: iteration visits exactly the contained elements");
      vp_assert(cc.size() == (unsigned)m.n && cc.empty() == (m.n == 0), "hash: size and empty match");
      vp_assert(cc.bucket_count() == bc, "hash: bucket_count matches");
      for (int i = 0; i < n; ++i) vp_observe(order[i]);
      for (int i = 0; i < n; ++i) { int j = i + 1; while (j < n && v[order[j]].k == v[order[i]].k) ++j; for (int z = j; z < n; ++z) ok = ok && v[order[z]].k != v[order[i]].k; } // adjacency
      vp_assert(ok, "hash: equivalent elements are adjacent");
      if (!deep) return;
#if SH_
      for (int i = 0; i < n; ++i) ok = ok && C::value_traits::node_traits::get_hash(C::value_traits::to_node_ptr(v[order[i]])) == v[order[i]].hv; vp_assert(ok, "hash: the stored hash of every contained element is its hash");
#endif
      // local views: bucket of each element, bucket sizes, local iteration in the same order
      int tot = 0; int ord2[32];
      for (unsigned q = 0; q < bc; ++q) { unsigned sz = 0; for (CLIt l = cc.begin(q), le = cc.end(q); l != le && tot < m.n; ++l) { int id = idOf(&*l); vp_assert(id >= 0 && where(v[id].hv) == q, "hash: each element lies in the bucket its hash selects"); ord2[tot++] = id; ++sz; }
         vp_assert(cc.bucket_size(q) == sz && cc.begin(q) == cc.cbegin(q), "hash: bucket_size counts the elements of the bucket"); }
      vp_assert(tot == m.n, "hash: the buckets together hold exactly the contained elements");
      for (int i = 0; i < n; ++i) ok = ok && ord2[i] == order[i]; vp_assert(ok, "hash: iteration walks the buckets in order");
      for (int i = 0; i < n; ++i) { V &x = v[order[i]]; ok = ok && &*c.iterator_to(x) == &x && &*cc.iterator_to((const V &)x) == &x; It nx = c.iterator_to(x); ++nx; ok = ok && (i + 1 < n ? nx != c.end() && &*nx == &v[order[i + 1]] : nx == c.end()); ok = ok && &*c.local_iterator_to(x) == &x && &*C::s_local_iterator_to(x) == &x; }
      vp_assert(ok, "hash: iterator_to denotes the element and continues the iteration");
      for (int i = 0; i < n; ++i) if (i == 0 || v[order[i]].k != v[order[i - 1]].k) lookup(Key{v[order[i]].k, v[order[i]].hv}); // every present key
   }
   void lookup(Key q) { // all lookups of one key against the model
      const C &cc = c; int n = equiv(q.k); It f = c.find(q, KHash(), KEq()); CIt cf = cc.find(q, KHash(), KEq());
      vp_assert((n == 0) == (f == c.end()) && cf == CIt(f) && (n == 0 || (idOf(&*f) >= 0 && f->k == q.k)), "hash: find returns an equivalent element exactly when one is contained");
      vp_assert(cc.count(q, KHash(), KEq()) == (unsigned)n, "hash: count equals the number of equivalent elements");
      std::pair<It, It> r = c.equal_range(q, KHash(), KEq()); std::pair<CIt, CIt> cr = cc.equal_range(q, KHash(), KEq()); vp_assert(CIt(r.first) == cr.first && CIt(r.second) == cr.second, "hash: const and non-const equal_range agree");
      if (n == 0) vp_assert(r.first == c.end() && r.second == c.end(), "hash: equal_range of an absent key is empty at end");
      else { bool ok = true; It i = r.first; for (int j = 0; j < n; ++j, ++i) ok = ok && i != r.second && i != c.end() && i->k == q.k; ok = ok && i == r.second; vp_assert(ok && r.first == f, "hash: equal_range spans exactly the equivalent elements");
         if (r.second != c.end()) { It z = r.second; It y = c.iterator_to(*z); ++z; ++y; vp_assert(z == y, "hash: the end of equal_range continues the iteration"); } }
      vp_assert(c.bucket(q, KHash()) == where(q.hv), "hash: bucket(key) is the bucket the hash selects");
   }
   void linked(int mx) { if (SAFE) { bool ok = true; for (int i = 0; i < mx; ++i) ok = ok && (LIN ? !v[i].is_linked() || has(i) : v[i].is_linked() == has(i)); vp_assert(ok, "hash: exactly the contained elements are linked"); } }
};
static unsigned idx(unsigned n) { return vp_pick(n + 1); }
// Only equality of keys matters to a hash container, so a key is its equivalence class: class 0, 1, ... in order of first
// use (every equality pattern, the solver enumerates them); each class has an arbitrary symbolic hash.
// a harness may ask for the low bits of power-of-two hashes to be enumerated (by the solver) before use: same values, fewer queries
static unsigned hashBits = 0, hashMod = 0; // hashMod: enumerate the residue modulo hashMod (fastmod tables: hashes below hashMod)
static hval freshHash() { if (P2 && hashBits) { hval h = vp_u64() << hashBits; return h | vp_pick(1u << hashBits); } if (!P2 && hashMod) { unsigned r = vp_pick(hashMod); return FM ? hval(r) : hval(vp_u16()) * hashMod + r; } return P2 ? vp_u64() : vp_u16(); }
static int classes(V *v, int n) { int c = 0; for (int j = 0; j < n; ++j) if (v[j].k + 1 > c) c = v[j].k + 1; return c; }
static hval hashOf(V *v, int n, hkey k) { for (int j = 0; j < n; ++j) if (v[j].k == k) return v[j].hv; return freshHash(); }
static void setKey(V *v, int i) { int c = classes(v, i); v[i].k = vp_pick(c + 1); v[i].hv = hashOf(v, i, v[i].k); }
static void setNewKey(V *v, int i) { v[i].k = classes(v, i); v[i].hv = freshHash(); }
static Key freshKey(V *v, int n) { Key q; q.k = vp_pick(classes(v, n) + 1); q.hv = hashOf(v, n, q.k); return q; }
struct Env { enum { MX = 12 }; V v[MX]; Env() { for (int i = 0; i < MX; ++i) { v[i].id = i; v[i].k = 0; v[i].hv = 0; } } };
struct Disp { Mdl *m; void operator()(V *p) { if (SAFE) vp_assert(!p->is_linked(), "hash: an element is unlinked before its disposer runs"); m->ins(m->n, p->id); } };
static void fillM(HT<M> &t, int n) { for (int i = 0; i < n; ++i) { setKey(t.v, i); t.c.insert(t.v[i]); t.m.ins(t.m.n, i); } }
static void fillS(HT<S> &t, int n) { for (int i = 0; i < n; ++i) { setNewKey(t.v, i); t.c.insert(t.v[i]); t.m.ins(t.m.n, i); } }
