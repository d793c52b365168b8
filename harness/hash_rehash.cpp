// C20: rehashing (full, in place, into another array, incremental in both directions) preserves the contents and invariants
#include "hash.h"
enum { N = VP_B(3, 4) };
#if HCFG == 4 || HCFG == 9
static const unsigned sizes[] = {3, 7, 3, 7}; // supported fastmod sizes (see C22)
#define SZN 2
#elif HCFG == 1 || HCFG == 2 || HCFG == 6 || HCFG == 8 || HCFG == 11
static const unsigned sizes[] = {1, 2, 4, 8};
#else
static const unsigned sizes[] = {1, 2, 3, 6};
#endif
#ifndef SZN
#define SZN 4
#endif
template <class C> static void tail(HT<C> &t, V *v, int n) { t.check(); t.linked(Env::MX); // the table stays usable
   v[n].k = classes(v, n); v[n].hv = n ? v[0].hv : freshHash(); t.c.insert(v[n]); t.m.ins(t.m.n, n); if (n) { t.c.erase(t.c.iterator_to(v[0])); t.m.del(t.m.find(0)); } t.check(); t.linked(Env::MX); }
static const unsigned NMAX = N;
static void bits(unsigned a, unsigned b, unsigned c = 1) { unsigned m = a; while (m % b) m += a; hashMod = m; while (hashMod % c) hashMod += m;
   if (c > b) b = c; hashBits = 0; while ((1u << hashBits) < a || (1u << hashBits) < b) ++hashBits; }
template <class C, class F> static void re(F fill) {
   Env e; unsigned from = sizes[vp_choose(SZN)], to = sizes[vp_choose(SZN)]; bool other = vp_choose(2); bits(from, to); HT<C> t(e.v, from); int n = idx(NMAX); fill(t, n);
   hash_calls = 0; t.c.rehash(t.bt(other, to)); t.bc = to; vp_assert(t.c.bucket_pointer() == (other ? t.b2 : t.b), "hash: rehash adopts the new bucket array"); if (SH) vp_assert(hash_calls == 0, "hash: rehash does not call the hash function when hashes are stored"); if (INC) vp_assert(t.c.split_count() == to, "hash: a full rehash sets the split to the bucket count");
   if (other) { for (unsigned i = 0; i < from; ++i) vp_assert(!(t.b[i].get_node_ptr()->next_ && t.b[i].get_node_ptr()->next_ != t.b[i].get_node_ptr()), "hash: rehash into another array leaves the old buckets empty"); }
   tail(t, e.v, n); }
struct FM_ { void operator()(HT<M> &t, int n) { fillM(t, n); } }; struct FS_ { void operator()(HT<S> &t, int n) { fillS(t, n); } };
ENTRY(rehash_multi) { re<M>(FM_()); }
ENTRY(rehash_uniq) { re<S>(FS_()); }
ENTRY(full) { // keys keep their equivalences but every hash changes
   Env e; unsigned from = sizes[vp_choose(SZN - 1)]; bits(from, sizes[2]); HT<M> t(e.v, from); int n = idx(FM ? NMAX - 1 : NMAX); fillM(t, n); hval nh[16]; for (int i = 0; i < classes(e.v, n); ++i) nh[i] = freshHash(); for (int i = 0; i < n; ++i) e.v[i].hv = nh[e.v[i].k];
   unsigned bc = t.c.bucket_count(); t.c.full_rehash(); t.bc = bc; if (n) { t.check(); int f = t.c.begin()->id; t.c.erase(t.c.begin()); t.m.del(t.m.find(f)); t.c.rehash(t.bt(true, sizes[2])); t.bc = sizes[2]; } t.check(); t.linked(Env::MX); }
ENTRY(chain) { Env e; unsigned s0 = sizes[2], to2[2]; for (int i = 0; i < 2; ++i) to2[i] = sizes[vp_choose(SZN)]; bits(s0, to2[0], to2[1]); HT<M> t(e.v, s0); int n = idx(FM ? 1 : 2); fillM(t, n); for (int i = 0; i < 2; ++i) { unsigned to = to2[i]; bool other = vp_choose(2); t.c.rehash(t.bt(other, to)); t.bc = to; t.check(); } t.linked(Env::MX); }
#if HINC
template <class C, class F> static void incr(F fill) {
   Env e; unsigned from = sizes[vp_choose(4)]; bits(from, from); HT<C> t(e.v, from); int n = idx(NMAX); int pre = vp_choose(from - from / 2 + 1); for (int i = 0; i < pre; ++i) vp_assert(t.c.incremental_rehash(true), "hash: incremental_rehash can grow below the bucket count"); vp_assert(t.c.split_count() == from / 2 + pre, "hash: each incremental step moves the split by one"); fill(t, n); t.check();
   int steps = VP_B(2, 3); for (int i = 0; i < steps; ++i) { bool g = vp_choose(2); unsigned sp = t.c.split_count(); bool can = g ? sp < from : sp > from / 2; vp_assert(t.c.incremental_rehash(g) == can, "hash: incremental_rehash reports whether a step was possible"); vp_assert(t.c.split_count() == (can ? g ? sp + 1 : sp - 1 : sp), "hash: each incremental step moves the split by one"); t.check(); }
   tail(t, e.v, n); }
ENTRY(incremental_multi) { incr<M>(FM_()); }
ENTRY(incremental_uniq) { incr<S>(FS_()); }
ENTRY(incremental_resize) { // doubling or halving the array between incremental phases
   Env e; unsigned from = sizes[vp_choose(3)]; bits(from * 2, from); HT<M> t(e.v, from); int n = idx(VP_B(2, 3)); int pre = vp_choose(from - from / 2 + 1); for (int i = 0; i < pre; ++i) t.c.incremental_rehash(true); fillM(t, n); unsigned sp = t.c.split_count();
   bool other = vp_choose(2); unsigned to = sizes[vp_choose(4)]; bool can = (to == from * 2 && sp == from) || (to * 2 == from && sp == from / 2);
   bool r = t.c.incremental_rehash(t.bt(other, to)); vp_assert(r == can, "hash: incremental_rehash to another array is accepted exactly for doubling when fully grown or halving when fully shrunk"); if (r) { t.bc = to; vp_assert(t.c.bucket_pointer() == (other ? t.b2 : t.b), "hash: incremental_rehash adopts the new array"); } vp_assert(t.c.split_count() == sp, "hash: resizing keeps the split");
   t.check(); for (int i = 0; i < 2; ++i) { t.c.incremental_rehash(vp_choose(2)); t.check(); } tail(t, e.v, n); }
#endif
