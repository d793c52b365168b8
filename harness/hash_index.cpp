// C21: which bucket a hash selects, for every 64-bit hash and every supported bucket count. C22: bucket count suggestions for every n.
#include "vp.h"
#include <boost/intrusive/unordered_set.hpp>
using namespace boost::intrusive;
struct V : unordered_set_base_hook<> { std::size_t hv; int k; };
static bool operator==(const V &a, const V &b) { return a.k == b.k; }
struct Hash { std::size_t operator()(const V &v) const { return v.hv; } };
struct KH { std::size_t operator()(std::size_t h) const { return h; } };
struct KE { bool operator()(std::size_t h, const V &v) const { return h == v.hv; } };
typedef unordered_set<V, hash<Hash>, fastmod_buckets<true>> FMS;
typedef unordered_set<V, hash<Hash>> MOD;
typedef unordered_set<V, hash<Hash>, power_2_buckets<true>> P2S;
typedef unordered_set<V, hash<Hash>, incremental<true>> INCS;
typedef unordered_set<V, hash<Hash>, size_type<unsigned short>> SML;
typedef unordered_set<V, hash<Hash>, size_type<unsigned short>, fastmod_buckets<true>> SMF;
#if WHAT == 21
enum { NP = 40 };
// one size index per path: the ones with a reciprocal (below 2^32) and several beyond
static void position(unsigned lo, unsigned hi) { unsigned i = lo + vp_choose(hi - lo); std::size_t n = prime_fmod_size::size(i); vp_assert(prime_fmod_size::lower_size_index(n) == i, "hash: a supported bucket count has its own index"); std::size_t h = vp_u64(); std::size_t p = prime_fmod_size::position(h, i);
   vp_assert(p < n, "hash: the fastmod position is below the bucket count");
   if (n <= 0x80000000ull) { uint32_t f = uint32_t(h) + uint32_t(h >> 32); vp_assert(p == f % n, "hash: the fastmod position is the exact remainder of the folded hash"); } }
ENTRY(position_a) { position(0, 8); }
ENTRY(position_b) { position(8, 16); }
ENTRY(position_c) { position(16, 24); }
ENTRY(position_d) { position(24, 32); }
ENTRY(position_e) { position(32, 64); }
ENTRY(fastmod) { static const unsigned ns[] = {3, 7, 11, 17, 29, 53, 97, 193, 389}; unsigned i = vp_choose(9), n = ns[i]; V v; FMS::bucket_type b[389]; FMS c(FMS::bucket_traits(b, n)); std::size_t h = vp_u64(); const FMS &cc = c; std::size_t p = cc.bucket(h, KH());
   vp_assert(cc.bucket_count() == n && p < n, "hash: bucket() is below the bucket count (fastmod)"); vp_assert(p == prime_fmod_size::position(h, i), "hash: bucket() is the position of the hash (fastmod)"); v.hv = h; v.k = 0; vp_assert(cc.bucket(v) == p, "hash: bucket() depends on the hash only"); }
ENTRY(fastmod_use) { unsigned n = vp_choose(2) ? 7 : 3; V v[2]; FMS::bucket_type b[7]; FMS c(FMS::bucket_traits(b, n)); v[0].k = 0; v[1].k = 1; v[0].hv = vp_u64(); v[1].hv = vp_u64(); vp_assume(v[0].hv != v[1].hv); c.insert(v[0]); c.insert(v[1]); 
   std::size_t q = c.bucket(v[0].hv, KH()); vp_assert(q < n && &*c.find(v[0].hv, KH(), KE()) == &v[0] && &*c.find(v[1].hv, KH(), KE()) == &v[1], "hash: an inserted element is found through its hash (fastmod)"); int f = 0; for (FMS::local_iterator l = c.begin(q); l != c.end(q); ++l) f += &*l == &v[0]; vp_assert(f == 1, "hash: an inserted element lies in the bucket its hash selects (fastmod)"); }
ENTRY(mod) { static const unsigned ns[] = {1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 16, 31, 97, 100}; unsigned n = ns[vp_choose(14)]; V v; MOD::bucket_type b[100]; MOD c(MOD::bucket_traits(b, n)); std::size_t h = vp_u64(); const MOD &cc = c; std::size_t p = cc.bucket(h, KH());
   vp_assert(p < n && p == h % n, "hash: bucket() is the remainder of the hash"); v.hv = h; v.k = 0; vp_assert(cc.bucket(v) == p, "hash: bucket() depends on the hash only"); if (n <= 8) { c.insert(v); vp_assert(&*c.begin(p) == &v && c.bucket_size(p) == 1 && &*c.find(h, KH(), KE()) == &v, "hash: an inserted element lies in the bucket its hash selects"); } }
ENTRY(power2) { unsigned n = 1u << vp_choose(8); V v; P2S::bucket_type b[128]; P2S c(P2S::bucket_traits(b, n)); std::size_t h = vp_u64(); const P2S &cc = c; std::size_t p = cc.bucket(h, KH()); vp_assert(p < n && p == h % n, "hash: bucket() is the remainder of the hash (power of two)"); v.hv = h; v.k = 0; vp_assert(cc.bucket(v) == p, "hash: bucket() depends on the hash only"); if (n <= 16) { c.insert(v); vp_assert(&*c.begin(p) == &v && c.bucket_size(p) == 1, "hash: an inserted element lies in the bucket its hash selects"); } }
// linear hashing: at every split the bucket is below the split, one step moves elements of one bucket to one new bucket only
ENTRY(split) { unsigned n = 1u << vp_choose(7); INCS::bucket_type b[64], b2[128]; INCS c(INCS::bucket_traits(b, n)); std::size_t h = vp_u64(); const INCS &cc = c; unsigned steps = vp_choose(n / 2 + 1), s = cc.split_count(); vp_assert(s == n / 2, "hash: an incremental table starts with half of the buckets in use");
   for (unsigned i = 0; i < steps; ++i) c.incremental_rehash(true); s += steps; vp_assert(cc.split_count() == s, "hash: the split grows by one per step"); std::size_t p = cc.bucket(h, KH());
   if (n > 1) vp_assert(p < s, "hash: bucket() is below the split"); vp_assert(p == h % n || (h % n >= s && p == h % n - n / 2), "hash: bucket() is the remainder, folded when it is not yet in use");
   if (s < n) { c.incremental_rehash(true); std::size_t q = cc.bucket(h, KH()); vp_assert(q == p || (p == s - n / 2 && q == s), "hash: one incremental step moves elements of the split bucket to the new bucket only"); c.incremental_rehash(false); vp_assert(cc.bucket(h, KH()) == p && cc.split_count() == s, "hash: shrinking undoes a growing step"); }
   else { vp_assert(c.incremental_rehash(INCS::bucket_traits(b2, 2 * n)) && cc.bucket_count() == 2 * n && cc.split_count() == n && cc.bucket(h, KH()) == p, "hash: doubling the array keeps every bucket"); } }
#else
// the supported counts, through the library's own index functions
template <class SZ> static bool supported(std::size_t r) { return prime_fmod_size::size(prime_fmod_size::lower_size_index(r)) == r; }
enum { CNT = 64 };
template <class C> static void upper(std::size_t n) { typedef typename C::size_type SZ; const std::size_t top = sizeof(SZ) < sizeof(std::size_t) ? C::fastmod_buckets ? 49157 : std::size_t(SZ(-1)) : prime_fmod_size::size(CNT - 1); std::size_t r = C::suggested_upper_bucket_count(SZ(n));
   vp_assert(supported<SZ>(r) || r == top, "hash: a suggested bucket count is a supported one"); vp_assert(r >= n || r == top, "hash: the suggested upper bucket count is not below n, unless n exceeds the largest"); 
   bool gap = false; for (unsigned i = 0; i < CNT; ++i) { std::size_t c = prime_fmod_size::size(i); gap |= (c > n) & (c < r); } vp_assert(!gap, "hash: no supported bucket count lies between n and the suggested upper one"); }
template <class C> static void lower(std::size_t n) { typedef typename C::size_type SZ; const std::size_t top = sizeof(SZ) < sizeof(std::size_t) ? C::fastmod_buckets ? 49157 : std::size_t(SZ(-1)) : prime_fmod_size::size(CNT - 1); std::size_t r = C::suggested_lower_bucket_count(SZ(n));
   vp_assert(supported<SZ>(r) || r == top, "hash: a suggested bucket count is a supported one"); bool gap = false, ex = false; for (unsigned i = 0; i < CNT; ++i) { std::size_t c = prime_fmod_size::size(i); gap |= ((c > n) & (c < r)) | ((c < n) & (c > r)); ex |= c == n; }
   vp_assert(!gap, "hash: no supported bucket count lies between n and the suggested lower one"); vp_assert(!ex || r == n, "hash: the suggested lower bucket count of a supported count is that count"); vp_assert(n >= 3 || r == 3, "hash: the suggested lower bucket count falls back to the smallest"); }
ENTRY(upper_mod) { upper<MOD>(vp_u64()); }
ENTRY(upper_fmod) { upper<FMS>(vp_u64()); }
ENTRY(upper_small) { upper<SML>(vp_u16()); }
ENTRY(lower_mod) { lower<MOD>(vp_u64()); }
ENTRY(lower_fmod) { lower<FMS>(vp_u64()); }
ENTRY(lower_small) { lower<SML>(vp_u16()); }
ENTRY(upper_smallf) { upper<SMF>(vp_u16()); }
ENTRY(lower_smallf) { lower<SMF>(vp_u16()); }
ENTRY(exact_upper) { unsigned i = vp_choose(CNT); std::size_t c = prime_fmod_size::size(i); vp_assert(MOD::suggested_upper_bucket_count(c) == c, "hash: the suggested upper bucket count of a supported count is that count (bigger or equal)"); }
ENTRY(strict_lower) { std::size_t n = vp_u64(); std::size_t r = MOD::suggested_lower_bucket_count(n); vp_assert(r <= n || n < 3, "hash: the suggested lower bucket count is not above n, unless n is below the smallest"); }
// the supported counts are increasing primes
ENTRY(increasing) { unsigned i = vp_choose(CNT - 1); vp_assert(prime_fmod_size::size(i) < prime_fmod_size::size(i + 1), "hash: supported bucket counts increase"); }
ENTRY(prime) { unsigned i = vp_choose(VP_B(12, 20)); std::size_t p = prime_fmod_size::size(i); bool divides = false; if (p < 70000) for (uint32_t k = 2; k * k <= p; ++k) divides |= p % k == 0; vp_assert(!divides, "hash: supported bucket counts are primes"); }
#endif
