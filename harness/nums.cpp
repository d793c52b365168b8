// C33: pointers that carry extra bits. C34: the logarithms and powers behind the balance bounds of scapegoat trees.
#include "vp.h"
#include <boost/intrusive/pointer_plus_bits.hpp>
#include <boost/intrusive/set.hpp>
#include <boost/intrusive/avl_set.hpp>
#include <boost/intrusive/any_hook.hpp>
#include <boost/intrusive/sg_set.hpp>
#include <boost/intrusive/detail/math.hpp>
using namespace boost::intrusive;
#if WHAT == 33
struct alignas(8) N8 { long x; };
template <unsigned NB> static void bits() { typedef pointer_plus_bits<N8 *, NB> P; const uint64_t M = (1u << NB) - 1; uint64_t a = vp_u64(), b = vp_u64(), c = vp_u64(); vp_assume((a & M) == 0); vp_assume((b & M) == 0); vp_assume(c <= M); uint64_t d = vp_u64(); vp_assume(d <= M);
   N8 *n = reinterpret_cast<N8 *>(vp_u64()), *p = reinterpret_cast<N8 *>(a), *q = reinterpret_cast<N8 *>(b);
   std::size_t b0 = P::get_bits(n); P::set_pointer(n, p); vp_assert(P::get_pointer(n) == p && P::get_bits(n) == b0, "bits: setting the pointer keeps the bits"); P::set_bits(n, c); vp_assert(P::get_pointer(n) == p && P::get_bits(n) == c, "bits: setting the bits keeps the pointer");
   for (int i = 0; i < 2; ++i) switch (vp_choose(3)) { case 0: P::set_pointer(n, q); p = q; break; case 1: P::set_bits(n, d); c = d; break; default: { N8 *m = n; P::set_bits(m, 0); vp_assert(m == p && P::get_pointer(m) == p, "bits: without bits the pointer is the plain pointer"); } }
   vp_assert(P::get_pointer(n) == p && P::get_bits(n) == c, "bits: pointer and bits are independent"); }
ENTRY(bits1) { bits<1>(); }
ENTRY(bits2) { bits<2>(); }
ENTRY(bits3) { bits<3>(); }
template <std::size_t A> static void maxbits() { const std::size_t n = max_pointer_plus_bits<void *, A>::value; uint64_t a = vp_u64(); vp_assume(a % A == 0); vp_assert((a & ((1ull << n) - 1)) == 0, "bits: an aligned address leaves the announced bits free"); vp_assert((std::size_t(1) << n) == A, "bits: every free bit is announced"); }
ENTRY(maxbits_) { switch (vp_choose(7)) { case 0: maxbits<1>(); break; case 1: maxbits<2>(); break; case 2: maxbits<4>(); break; case 3: maxbits<8>(); break; case 4: maxbits<16>(); break; case 5: maxbits<64>(); break; default: maxbits<4096>(); } }
// nodes of the two compact tree representations and the plain ones: every field is independent of the others
template <class NT, class Get, class Set> static void fields(unsigned nv, Get get, Set set) {
   typedef typename NT::node node; typedef typename NT::node_ptr np; node pool[4], n; memset((void *)&n, 0, sizeof n); np x = &n; np p = &pool[vp_choose(4)], l = vp_choose(2) ? &pool[1] : np(), r = &pool[2]; unsigned c = vp_pick(nv);
   NT::set_parent(x, p); NT::set_left(x, l); NT::set_right(x, r); set(x, c);
   auto ok = [&] { typename NT::const_node_ptr cx = x; return NT::get_parent(x) == p && NT::get_left(x) == l && NT::get_right(x) == r && get(x) == c && NT::get_parent(cx) == p && NT::get_left(cx) == l && NT::get_right(cx) == r && get(np(x)) == c; };
   vp_assert(ok(), "bits: a tree node holds what was stored");
   for (int i = 0; i < 2; ++i) { switch (vp_choose(4)) { case 0: p = vp_choose(2) ? np(&pool[3]) : np(); NT::set_parent(x, p); break; case 1: c = vp_pick(nv); set(x, c); break; case 2: l = &pool[vp_choose(4)]; NT::set_left(x, l); break; default: r = np(); NT::set_right(x, r); } vp_assert(ok(), "bits: changing one field of a tree node keeps the others"); } }
template <bool O> static void rbn() { typedef rbtree_node_traits<void *, O> T; static_assert(sizeof(typename T::node) == (O ? 3 : 4) * sizeof(void *), ""); vp_assert(T::red() != T::black(), "bits: the two colours differ");
   fields<T>(2, [](typename T::node_ptr n) { typename T::const_node_ptr c = n; vp_assert(T::get_color(n) == T::get_color(c), "bits: one colour per node"); return T::get_color(n) == T::black() ? 1u : 0u; }, [](typename T::node_ptr n, unsigned v) { T::set_color(n, v ? T::black() : T::red()); }); }
template <bool O> static void avn() { typedef avltree_node_traits<void *, O> T; static_assert(sizeof(typename T::node) == (O ? 3 : 4) * sizeof(void *), ""); vp_assert(T::negative() != T::zero() && T::zero() != T::positive() && T::negative() != T::positive(), "bits: the three balances differ");
   fields<T>(3, [](typename T::node_ptr n) { typename T::const_node_ptr c = n; vp_assert(T::get_balance(n) == T::get_balance(c), "bits: one balance per node"); return T::get_balance(n) == T::negative() ? 0u : T::get_balance(n) == T::zero() ? 1u : 2u; }, [](typename T::node_ptr n, unsigned v) { T::set_balance(n, v == 0 ? T::negative() : v == 1 ? T::zero() : T::positive()); }); }
ENTRY(rb_plain) { rbn<false>(); }
ENTRY(rb_compact) { rbn<true>(); }
ENTRY(avl_plain) { avn<false>(); }
ENTRY(avl_compact) { avn<true>(); }
#else
using namespace boost::intrusive::detail;
// every value whose highest set bit is k
static std::size_t mag(unsigned k) { std::size_t P = std::size_t(1) << k; return P | (vp_u64() & (P - 1)); }
ENTRY(log2) { unsigned k = vp_choose(64); std::size_t x = mag(k), P = std::size_t(1) << k; vp_assert(floor_log2(x) == k, "math: floor_log2"); vp_assert(ceil_log2(x) == k + (x != P), "math: ceil_log2"); vp_assert(is_pow2(x) == (x == P), "math: is_pow2"); vp_assert(previous_or_equal_pow2(x) == P, "math: previous_or_equal_pow2"); if (k < 63 || x == P) vp_assert(ceil_pow2(x) == (x == P ? P : P << 1), "math: ceil_pow2"); }
// smallest n with n*n >= 2^(2k+1)
static std::size_t root(unsigned k) { unsigned __int128 t = (unsigned __int128)1 << (2 * k + 1); std::size_t lo = 1, hi = ~std::size_t(0); while (lo < hi) { std::size_t m = lo + (hi - lo) / 2; if ((unsigned __int128)m * m >= t) hi = m; else lo = m + 1; } return lo; }
ENTRY(halpha) { unsigned k = vp_choose(64); std::size_t T = root(k); vp_assert(sqrt2_pow_2xplus1(k) == T, "math: the odd power of the square root of two is rounded up"); std::size_t x = mag(k); vp_assert(calculate_h_sqrt2(x) == 2 * k + (x >= T), "math: the height bound of the default scapegoat tree is floor(2*log2(n))"); vp_assert(h_alpha_sqrt2_t()(x) == 2 * k + (x >= T), "math: the height bound functor"); }
ENTRY(alpha75) { std::size_t rem = vp_choose(4), q = vp_u64() & (~std::size_t(0) >> 2), m = (q << 2) | rem, r = alpha_0_75_by_max_size_t()(m); vp_assert(r >= 3 * q && r <= 3 * q + 3 * rem / 4, "math: three quarters of the maximum size, without overflow"); }
#endif
