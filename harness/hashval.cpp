// C23: the default hash functor agrees with equality: elements with equal keys meet in the same bucket, whatever the key type and value.
#include "vp.h"
#include <boost/container_hash/hash.hpp>
#include <boost/intrusive/unordered_set.hpp>
#include <cstring>
using namespace boost::intrusive;
template <class T> static T sym() { T t; if constexpr (std::is_same<T, bool>::value) t = vp_bool(); else if constexpr (sizeof(T) == 1) { uint8_t b = vp_u8(); memcpy(&t, &b, 1); } else if constexpr (sizeof(T) == 2) { uint16_t b = vp_u16(); memcpy(&t, &b, 2); } else if constexpr (sizeof(T) == 4) { uint32_t b = vp_u32(); memcpy(&t, &b, 4); } else if constexpr (sizeof(T) == 8) { uint64_t b = vp_u64(); memcpy(&t, &b, 8); } else { uint64_t b[2] = {vp_u64(), vp_u64()}; memcpy(&t, b, 16); } return t; }
template <class T, bool S = false> struct V : unordered_set_base_hook<store_hash<S> > { T k; bool operator==(const V &o) const { return k == o.k; } };
template <class T, bool S = false> struct K { typedef T type; const T &operator()(const V<T, S> &v) const { return v.k; } };
template <class T> using Mp = unordered_multiset<V<T>, key_of_value<K<T>>, power_2_buckets<true>>;
template <class T> using Mm = unordered_multiset<V<T>, key_of_value<K<T>>>;
template <class T> using Mf = unordered_multiset<V<T>, key_of_value<K<T>>, fastmod_buckets<true>>;
template <class T> using Us = unordered_set<V<T, true>, key_of_value<K<T, true>>, power_2_buckets<true>, compare_hash<true>>;
template <class T> using HK = boost::intrusive::detail::internal_hash_functor<T>;
template <class T> static bool eq(const T &a, const T &b) { return a == b; }
template <class C, class T> static void use(T a, T b, bool e, unsigned n) {
   typename C::bucket_type bk[8]; typename C::bucket_traits bt(bk, n); C c(bt); typename C::value_type v, w; v.k = a; w.k = b;
   vp_assert(c.hash_function()(a) == HK<T>()(a), "hash: the container hashes keys with the default functor");
   c.insert(v); const C &cc = c; bool f = cc.find(b) != cc.end(); vp_assert(f == e && cc.count(b) == e, "hash: a lookup finds an element exactly when the keys are equal");
   vp_assert(!e || cc.bucket(a) == cc.bucket(b), "hash: equal keys select the same bucket"); vp_assert(!e || &*cc.find(b) == &v, "hash: a lookup finds the equal element");
   c.insert(w); std::size_t m = e && std::is_same<C, Us<T>>::value ? 1 : 2; vp_assert(c.size() == m && c.count(a) == (e && m == 2 ? 2u : 1u), "hash: equal keys form one group"); c.clear(); }
template <class T> static void key(T a, T b) { vp_assume(eq(a, a)); vp_assume(eq(b, b)); /* a NaN is no key */ bool e = eq(a, b); vp_assert(!e || HK<T>()(a) == HK<T>()(b), "hash: equal keys have equal hashes");
   switch (vp_choose(3)) { case 0: use<Mp<T>>(a, b, e, 4); break; case 1: use<Us<T>>(a, b, e, 2); break; default: use<Mm<T>>(a, b, e, 2); break; } }
template <class T> static void test() { T a = sym<T>(), b = sym<T>(); key<T>(a, b); }
ENTRY(k_bool) { test<bool>(); }
ENTRY(k_char) { test<char>(); }
ENTRY(k_schar) { test<signed char>(); }
ENTRY(k_uchar) { test<unsigned char>(); }
ENTRY(k_wchar) { test<wchar_t>(); }
ENTRY(k_char16) { test<char16_t>(); }
ENTRY(k_short) { test<short>(); }
ENTRY(k_ushort) { test<unsigned short>(); }
ENTRY(k_int) { test<int>(); }
ENTRY(k_uint) { test<unsigned>(); }
ENTRY(k_long) { test<long>(); }
ENTRY(k_ulong) { test<unsigned long>(); }
ENTRY(k_llong) { test<long long>(); }
ENTRY(k_ullong) { test<unsigned long long>(); }
enum En { ea, eb, ec = 1000, ed = -3 };
enum class Es : signed char { a, b, c = -7 };
enum class Eu : unsigned long long { a, b };
ENTRY(k_enum) { test<En>(); }
ENTRY(k_enum_s) { test<Es>(); }
ENTRY(k_enum_u) { test<Eu>(); }
ENTRY(k_float) { test<float>(); }
ENTRY(k_double) { test<double>(); }
ENTRY(k_pointer) { static int ar[5]; int *a = ar + vp_pick(6), *b = ar + vp_pick(6); key<int *>(a, b); }
ENTRY(k_cpointer) { static const char ar[5] = {}; const char *a = ar + vp_pick(6), *b = vp_choose(2) ? nullptr : ar + vp_pick(6); key<const char *>(a, b); }
struct A3 { int a[3]; };
// equal integers have equal bits; equal floats have equal bits or are zeros of any sign
ENTRY(k_array) { int a[3], b[3]; for (int i = 0; i < 3; ++i) a[i] = b[i] = (int)vp_u32(); vp_assert(HK<int[3]>()(a) == HK<int[3]>()(b), "hash: equal arrays have equal hashes"); }
ENTRY(k_array_float) { float a[3], b[3]; for (int i = 0; i < 3; ++i) { unsigned z = vp_choose(3); a[i] = z == 0 ? sym<float>() : 0.0f; b[i] = z == 0 ? a[i] : z == 1 ? -0.0f : 0.0f; } vp_assert(HK<float[3]>()(a) == HK<float[3]>()(b), "hash: equal arrays of floating point keys have equal hashes"); }
ENTRY(k_array_2d) { short a[2][2], b[2][2]; for (int i = 0; i < 4; ++i) a[i / 2][i % 2] = b[i / 2][i % 2] = (short)vp_u16(); vp_assert(HK<short[2][2]>()(a) == HK<short[2][2]>()(b), "hash: equal arrays of arrays have equal hashes"); }
namespace user { struct U { uint32_t x, noise; bool operator==(const U &o) const { return x == o.x; } }; inline std::size_t hash_value(const U &u) { return u.x * 2654435761u; } struct B { int x, noise; bool operator==(const B &o) const { return x == o.x; } }; }
namespace boost { template <> struct hash<user::B> { std::size_t operator()(const user::B &b) const { return ~std::size_t(b.x); } }; }
ENTRY(k_adl) { user::U a{vp_u32(), vp_u32()}, b{vp_u32(), vp_u32()}; vp_assert(HK<user::U>()(a) == a.x * 2654435761u, "hash: hash_value found by argument dependent lookup is used"); key<user::U>(a, b); }
ENTRY(k_boost) { user::B a{(int)vp_u32(), (int)vp_u32()}, b{(int)vp_u32(), (int)vp_u32()}; vp_assert(HK<user::B>()(a) == ~std::size_t(a.x), "hash: boost::hash is used when there is no hash_value"); key<user::B>(a, b); }
// the element itself is the key
struct Self : unordered_set_base_hook<> { uint32_t x; int noise; friend bool operator==(const Self &a, const Self &b) { return a.x == b.x; } friend std::size_t hash_value(const Self &s) { return s.x; } };
ENTRY(k_self) { typedef unordered_multiset<Self, power_2_buckets<true>> C; C::bucket_type bk[4]; C c(C::bucket_traits(bk, 4)); Self v, w; v.x = vp_u32(); w.x = vp_u32(); v.noise = 1; w.noise = 2; bool e = v.x == w.x; c.insert(v); vp_assert(c.count(w) == e && (!e || c.bucket(v) == c.bucket(w)), "hash: a lookup finds an element exactly when the elements are equal"); c.clear(); }
