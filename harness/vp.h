// Harness API shared by the symbolic executor and the native replay build.
#pragma once
#include <cstddef>
#include <cstdint>
#ifndef VP_THOROUGH
#define VP_THOROUGH 0
#endif
#if VP_THOROUGH
#define VP_B(q, t) (t)
#else
#define VP_B(q, t) (q)
#endif
#define VP_CAT2(a, b) a##b
#define VP_CAT(a, b) VP_CAT2(a, b)
#define ENTRY(name) extern "C" __attribute__((used)) void VP_CAT(vp_entry_, name)()
extern "C" {
uint64_t vp_sym_raw(unsigned width);            // fresh symbolic value of `width` bits, zero-extended
unsigned vp_choose(unsigned n);                 // fresh symbolic choice in [0,n), one path per value
void vp_assume_(bool c);                        // restrict to executions where c
void vp_assert_(bool c, const char *label);     // must hold for every value on this path
void vp_observe(uint64_t v);                    // logged; compared with the native run of the same inputs
void vp_reach(const char *label);               // coverage witness
void vp_expect_assert();                        // from here on, a safe-mode assertion of the library must fire
[[noreturn]] void vp_fail(const char *label);
[[noreturn]] void vp_internal_assert(const char *expr, const char *file, long line);
uint64_t vp_live();                             // number of live heap blocks
uint64_t vp_conc(uint64_t v);                   // fork over the feasible values of v
}
#define vp_assume(c) vp_assume_((c))
#define vp_assert(c, label) vp_assert_((c), label)
static inline uint32_t vp_u32() { return (uint32_t)vp_sym_raw(32); }
static inline uint64_t vp_u64() { return vp_sym_raw(64); }
static inline uint16_t vp_u16() { return (uint16_t)vp_sym_raw(16); }
static inline uint8_t vp_u8() { return (uint8_t)vp_sym_raw(8); }
static inline bool vp_bool() { return vp_sym_raw(1) != 0; }
static inline unsigned vp_choose_range(unsigned lo, unsigned hi) { return lo + vp_choose(hi - lo + 1); } // inclusive
static inline unsigned vp_pick(unsigned n) { unsigned v = vp_u8(); vp_assume(v < n); return (unsigned)vp_conc(v); } // symbolic value in [0,n), the solver enumerates the feasible values
namespace boost {
inline void assertion_failed(char const *expr, char const *, char const *file, long line) { vp_internal_assert(expr, file, line); }
inline void assertion_failed_msg(char const *expr, char const *, char const *, char const *file, long line) { vp_internal_assert(expr, file, line); }
}
