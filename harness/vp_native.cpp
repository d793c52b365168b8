// Native side of the harness API: replays a recorded input vector against the real build.
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <vector>
#include <dlfcn.h>
static std::vector<unsigned long long> *in; static size_t pos = 0; static bool expecting = false;
static std::vector<unsigned long long> *obs;
static long live = 0;
static void finish(const char *st, int rc) { for (auto v : *obs) printf("OBS %llx\n", v); printf("%s\n", st); fflush(stdout); _Exit(rc); }
static uint64_t next() { if (pos >= in->size()) finish("VP-INPUT-EXHAUSTED", 44); return (*in)[pos++]; }
extern "C" {
uint64_t vp_sym_raw(unsigned w) { uint64_t v = next(); return w < 64 ? v & ((1ULL << w) - 1) : v; }
unsigned vp_choose(unsigned n) { uint64_t v = next(); if (v >= n) finish("VP-BAD-CHOICE", 44); return (unsigned)v; }
void vp_assume_(bool c) { if (!c) finish("VP-ASSUME-FALSE", 43); }
void vp_assert_(bool c, const char *l) { if (!c) { printf("VP-FAIL assert: %s\n", l); finish("VP-FAIL", 42); } }
void vp_observe(uint64_t v) { obs->push_back(v); }
void vp_reach(const char *) {}
void vp_expect_assert() { expecting = true; }
void vp_fail(const char *l) { printf("VP-FAIL assert: %s\n", l); finish("VP-FAIL", 42); abort(); }
void vp_internal_assert(const char *e, const char *f, long l) { if (expecting) finish("VP-EXPECTED", 0); printf("VP-FAIL internal-assert: %s (line %ld of %s)\n", e, l, f); finish("VP-FAIL", 42); abort(); }
uint64_t vp_live() { return (uint64_t)live; }
uint64_t vp_conc(uint64_t v) { return v; }
}
static bool counting = false;
#if defined(VP_FILL)
#define FILL(p, n) memset(p, VP_FILL, n)
#else
#define FILL(p, n) ((void)0)
#endif
void *operator new(size_t n) { void *p = malloc(n ? n : 1); FILL(p, n); if (counting) ++live; return p; }
void *operator new[](size_t n) { void *p = malloc(n ? n : 1); FILL(p, n); if (counting) ++live; return p; }
void operator delete(void *p) noexcept { if (p && counting) --live; free(p); }
void operator delete[](void *p) noexcept { if (p && counting) --live; free(p); }
void operator delete(void *p, size_t) noexcept { if (p && counting) --live; free(p); }
void operator delete[](void *p, size_t) noexcept { if (p && counting) --live; free(p); }
int main(int argc, char **argv) {
   if (argc < 3) return 99;
   in = new std::vector<unsigned long long>; obs = new std::vector<unsigned long long>; obs->reserve(4096);
   FILE *f = fopen(argv[2], "r"); if (!f) return 99; unsigned long long v; while (fscanf(f, "%llx", &v) == 1) in->push_back(v); fclose(f);
   char nm[512]; snprintf(nm, sizeof nm, "vp_entry_%s", argv[1]);
   void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, nm); if (!fn) { printf("no entry %s\n", nm); return 99; }
   counting = true; fn(); counting = false;
   if (expecting) { printf("VP-FAIL assert: an expected safe-mode assertion did not fire\n"); finish("VP-FAIL", 42); }
   finish("VP-DONE", 0);
}
