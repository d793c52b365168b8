// Hash-consed bit-vector expressions, simplification, evaluation and translation to z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;

enum Op : u8 { O_CONST, O_SYM, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR,
   O_SHL, O_LSHR, O_ASHR, O_CONCAT /*k0 high,k1 low*/, O_EXTRACT, O_ZEXT, O_SEXT, O_EQ, O_ULT, O_SLT, O_ITE, O_NOT, O_UNDEF };

struct Expr {
   Op op; u16 w; u32 lo; // lo: extract low bit / sym id
   const Expr *k[3];
   u128 c;
   u64 h;
   u32 id;
   mutable u32 ep, mark; mutable u128 ev;
   mutable Z3_ast z;
};
typedef const Expr *E;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline s128 sextw(u128 v, unsigned w) { if (w >= 128) return (s128)v; u128 s = (u128)1 << (w - 1); v &= maskw(w); return (s128)((v ^ s) - s); }

struct SymInfo { std::string name; unsigned w; };
extern std::vector<SymInfo> g_syms;

E mkConst(u128 c, unsigned w);
E mkSym(const std::string &name, unsigned w);
extern E UNDEF;   // marker, width ignored

struct Val { u128 c; E e; u32 w; };
static inline Val VC(u128 c, unsigned w) { Val v; v.c = c & maskw(w); v.e = nullptr; v.w = w; return v; }
static inline Val VE(E e) { Val v; if (e->op == O_CONST) { v.c = e->c; v.e = nullptr; v.w = e->w; } else { v.c = 0; v.e = e; v.w = e->w; } return v; }
static inline E toE(const Val &v) { return v.e ? v.e : mkConst(v.c, v.w); }

u128 foldBin(Op op, u128 a, u128 b, unsigned w);
E mkBin(Op op, E a, E b);
E mkNot(E a);            // width-1 logical not
E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);

typedef std::vector<u128> Model; // by sym id, default 0
u128 evalE(E e, const Model &m);
void newEpoch();
static inline u128 evalFresh(E e, const Model &m) { newEpoch(); return evalE(e, m); }

extern Z3_context g_z3;
Z3_ast toBV(E e);   // bit-vector sorted
Z3_ast toBool(E e); // width 1 only
std::string showE(E e);

bool liaHeavy(E e);
int liaSolve(const std::vector<E> &cs, std::vector<std::pair<E, u128>> &vals, unsigned ms);
