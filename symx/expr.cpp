#include "expr.h"
std::vector<SymInfo> g_syms;
static std::unordered_map<std::string, E> symByName;
Z3_context g_z3;
static u32 g_nexpr = 0, g_epoch = 1;

static u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h; }
static std::vector<const Expr *> table(1 << 12, nullptr);
static size_t tableN = 0;

static E intern(Op op, unsigned w, E a, E b, E c, u32 lo, u128 cv) {
   u64 h = mix(mix(mix(mix((u64)op * 131 + w, (u64)(a ? a->id + 1 : 0)), (u64)(b ? b->id + 1 : 0)), (u64)(c ? c->id + 1 : 0)), lo);
   h = mix(mix(h, (u64)cv), (u64)(cv >> 64));
   size_t m = table.size() - 1, i = h & m;
   while (table[i]) {
      const Expr *x = table[i];
      if (x->h == h && x->op == op && x->w == w && x->k[0] == a && x->k[1] == b && x->k[2] == c && x->lo == lo && x->c == cv) return x;
      i = (i + 1) & m;
   }
   Expr *x = new Expr; x->op = op; x->w = w; x->lo = lo; x->k[0] = a; x->k[1] = b; x->k[2] = c; x->c = cv; x->h = h; x->id = g_nexpr++; x->ep = 0; x->mark = 0; x->ev = 0; x->z = nullptr;
   table[i] = x;
   if (++tableN * 2 > table.size()) {
      std::vector<const Expr *> nt(table.size() * 2, nullptr);
      size_t nm = nt.size() - 1;
      for (auto p : table) if (p) { size_t j = p->h & nm; while (nt[j]) j = (j + 1) & nm; nt[j] = p; }
      table.swap(nt);
   }
   return x;
}
E UNDEF = intern(O_UNDEF, 0, nullptr, nullptr, nullptr, 0, 0);

E mkConst(u128 c, unsigned w) { return intern(O_CONST, w, nullptr, nullptr, nullptr, 0, c & maskw(w)); }
E mkSym(const std::string &name, unsigned w) {
   std::string key = name + "_" + std::to_string(w);
   auto it = symByName.find(key);
   if (it != symByName.end()) return it->second;
   u32 id = g_syms.size(); g_syms.push_back({key, w});
   E e = intern(O_SYM, w, nullptr, nullptr, nullptr, id, 0);
   symByName[key] = e; return e;
}
static bool isC(E e) { return e->op == O_CONST; }

u128 foldBin(Op op, u128 a, u128 b, unsigned w) {
   u128 M = maskw(w);
   switch (op) {
   case O_ADD: return (a + b) & M;
   case O_SUB: return (a - b) & M;
   case O_MUL: return (a * b) & M;
   case O_UDIV: return b ? a / b : M;
   case O_UREM: return b ? a % b : a;
   case O_SDIV: { s128 x = sextw(a, w), y = sextw(b, w); if (!y) return x < 0 ? 1 : M; if (y == -1) return (u128)(0 - (u128)x) & M; return (u128)(x / y) & M; }
   case O_SREM: { s128 x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & M; }
   case O_AND: return a & b;
   case O_OR: return a | b;
   case O_XOR: return a ^ b;
   case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & M;
   case O_LSHR: return b >= w ? 0 : a >> (unsigned)b;
   case O_ASHR: { s128 x = sextw(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & M; }
   case O_EQ: return a == b;
   case O_ULT: return a < b;
   case O_SLT: return sextw(a, w) < sextw(b, w);
   default: abort();
   }
}
E mkNot(E a) {
   if (isC(a)) return mkConst(!a->c, 1);
   if (a->op == O_NOT) return a->k[0];
   return intern(O_NOT, 1, a, nullptr, nullptr, 0, 0);
}
static bool commut(Op op) { return op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ; }
E mkBin(Op op, E a, E b) {
   unsigned w = a->w;
   unsigned rw = (op == O_EQ || op == O_ULT || op == O_SLT) ? 1 : w;
   if (isC(a) && isC(b)) return mkConst(foldBin(op, a->c, b->c, w), rw);
   if (commut(op) && (isC(a) || (!isC(b) && a->id > b->id))) { E t = a; a = b; b = t; }
   u128 M = maskw(w);
   switch (op) {
   case O_ADD:
      if (isC(b) && b->c == 0) return a;
      if (isC(b) && a->op == O_ADD && isC(a->k[1])) return mkBin(O_ADD, a->k[0], mkConst(a->k[1]->c + b->c, w));
      if (w == 1) return mkBin(O_XOR, a, b);
      break;
   case O_SUB:
      if (isC(b)) return b->c == 0 ? a : mkBin(O_ADD, a, mkConst(0 - b->c, w));
      if (a == b) return mkConst(0, w);
      if (w == 1) return mkBin(O_XOR, a, b);
      break;
   case O_MUL:
      if (isC(b) && b->c == 1) return a;
      if (isC(b) && b->c == 0) return b;
      if (w == 1) return mkBin(O_AND, a, b);
      break;
   case O_UDIV: case O_SDIV: if (isC(b) && b->c == 1 && w > 1) return a;
      if (op == O_UDIV && isC(b) && b->c && a->op == O_ZEXT) { unsigned iw = a->k[0]->w; if (b->c >> iw) return mkConst(0, w); return mkZext(mkBin(O_UDIV, a->k[0], mkConst(b->c, iw)), w); } break;
   case O_UREM: if (isC(b) && b->c == 1) return mkConst(0, w);
      if (isC(b) && b->c) { // (zext(q)*c1 + c2) % c3 with c3 | c1 and no overflow
         E m = a; u128 c2 = 0; if (m->op == O_ADD && isC(m->k[1])) { c2 = m->k[1]->c; m = m->k[0]; }
         if (m->op == O_MUL && isC(m->k[1]) && m->k[0]->op == O_ZEXT) { unsigned iw = m->k[0]->k[0]->w; u128 c1 = m->k[1]->c; if (w <= 64 && iw < 32 && c1 && c1 < ((u128)1 << 31) && c1 % b->c == 0 && c2 < ((u128)1 << 62) && w == 64) return mkConst(c2 % b->c, w); } }
      if (isC(b) && b->c && !(b->c & (b->c - 1))) return mkBin(O_AND, a, mkConst(b->c - 1, w));
      if (isC(b) && b->c && a->op == O_ZEXT) { unsigned iw = a->k[0]->w; if (b->c >> iw) return a; return mkZext(mkBin(O_UREM, a->k[0], mkConst(b->c, iw)), w); } break;
   case O_AND:
      if (a == b) return a;
      if (isC(b) && b->c == 0) return b;
      if (isC(b) && b->c == M) return a;
      if (w == 1 && (a == mkNot(b))) return mkConst(0, 1);
      if (isC(b) && a->op == O_AND && isC(a->k[1])) return mkBin(O_AND, a->k[0], mkConst(a->k[1]->c & b->c, w));
      if (isC(b) && a->op == O_ZEXT) { unsigned iw = a->k[0]->w; return mkZext(mkBin(O_AND, a->k[0], mkConst(b->c, iw)), w); }
      if (isC(b) && a->op == O_CONCAT && isC(a->k[1])) { unsigned lw = a->k[1]->w; return mkConcat(mkBin(O_AND, a->k[0], mkConst(b->c >> lw, w - lw)), mkConst(a->k[1]->c & b->c, lw)); }
      break;
   case O_OR:
      if (a == b) return a;
      if (isC(b) && b->c == 0) return a;
      if (isC(b) && b->c == M) return b;
      if (w == 1 && (a == mkNot(b))) return mkConst(1, 1);
      if (isC(b) && a->op == O_CONCAT && isC(a->k[1])) { unsigned lw = a->k[1]->w; return mkConcat(mkBin(O_OR, a->k[0], mkConst(b->c >> lw, w - lw)), mkConst(a->k[1]->c | b->c, lw)); }
      break;
   case O_XOR:
      if (a == b) return mkConst(0, w);
      if (isC(b) && b->c == 0) return a;
      if (w == 1 && isC(b)) return mkNot(a);
      break;
   case O_SHL: case O_LSHR: case O_ASHR:
      if (isC(b) && b->c == 0) return a;
      if (isC(a) && a->c == 0) return a;
      if (op == O_LSHR && isC(b) && b->c < w) return mkZext(mkExtract(a, (unsigned)b->c, w - (unsigned)b->c), w);
      if (op == O_SHL && isC(b) && b->c < w) return mkConcat(mkExtract(a, 0, w - (unsigned)b->c), mkConst(0, (unsigned)b->c));
      break;
   case O_EQ:
      if (a == b) return mkConst(1, 1);
      if (w == 1 && isC(b)) return b->c ? a : mkNot(a);
      if (isC(b)) {
         if (a->op == O_ZEXT) { unsigned iw = a->k[0]->w; if (b->c >> iw) return mkConst(0, 1); return mkBin(O_EQ, a->k[0], mkConst(b->c, iw)); }
         if (a->op == O_MUL && isC(a->k[1]) && a->k[0]->op == O_ZEXT) { u128 m = a->k[1]->c; unsigned iw = a->k[0]->k[0]->w; if (m && iw < 64 && w < 128 && m <= (M >> iw)) { if (b->c % m) return mkConst(0, 1); return mkBin(O_EQ, a->k[0], mkConst(b->c / m, a->w)); } }
         if (a->op == O_ITE && (isC(a->k[1]) || isC(a->k[2]))) {
            return mkIte(a->k[0], mkBin(O_EQ, a->k[1], b), mkBin(O_EQ, a->k[2], b));
         }
         if (a->op == O_ADD && isC(a->k[1])) return mkBin(O_EQ, a->k[0], mkConst(b->c - a->k[1]->c, w));
         if (a->op == O_CONCAT) {
            unsigned lw = a->k[1]->w;
            return mkBin(O_AND, mkBin(O_EQ, a->k[0], mkConst(b->c >> lw, w - lw)), mkBin(O_EQ, a->k[1], mkConst(b->c, lw)));
         }
      } else if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(O_EQ, a->k[0], b->k[0]);
      break;
   case O_ULT:
      if (a == b) return mkConst(0, 1);
      if (isC(b) && b->c == 0) return mkConst(0, 1);
      if (isC(a) && a->c == M) return mkConst(0, 1);
      if (w == 1) return mkBin(O_AND, mkNot(a), b);
      if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkBin(O_ULT, a->k[0], b->k[0]);
      if (a->op == O_ZEXT && isC(b)) { unsigned iw = a->k[0]->w; if (b->c >> iw) return mkConst(1, 1); return mkBin(O_ULT, a->k[0], mkConst(b->c, iw)); }
      if (b->op == O_ZEXT && isC(a)) { unsigned iw = b->k[0]->w; if (a->c >> iw) return mkConst(0, 1); return mkBin(O_ULT, mkConst(a->c, iw), b->k[0]); }
      if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2]) && isC(b)) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
      if (b->op == O_ITE && isC(b->k[1]) && isC(b->k[2]) && isC(a)) return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
      break;
   case O_SLT:
      if (a == b) return mkConst(0, 1);
      // zero-extended values are non-negative
      if (w > 1 && a->op == O_ZEXT && b->op == O_ZEXT) return mkBin(O_ULT, a, b);
      if (w > 1 && a->op == O_ZEXT && isC(b)) { if (b->c >> (w - 1)) return mkConst(0, 1); return mkBin(O_ULT, a, b); }
      if (w > 1 && b->op == O_ZEXT && isC(a)) { if (a->c >> (w - 1)) return mkConst(1, 1); return mkBin(O_ULT, a, b); }
      if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2]) && isC(b)) return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
      if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return mkBin(O_SLT, a->k[0], b->k[0]);
      break;
   default: break;
   }
   return intern(op, rw, a, b, nullptr, 0, 0);
}
E mkIte(E c, E a, E b) {
   if (isC(c)) return c->c ? a : b;
   if (a == b) return a;
   if (c->op == O_NOT) return mkIte(c->k[0], b, a);
   if (a->w == 1) {
      if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
      if (isC(a)) return a->c ? mkBin(O_OR, c, b) : mkBin(O_AND, mkNot(c), b);
      if (isC(b)) return b->c ? mkBin(O_OR, mkNot(c), a) : mkBin(O_AND, c, a);
   }
   return intern(O_ITE, a->w, c, a, b, 0, 0);
}
E mkExtract(E a, unsigned lo, unsigned w) {
   if (lo == 0 && w == a->w) return a;
   if (isC(a)) return mkConst(a->c >> lo, w);
   if (a->op == O_EXTRACT) return mkExtract(a->k[0], a->lo + lo, w);
   if (a->op == O_CONCAT) {
      unsigned lw = a->k[1]->w;
      if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
      if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
      return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
   }
   if (a->op == O_ZEXT) {
      unsigned iw = a->k[0]->w;
      if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
      if (lo >= iw) return mkConst(0, w);
      return mkZext(mkExtract(a->k[0], lo, iw - lo), w);
   }
   if (a->op == O_SEXT && lo + w <= a->k[0]->w) return mkExtract(a->k[0], lo, w);
   if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
   if (a->op == O_AND || a->op == O_OR || a->op == O_XOR) {
      if (isC(a->k[1]) || lo == 0) return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
   }
   return intern(O_EXTRACT, w, a, nullptr, nullptr, lo, 0);
}
E mkConcat(E hi, E lo) {
   unsigned w = hi->w + lo->w;
   if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
   if (isC(hi) && hi->c == 0) return mkZext(lo, w);
   if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && hi->lo == lo->lo + lo->w) return mkExtract(lo->k[0], lo->lo, w);
   if (hi->op == O_EXTRACT && hi->k[0] == lo && hi->lo == lo->w) {}
   if (hi->op == O_CONCAT) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
   return intern(O_CONCAT, w, hi, lo, nullptr, 0, 0);
}
E mkZext(E a, unsigned w) {
   if (w == a->w) return a;
   if (isC(a)) return mkConst(a->c, w);
   if (a->op == O_ZEXT) return mkZext(a->k[0], w);
   if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkConst(a->k[1]->c, w), mkConst(a->k[2]->c, w));
   return intern(O_ZEXT, w, a, nullptr, nullptr, 0, 0);
}
E mkSext(E a, unsigned w) {
   if (w == a->w) return a;
   if (isC(a)) return mkConst((u128)sextw(a->c, a->w), w);
   if (a->op == O_ZEXT) return mkZext(a->k[0], w);
   if (a->op == O_SEXT) return mkSext(a->k[0], w);
   if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkConst((u128)sextw(a->k[1]->c, a->w), w), mkConst((u128)sextw(a->k[2]->c, a->w), w));
   return intern(O_SEXT, w, a, nullptr, nullptr, 0, 0);
}
void newEpoch() { if (++g_epoch == 0) g_epoch = 1; }
u128 evalE(E e, const Model &m) {
   if (e->op == O_CONST) return e->c;
   if (e->op == O_SYM) return e->lo < m.size() ? m[e->lo] & maskw(e->w) : 0;
   if (e->ep == g_epoch) return e->ev;
   u128 r;
   switch (e->op) {
   case O_NOT: r = !evalE(e->k[0], m); break;
   case O_ITE: r = evalE(e->k[0], m) ? evalE(e->k[1], m) : evalE(e->k[2], m); break;
   case O_EXTRACT: r = (evalE(e->k[0], m) >> e->lo) & maskw(e->w); break;
   case O_CONCAT: r = (evalE(e->k[0], m) << e->k[1]->w) | evalE(e->k[1], m); break;
   case O_ZEXT: r = evalE(e->k[0], m); break;
   case O_SEXT: r = (u128)sextw(evalE(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
   default: r = foldBin(e->op, evalE(e->k[0], m), evalE(e->k[1], m), e->k[0]->w); break;
   }
   e->ep = g_epoch; e->ev = r; return r;
}
static Z3_ast hold(Z3_ast a) { Z3_inc_ref(g_z3, a); return a; }
static Z3_ast bvconst(u128 c, unsigned w) {
   if (w <= 64) return Z3_mk_unsigned_int64(g_z3, (u64)c, Z3_mk_bv_sort(g_z3, w));
   Z3_ast hi = Z3_mk_unsigned_int64(g_z3, (u64)(c >> 64), Z3_mk_bv_sort(g_z3, w - 64)); hold(hi);
   Z3_ast lo = Z3_mk_unsigned_int64(g_z3, (u64)c, Z3_mk_bv_sort(g_z3, 64)); hold(lo);
   return Z3_mk_concat(g_z3, hi, lo);
}
// e->z holds Bool for w==1 and BV otherwise
static Z3_ast native(E e);
Z3_ast toBool(E e) { if (e->w != 1) abort(); return native(e); }
Z3_ast toBV(E e) {
   Z3_ast n = native(e);
   if (e->w != 1) return n;
   Z3_ast one = hold(bvconst(1, 1)), zero = hold(bvconst(0, 1));
   return hold(Z3_mk_ite(g_z3, n, one, zero));
}
static Z3_ast native(E e) {
   if (e->z) return e->z;
   Z3_context c = g_z3; Z3_ast r = nullptr;
   bool b1 = e->w == 1;
   switch (e->op) {
   case O_CONST: r = b1 ? (e->c ? Z3_mk_true(c) : Z3_mk_false(c)) : bvconst(e->c, e->w); break;
   case O_SYM: r = Z3_mk_const(c, Z3_mk_string_symbol(c, g_syms[e->lo].name.c_str()), b1 ? Z3_mk_bool_sort(c) : Z3_mk_bv_sort(c, e->w)); break;
   case O_NOT: r = Z3_mk_not(c, toBool(e->k[0])); break;
   case O_ITE: r = Z3_mk_ite(c, toBool(e->k[0]), native(e->k[1]), native(e->k[2])); break;
   case O_EXTRACT: r = Z3_mk_extract(c, e->lo + e->w - 1, e->lo, toBV(e->k[0])); if (b1) { hold(r); r = Z3_mk_eq(c, r, hold(bvconst(1, 1))); } break;
   case O_CONCAT: r = Z3_mk_concat(c, toBV(e->k[0]), toBV(e->k[1])); break;
   case O_ZEXT: if (e->k[0]->w == 1) r = Z3_mk_ite(c, toBool(e->k[0]), hold(bvconst(1, e->w)), hold(bvconst(0, e->w))); else r = Z3_mk_zero_ext(c, e->w - e->k[0]->w, toBV(e->k[0])); break;
   case O_SEXT: if (e->k[0]->w == 1) r = Z3_mk_ite(c, toBool(e->k[0]), hold(bvconst(~(u128)0 & maskw(e->w), e->w)), hold(bvconst(0, e->w))); else r = Z3_mk_sign_ext(c, e->w - e->k[0]->w, toBV(e->k[0])); break;
   case O_EQ: if (e->k[0]->w == 1) r = Z3_mk_iff(c, toBool(e->k[0]), toBool(e->k[1])); else r = Z3_mk_eq(c, native(e->k[0]), native(e->k[1])); break;
   case O_ULT: r = Z3_mk_bvult(c, toBV(e->k[0]), toBV(e->k[1])); break;
   case O_SLT: r = Z3_mk_bvslt(c, toBV(e->k[0]), toBV(e->k[1])); break;
   default: {
      if (b1 && (e->op == O_AND || e->op == O_OR || e->op == O_XOR)) {
         Z3_ast a[2] = {toBool(e->k[0]), toBool(e->k[1])};
         r = e->op == O_AND ? Z3_mk_and(c, 2, a) : e->op == O_OR ? Z3_mk_or(c, 2, a) : Z3_mk_xor(c, a[0], a[1]);
         break;
      }
      Z3_ast a = toBV(e->k[0]), b = toBV(e->k[1]);
      switch (e->op) {
      case O_ADD: r = Z3_mk_bvadd(c, a, b); break;
      case O_SUB: r = Z3_mk_bvsub(c, a, b); break;
      case O_MUL: r = Z3_mk_bvmul(c, a, b); break;
      case O_UDIV: r = Z3_mk_bvudiv(c, a, b); break;
      case O_SDIV: r = Z3_mk_bvsdiv(c, a, b); break;
      case O_UREM: r = Z3_mk_bvurem(c, a, b); break;
      case O_SREM: r = Z3_mk_bvsrem(c, a, b); break;
      case O_AND: r = Z3_mk_bvand(c, a, b); break;
      case O_OR: r = Z3_mk_bvor(c, a, b); break;
      case O_XOR: r = Z3_mk_bvxor(c, a, b); break;
      case O_SHL: r = Z3_mk_bvshl(c, a, b); break;
      case O_LSHR: r = Z3_mk_bvlshr(c, a, b); break;
      case O_ASHR: r = Z3_mk_bvashr(c, a, b); break;
      default: fprintf(stderr, "bad op %d\n", e->op); abort();
      }
      if (b1) { hold(r); r = Z3_mk_eq(c, r, hold(bvconst(1, 1))); }
   }
   }
   hold(r); e->z = r; return r;
}
std::string showE(E e) {
   static const char *n[] = {"const", "sym", "+", "-", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>u", ">>s", "concat", "extract", "zext", "sext", "==", "<u", "<s", "ite", "!", "undef"};
   char b[64];
   if (e->op == O_CONST) { snprintf(b, 64, "%llu", (unsigned long long)e->c); return b; }
   if (e->op == O_SYM) return g_syms[e->lo].name;
   std::string s = "("; s += n[e->op];
   if (e->op == O_EXTRACT) { snprintf(b, 64, "[%u+%u]", e->lo, e->w); s += b; }
   for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + showE(e->k[i]);
   return s + ")";
}
