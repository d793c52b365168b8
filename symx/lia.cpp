// Integer-arithmetic encoding of bit-vector queries whose only arithmetic is by constants (x*c, x/c, x%c, slices, sums).
// Every w-bit value becomes an integer in [0,2^w); wrap-around, division and slicing introduce quotient variables with
// linear side conditions, so the encoding is exact. Used for queries with wide multiplications or divisions by constants,
// where bit-blasting is hopeless (fastmod reduction, prime moduli).
#include "expr.h"
#include <unistd.h>
namespace {
struct Unsup {};
struct Lia {
   Z3_context c = g_z3; Z3_solver s; std::unordered_map<u32, Z3_ast> mi, mb; std::vector<Z3_ast> held; std::vector<std::pair<E, Z3_ast>> syms; std::unordered_map<std::string, Z3_ast> slices;
   Z3_ast h(Z3_ast a) { Z3_inc_ref(c, a); held.push_back(a); return a; }
   Z3_ast num(u128 v) { std::string t; if (!v) t = "0"; while (v) { t.insert(t.begin(), char('0' + (int)(v % 10))); v /= 10; } return h(Z3_mk_numeral(c, t.c_str(), Z3_mk_int_sort(c))); }
   Z3_ast pow2(unsigned n) { if (n < 128) return num((u128)1 << n); Z3_ast a[2] = {num((u128)1 << (n / 2)), num((u128)1 << (n - n / 2))}; if (n > 254) throw Unsup(); return h(Z3_simplify(c, h(Z3_mk_mul(c, 2, a)))); }
   void add(Z3_ast f) { Z3_solver_assert(c, s, h(f)); }
   Z3_ast fresh(Z3_ast bound) { Z3_ast v = h(Z3_mk_fresh_const(c, "i", Z3_mk_int_sort(c))); add(Z3_mk_ge(c, v, num(0))); if (bound) add(Z3_mk_lt(c, v, bound)); return v; }
   Z3_ast plus(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return h(Z3_mk_add(c, 2, x)); }
   Z3_ast times(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return h(Z3_mk_mul(c, 2, x)); }
   void eq(Z3_ast a, Z3_ast b) { add(Z3_mk_eq(c, a, b)); }
   // v = q*m + r with 0 <= r < m
   void divmod(Z3_ast v, Z3_ast m, Z3_ast &q, Z3_ast &r) { r = fresh(m); q = fresh(nullptr); eq(v, plus(times(q, m), r)); }
   Z3_ast I(E e) { auto it = mi.find(e->id); if (it != mi.end()) return it->second; Z3_ast r = mk(e); mi[e->id] = r; return r; }
   Z3_ast mk(E e) {
      if (e->w == 1 && e->op != O_SYM && e->op != O_CONST) return h(Z3_mk_ite(c, B(e), num(1), num(0)));
      switch (e->op) {
      case O_CONST: return num(e->c);
      case O_SYM: { Z3_ast v = fresh(pow2(e->w)); syms.push_back({e, v}); return v; }
      case O_ZEXT: return I(e->k[0]);
      case O_CONCAT: return plus(times(I(e->k[0]), pow2(e->k[1]->w)), I(e->k[1]));
      case O_EXTRACT: { E b = e->k[0]; Z3_ast v = I(b), q = v, r; std::string key = std::to_string(b->id) + "/" + std::to_string(e->lo);
         if (e->lo) { auto it = slices.find(key); if (it != slices.end()) q = it->second; else { divmod(v, pow2(e->lo), q, r); slices[key] = q; } }
         if (e->lo + e->w == b->w) return q; Z3_ast q2; divmod(q, pow2(e->w), q2, r); return r; }
      case O_ADD: { Z3_ast q, r; divmod(plus(I(e->k[0]), I(e->k[1])), pow2(e->w), q, r); return r; }
      case O_SUB: { Z3_ast q, r; Z3_ast x[2] = {plus(I(e->k[0]), pow2(e->w)), I(e->k[1])}; divmod(h(Z3_mk_sub(c, 2, x)), pow2(e->w), q, r); return r; }
      case O_MUL: { E a = e->k[0], b = e->k[1]; if (a->op == O_CONST) std::swap(a, b); if (b->op != O_CONST) throw Unsup(); Z3_ast q, r; divmod(times(I(a), num(b->c)), pow2(e->w), q, r); return r; }
      case O_UDIV: case O_UREM: { if (e->k[1]->op != O_CONST || !e->k[1]->c) throw Unsup(); Z3_ast q, r; divmod(I(e->k[0]), num(e->k[1]->c), q, r); return e->op == O_UDIV ? q : r; }
      case O_AND: { if (e->k[1]->op != O_CONST || (e->k[1]->c & (e->k[1]->c + 1))) throw Unsup(); Z3_ast q, r; divmod(I(e->k[0]), num(e->k[1]->c + 1), q, r); return r; }
      case O_ITE: return h(Z3_mk_ite(c, B(e->k[0]), I(e->k[1]), I(e->k[2])));
      default: throw Unsup();
      }
   }
   Z3_ast B(E e) { auto it = mb.find(e->id); if (it != mb.end()) return it->second; Z3_ast r = mkB(e); mb[e->id] = r; return r; }
   Z3_ast mkB(E e) {
      switch (e->op) {
      case O_CONST: return h(e->c ? Z3_mk_true(c) : Z3_mk_false(c));
      case O_NOT: return h(Z3_mk_not(c, B(e->k[0])));
      case O_AND: case O_OR: { Z3_ast x[2] = {B(e->k[0]), B(e->k[1])}; return h(e->op == O_AND ? Z3_mk_and(c, 2, x) : Z3_mk_or(c, 2, x)); }
      case O_XOR: return h(Z3_mk_xor(c, B(e->k[0]), B(e->k[1])));
      case O_EQ: if (e->k[0]->w == 1) return h(Z3_mk_iff(c, B(e->k[0]), B(e->k[1]))); return h(Z3_mk_eq(c, I(e->k[0]), I(e->k[1])));
      case O_ULT: return h(Z3_mk_lt(c, I(e->k[0]), I(e->k[1])));
      case O_ITE: return h(Z3_mk_ite(c, B(e->k[0]), B(e->k[1]), B(e->k[2])));
      case O_SYM: return h(Z3_mk_eq(c, I(e), num(1)));
      case O_EXTRACT: { E b = e->k[0]; Z3_ast q = I(b), r; if (e->lo) divmod(I(b), pow2(e->lo), q, r); Z3_ast q2; divmod(q, num(2), q2, r); return h(Z3_mk_eq(c, r, num(1))); }
      default: throw Unsup();
      }
   }
};
}
static bool heavyRec(E e, std::unordered_set<u32> &seen) {
   if (!e || !seen.insert(e->id).second) return false;
   if ((e->op == O_MUL && e->w >= 32 && !(e->k[1]->op == O_CONST && !(e->k[1]->c & (e->k[1]->c - 1)))) || ((e->op == O_UREM || e->op == O_UDIV) && e->w >= 24)) return true;
   for (int i = 0; i < 3; i++) if (heavyRec(e->k[i], seen)) return true;
   return false;
}
bool liaHeavy(E e) { static std::unordered_map<u32, bool> memo; auto it = memo.find(e->id); if (it != memo.end()) return it->second; std::unordered_set<u32> seen; bool r = heavyRec(e, seen); memo[e->id] = r; return r; }
// shared subterms without heavy arithmetic, outermost first: replacing them by unconstrained values over-approximates the query
static void sharedTerms(const std::vector<E> &cs, std::vector<E> &out) {
   std::unordered_map<u32, int> parents; std::unordered_set<u32> seen; std::vector<E> st(cs.begin(), cs.end());
   for (E e : cs) seen.insert(e->id);
   while (!st.empty()) { E e = st.back(); st.pop_back(); for (int i = 0; i < 3; i++) if (e->k[i]) { parents[e->k[i]->id]++; if (seen.insert(e->k[i]->id).second) st.push_back(e->k[i]); } }
   seen.clear(); st.assign(cs.begin(), cs.end());
   while (!st.empty()) { E e = st.back(); st.pop_back(); if (!seen.insert(e->id).second || e->op == O_CONST || e->op == O_SYM) continue; if (e->w > 1 && parents[e->id] >= 2 && !liaHeavy(e)) { out.push_back(e); continue; } for (int i = 0; i < 3; i++) if (e->k[i]) st.push_back(e->k[i]); }
}
static int liaSolve1(const std::vector<E> &cs, std::vector<std::pair<E, u128>> &vals, unsigned ms, const std::vector<E> &abs);
// 1 sat (values in vals), 0 unsat, -1 not decided
int liaSolve(const std::vector<E> &cs, std::vector<std::pair<E, u128>> &vals, unsigned ms) {
   std::vector<E> sh; sharedTerms(cs, sh); if (getenv("VP_DBGL")) for (E e : sh) fprintf(stderr, "abs %s\n", showE(e).c_str());
   if (!sh.empty() && liaSolve1(cs, vals, ms, sh) == 0) return 0;
   vals.clear(); return liaSolve1(cs, vals, ms, {});
}
static int liaSolve1(const std::vector<E> &cs, std::vector<std::pair<E, u128>> &vals, unsigned ms, const std::vector<E> &abs) {
   Lia L; L.s = Z3_mk_solver(g_z3); Z3_solver_inc_ref(g_z3, L.s); Z3_params p = Z3_mk_params(g_z3); Z3_params_inc_ref(g_z3, p); Z3_params_set_uint(g_z3, p, Z3_mk_string_symbol(g_z3, "timeout"), ms); Z3_solver_set_params(g_z3, L.s, p);
   int res = -1;
   try { for (E e : abs) L.mi[e->id] = L.fresh(e->op == O_AND && e->k[1]->op == O_CONST ? L.num(e->k[1]->c + 1) : L.pow2(e->w)); for (E e : cs) L.add(L.B(e));
      Z3_lbool q = Z3_solver_check(g_z3, L.s);
      if (q == Z3_L_FALSE) res = 0;
      else if (q == Z3_L_TRUE) { res = 1; Z3_model m = Z3_solver_get_model(g_z3, L.s); Z3_model_inc_ref(g_z3, m);
         for (auto &sv : L.syms) { Z3_ast v = nullptr; if (!Z3_model_eval(g_z3, m, sv.second, true, &v)) { res = -1; break; } Z3_inc_ref(g_z3, v); u128 x = 0; for (const char *z = Z3_get_numeral_string(g_z3, v); *z; z++) x = x * 10 + (*z - '0'); Z3_dec_ref(g_z3, v); vals.push_back({sv.first, x}); }
         Z3_model_dec_ref(g_z3, m); }
      else { // the linked z3 gave up in time: ask the newer release installed beside it
         std::string f = "/tmp/vp_lia_" + std::to_string(getpid()) + ".smt2"; FILE *o = fopen(f.c_str(), "w");
         if (o) { fprintf(o, "%s\n(check-sat)\n", Z3_solver_to_string(g_z3, L.s)); fclose(o); FILE *q2 = popen(("timeout 60 z3-new " + f + " 2>/dev/null").c_str(), "r"); char b[64] = ""; if (q2) { if (!fgets(b, 64, q2)) b[0] = 0; pclose(q2); } unlink(f.c_str()); if (!strncmp(b, "unsat", 5)) res = 0; } }
   } catch (Unsup &) {}
   for (Z3_ast a : L.held) Z3_dec_ref(g_z3, a);
   Z3_params_dec_ref(g_z3, p); Z3_solver_dec_ref(g_z3, L.s); return res;
}
