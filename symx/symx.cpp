// symx: a small KLEE-style symbolic executor for LLVM 18 bitcode, deciding with z3.
// Reads bitcode of a harness compiled from the real headers, explores every feasible path of every
// vp_entry_* function, and asks the solver for each branch side, each assertion and each symbolic address.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <atomic>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
#include <deque>
#include <array>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
using namespace llvm;

// ---------------------------------------------------------------- options
static u64 optMaxSteps = 4000000, optSeed = 1;
static unsigned optWorkers = 8, optSplit = 600, optQTimeout = 120000, optSamples = 24;
static double optDeadline = 600;
static std::string optOut = "symx.json", optTmp = "/tmp", optPrefix = "/repo/include";
static std::vector<std::string> optEntries; static bool optTrace = false;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double tStart;
[[noreturn]] static void fatal(const std::string &m) { fprintf(stderr, "symx: fatal: %s\n", m.c_str()); exit(2); }

// ---------------------------------------------------------------- memory objects
struct SB { E e; u32 off; };                 // symbolic byte: byte `off` of expression e; e==UNDEF: uninitialised
enum Kind : u8 { K_STACK, K_HEAP, K_GLOBAL, K_CONST, K_FUNC, K_EXC };
static const char *kindName[] = {"stack", "heap", "global", "const", "function", "exception"};
struct Obj {
   u32 rc, size; u64 base; Kind kind; u8 allocKind; // allocKind: 1 new 2 new[] 3 malloc
   u8 *bytes; SB *sym;
   std::string *name;
};
static Obj *newObj(u64 base, u32 size, Kind k, bool init0) {
   Obj *o = new Obj; o->rc = 1; o->size = size; o->base = base; o->kind = k; o->allocKind = 0; o->name = nullptr;
   o->bytes = (u8 *)calloc(size ? size : 1, 1); o->sym = nullptr;
   if (!init0 && size) { o->sym = (SB *)malloc(sizeof(SB) * size); for (u32 i = 0; i < size; i++) o->sym[i] = {UNDEF, 0}; }
   return o;
}
static void objUnref(Obj *o) { if (--o->rc == 0) { free(o->bytes); free(o->sym); delete o; } }
static Obj *objClone(const Obj *p) {
   Obj *o = new Obj(*p); o->rc = 1;
   o->bytes = (u8 *)malloc(p->size ? p->size : 1); memcpy(o->bytes, p->bytes, p->size);
   if (p->sym) { o->sym = (SB *)malloc(sizeof(SB) * p->size); memcpy(o->sym, p->sym, sizeof(SB) * p->size); }
   return o;
}
static Val objRead(const Obj *o, u32 off, u32 n) {
   bool anyS = false;
   if (o->sym) for (u32 i = 0; i < n; i++) if (o->sym[off + i].e) { anyS = true; break; }
   if (!anyS) { u128 c = 0; for (u32 i = 0; i < n; i++) c |= (u128)o->bytes[off + i] << (8 * i); return VC(c, 8 * n); }
   const SB *s = o->sym + off;
   bool allU = true; for (u32 i = 0; i < n; i++) if (s[i].e != UNDEF) { allU = false; break; }
   if (allU) { Val v; v.c = 0; v.e = UNDEF; v.w = 8 * n; return v; }
   bool anyU = false; for (u32 i = 0; i < n; i++) if (s[i].e == UNDEF) anyU = true;
   if (!anyU && s[0].e && s[0].off == 0 && s[0].e->w == 8 * n) { bool ok = true; for (u32 i = 1; i < n; i++) if (s[i].e != s[0].e || s[i].off != i) { ok = false; break; } if (ok) return VE(s[0].e); }
   static u64 uctr = 0; E acc = nullptr;
   for (u32 i = 0; i < n; i++) {
      E b;
      if (!s[i].e) b = mkConst(o->bytes[off + i], 8);
      else if (s[i].e == UNDEF) b = mkSym("ub" + std::to_string(uctr++ % 64), 8); // partially uninitialised word
      else b = mkExtract(s[i].e, 8 * s[i].off, 8);
      acc = acc ? mkConcat(b, acc) : b;
   }
   return VE(acc);
}
static void objWrite(Obj *o, u32 off, u32 n, const Val &v) { // o unshared
   if (!v.e) {
      for (u32 i = 0; i < n; i++) o->bytes[off + i] = (u8)(v.c >> (8 * i));
      if (o->sym) for (u32 i = 0; i < n; i++) o->sym[off + i] = {nullptr, 0};
      return;
   }
   if (!o->sym) { o->sym = (SB *)calloc(o->size, sizeof(SB)); }
   if (v.e == UNDEF) { for (u32 i = 0; i < n; i++) o->sym[off + i] = {UNDEF, 0}; return; }
   E e = v.e; if (e->w != 8 * n) e = mkZext(e, 8 * n);
   if (e->op == O_CONCAT || e->op == O_ZEXT) { // split so that concrete/independent parts stay separate
      for (u32 i = 0; i < n; i++) {
         E b = mkExtract(e, 8 * i, 8);
         if (b->op == O_CONST) { o->bytes[off + i] = (u8)b->c; o->sym[off + i] = {nullptr, 0}; }
         else o->sym[off + i] = {e, i};
      }
      return;
   }
   for (u32 i = 0; i < n; i++) o->sym[off + i] = {e, i};
}
// ---------------------------------------------------------------- decoded code
struct Leaf { u32 w, off; bool ptr; };
struct Edge { u32 tgt; std::vector<std::pair<int, int>> moves; };
struct CFunc;
struct GepIdx { int op; u32 w; u64 scale; };
struct LP { bool cleanup; std::vector<std::pair<int, std::vector<u64>>> clauses; }; // first: 0 catch 1 filter
struct DI {
   u16 op = 0, sub = 0; u32 w = 0, w2 = 0; int dst = -1; u32 n = 0; u64 imm = 0;
   std::vector<int> ops;
   std::vector<Leaf> leaves;
   std::vector<GepIdx> gep;
   std::vector<Edge> edges;
   std::vector<u128> cases;
   std::vector<u32> byval; // per arg: size or 0
   std::vector<u32> offs; // arg leaf counts
   CFunc *callee = nullptr; int ext = -1; bool fconst = false;
   LP *lp = nullptr;
   const Instruction *I = nullptr;
   bool seen = false;
};
struct CFunc { const Function *F; std::string name; u32 nslots; u32 nargs; std::vector<u32> argSlots; std::vector<DI> code; bool decoded = false; bool nounwind; };

struct Frame { u32 rc; CFunc *f; std::vector<Val> regs; u32 pc; std::vector<u64> allocas; };
struct MemEnt { u64 base; Obj *o; };
struct ExcInfo { u64 addr, tinfo; int handlers; bool rethrown; };
struct InRec { E e; u64 c; u32 w; u8 kind; };
struct State {
   std::vector<Frame *> st; std::vector<MemEnt> mem; u64 nextAddr;
   std::vector<E> pc, implied; Model model;
   u64 steps = 0; u32 nsym = 0, nundef = 0, nconc = 0; int entry = 0; u32 depth = 0; u32 heapLive = 0;
   std::vector<InRec> inputs; std::vector<Val> obs;
   std::vector<ExcInfo> excs; std::vector<u64> caught; u64 lpExc = 0; u32 lpSel = 0; bool expectAssert = false;
   State() {}
   State(const State &o) = default;
   State *clone() const { State *n = new State(*this); for (auto f : n->st) f->rc++; for (auto &m : n->mem) m.o->rc++; return n; }
   ~State() { for (auto f : st) if (--f->rc == 0) delete f; for (auto &m : mem) objUnref(m.o); }
   Frame *top() { Frame *f = st.back(); if (f->rc > 1) { Frame *n = new Frame(*f); n->rc = 1; f->rc--; st.back() = n; f = n; } return f; }
};

// ---------------------------------------------------------------- results
struct Viol { int entry; std::string kind, msg, where; std::vector<std::string> stack; std::vector<InRec> in; Model m; };
struct Sample { int entry; std::vector<InRec> in; Model m; std::vector<u128> obs; bool expected; };
struct EntryStat { u64 paths = 0, assumed = 0, expected = 0; };
struct Result {
   std::vector<EntryStat> es; std::map<std::string, u64> labels, labelsSym, reaches;
   std::vector<Viol> viols; std::vector<Sample> samples; u64 seenLeaves = 0;
   u64 coreHits = 0, guessHits = 0, queries = 0, qsat = 0, qunsat = 0, asserts = 0, assertQ = 0, branches = 0, forks = 0, instr = 0, modelHits = 0, maxq = 0; double solver = 0;
   std::string error; u64 pending = 0;
} R;
struct Shared { std::atomic<u64> next; std::atomic<u64> viols; std::atomic<int> stop; std::atomic<u64> tViol; };
static Shared *sh;

// ---------------------------------------------------------------- module level
static LLVMContext *CTX; static Module *M; static const DataLayout *DL;
static std::vector<std::string> entryNames; static std::vector<CFunc *> entryFns;
static std::unordered_map<const Function *, CFunc *> funcs;
static std::unordered_map<const GlobalValue *, u64> gaddr;
static std::vector<MemEnt> cmem; // constants and functions
static std::map<u64, const Function *> fnAt;
static std::map<u64, u32> typeIdx;
static u64 cNext = 0x100000, fNext = 0x40000000ULL;
static const u64 DYN_BASE = 0x100000000ULL;
static std::vector<std::pair<const GlobalVariable *, u64>> mutGlobals;

enum Ext { X_NONE, X_NOP, X_NEW, X_NEWA, X_MALLOC, X_CALLOC, X_DEL, X_DELA, X_FREE, X_MEMCPY, X_MEMSET, X_MEMCMP, X_BCMP, X_STRLEN, X_ABORT, X_TERMINATE, X_PUREV, X_CXA_ALLOC, X_CXA_FREE, X_CXA_THROW, X_CXA_BEGIN, X_CXA_END, X_CXA_RETHROW, X_ATEXIT, X_GUARD_ACQ, X_GUARD_REL, X_THROWLIB,
   X_SYM, X_CHOOSE, X_ASSUME, X_ASSERT, X_OBSERVE, X_REACH, X_EXPECT, X_FAIL, X_IASSERT, X_LIVE, X_CONC, X_UNREACH, X_NATIVE,
   X_CTLZ, X_CTTZ, X_CTPOP, X_BSWAP, X_UMIN, X_UMAX, X_SMIN, X_SMAX, X_ABS, X_FSHL, X_FSHR, X_OVF, X_USUBSAT, X_UADDSAT, X_OBJSIZE, X_ISCONST, X_TRAP, X_TYPEID, X_EXPECTI, X_ASSUMEI, X_STACKSAVE, X_PTRMASK, X_FABS, X_SQRT, X_FMA, X_FLOORF, X_UNSUP, X_VPASSERTCALL, X_LOG, X_POW, X_LOG2, X_LOG10, X_EXP, X_FLOOR, X_CEIL, X_FTRUNC, X_ROUND, X_FMIN, X_FMAX };
static std::map<std::string, int> extTab = {
   {"_Znwm", X_NEW}, {"_ZnwmRKSt9nothrow_t", X_NEW}, {"_ZnwmSt11align_val_t", X_NEW}, {"_Znam", X_NEWA}, {"_ZnamRKSt9nothrow_t", X_NEWA}, {"malloc", X_MALLOC}, {"calloc", X_CALLOC},
   {"_ZdlPv", X_DEL}, {"_ZdlPvm", X_DEL}, {"_ZdlPvmSt11align_val_t", X_DEL}, {"_ZdlPvSt11align_val_t", X_DEL}, {"_ZdaPv", X_DELA}, {"_ZdaPvm", X_DELA}, {"free", X_FREE},
   {"memcpy", X_MEMCPY}, {"memmove", X_MEMCPY}, {"memset", X_MEMSET}, {"memcmp", X_MEMCMP}, {"bcmp", X_BCMP}, {"strlen", X_STRLEN}, {"abort", X_ABORT}, {"_ZSt9terminatev", X_TERMINATE}, {"__cxa_pure_virtual", X_PUREV},
   {"__cxa_allocate_exception", X_CXA_ALLOC}, {"__cxa_free_exception", X_CXA_FREE}, {"__cxa_throw", X_CXA_THROW}, {"__cxa_begin_catch", X_CXA_BEGIN}, {"__cxa_end_catch", X_CXA_END}, {"__cxa_rethrow", X_CXA_RETHROW},
   {"__cxa_atexit", X_ATEXIT}, {"__cxa_guard_acquire", X_GUARD_ACQ}, {"__cxa_guard_release", X_GUARD_REL}, {"__cxa_guard_abort", X_NOP}, {"log", X_LOG}, {"pow", X_POW}, {"sqrt", X_SQRT}, {"sqrtf", X_SQRT}, {"logf", X_LOG}, {"powf", X_POW}, {"log2", X_LOG2}, {"log2f", X_LOG2}, {"log10", X_LOG10}, {"log10f", X_LOG10}, {"exp", X_EXP}, {"expf", X_EXP}, {"floor", X_FLOOR}, {"floorf", X_FLOOR}, {"ceil", X_CEIL}, {"ceilf", X_CEIL}, {"trunc", X_FTRUNC}, {"truncf", X_FTRUNC}, {"round", X_ROUND}, {"roundf", X_ROUND}, {"fmin", X_FMIN}, {"fminf", X_FMIN}, {"fmax", X_FMAX}, {"fmaxf", X_FMAX}, {"fabs", X_FABS}, {"fabsf", X_FABS},
   {"vp_sym_raw", X_SYM}, {"vp_choose", X_CHOOSE}, {"vp_assume_", X_ASSUME}, {"vp_assert_", X_ASSERT}, {"vp_observe", X_OBSERVE}, {"vp_reach", X_REACH}, {"vp_expect_assert", X_EXPECT}, {"vp_fail", X_FAIL}, {"vp_internal_assert", X_IASSERT}, {"vp_live", X_LIVE}, {"vp_conc", X_CONC}};

static int intrinsicExt(const IntrinsicInst *II) {
   switch (II->getIntrinsicID()) {
   case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return X_MEMCPY;
   case Intrinsic::memset: case Intrinsic::memset_inline: return X_MEMSET;
   case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
   case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::invariant_end: return X_NOP;
   case Intrinsic::assume: return X_ASSUMEI;
   case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation: case Intrinsic::annotation: return X_EXPECTI;
   case Intrinsic::ctlz: return X_CTLZ; case Intrinsic::cttz: return X_CTTZ; case Intrinsic::ctpop: return X_CTPOP; case Intrinsic::bswap: return X_BSWAP;
   case Intrinsic::umin: return X_UMIN; case Intrinsic::umax: return X_UMAX; case Intrinsic::smin: return X_SMIN; case Intrinsic::smax: return X_SMAX; case Intrinsic::abs: return X_ABS;
   case Intrinsic::fshl: return X_FSHL; case Intrinsic::fshr: return X_FSHR;
   case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: return X_OVF;
   case Intrinsic::usub_sat: return X_USUBSAT; case Intrinsic::uadd_sat: return X_UADDSAT;
   case Intrinsic::objectsize: return X_OBJSIZE; case Intrinsic::is_constant: return X_ISCONST; case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: return X_TRAP;
   case Intrinsic::eh_typeid_for: return X_TYPEID; case Intrinsic::stacksave: return X_STACKSAVE; case Intrinsic::ptrmask: return X_PTRMASK; case Intrinsic::invariant_start: return X_STACKSAVE;
   case Intrinsic::fabs: return X_FABS; case Intrinsic::sqrt: return X_SQRT; case Intrinsic::fmuladd: case Intrinsic::fma: return X_FMA; case Intrinsic::log: return X_LOG; case Intrinsic::log2: return X_LOG2; case Intrinsic::log10: return X_LOG10; case Intrinsic::exp: return X_EXP; case Intrinsic::floor: return X_FLOOR; case Intrinsic::ceil: return X_CEIL; case Intrinsic::trunc: return X_FTRUNC; case Intrinsic::round: return X_ROUND; case Intrinsic::minnum: return X_FMIN; case Intrinsic::maxnum: return X_FMAX; case Intrinsic::pow: return X_POW;
   default: return X_UNSUP;
   }
}

static void leavesOf(Type *T, u64 off, std::vector<Leaf> &out) {
   if (T->isVoidTy()) return;
   if (auto *S = dyn_cast<StructType>(T)) { auto *L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) leavesOf(S->getElementType(i), off + L->getElementOffset(i), out); return; }
   if (auto *A = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(A->getElementType()); for (u64 i = 0; i < A->getNumElements(); i++) leavesOf(A->getElementType(), off + i * es, out); return; }
   if (auto *V = dyn_cast<FixedVectorType>(T)) { u64 eb = DL->getTypeSizeInBits(V->getElementType()); if (eb % 8) fatal("vector of non-byte elements"); for (u64 i = 0; i < V->getNumElements(); i++) leavesOf(V->getElementType(), off + i * eb / 8, out); return; }
   u32 w; bool p = false;
   if (T->isPointerTy()) { w = 64; p = true; }
   else if (T->isIntegerTy()) w = T->getIntegerBitWidth();
   else if (T->isFloatTy()) w = 32; else if (T->isDoubleTy()) w = 64;
   else if (T->isX86_FP80Ty()) w = 80;
   else if (T->isTokenTy() || T->isMetadataTy() || T->isLabelTy()) return;
   else { std::string s; raw_string_ostream os(s); T->print(os); fatal("unsupported type " + s); }
   if (w > 128) fatal("integer wider than 128 bits");
   out.push_back({w, (u32)off, p});
}
static std::vector<Leaf> leavesT(Type *T) { std::vector<Leaf> v; leavesOf(T, 0, v); return v; }
static u32 nleaves(Type *T) { return leavesT(T).size(); }
static u64 addrOf(const GlobalValue *G);
static CFunc *getFunc(const Function *F) {
   auto &p = funcs[F];
   if (!p) { p = new CFunc; p->F = F; p->name = F->getName().str(); p->nounwind = F->doesNotThrow(); }
   return p;
}
static Val undefVal(unsigned w) { Val v; v.c = 0; v.e = UNDEF; v.w = w; return v; }
static void constLeaves(const Constant *C, std::vector<Val> &out);
static Val constScalar(const Constant *C) { std::vector<Val> v; constLeaves(C, v); if (v.size() != 1) fatal("constScalar"); return v[0]; }
static Val foldBinOpc(unsigned opc, const Val &a, const Val &b);
static void constLeaves(const Constant *C, std::vector<Val> &out) {
   Type *T = C->getType();
   if (isa<UndefValue>(C)) { for (auto &l : leavesT(T)) out.push_back(undefVal(l.w)); return; } // includes poison
   if (auto *I = dyn_cast<ConstantInt>(C)) { u32 w = I->getBitWidth(); const APInt &A = I->getValue(); u128 c = A.getRawData()[0]; if (w > 64) c |= (u128)A.getRawData()[1] << 64; out.push_back(VC(c, w)); return; }
   if (auto *F = dyn_cast<ConstantFP>(C)) { APInt A = F->getValueAPF().bitcastToAPInt(); u128 c = A.getRawData()[0]; if (A.getBitWidth() > 64) c |= (u128)A.getRawData()[1] << 64; out.push_back(VC(c, A.getBitWidth())); return; }
   if (isa<ConstantPointerNull>(C)) { out.push_back(VC(0, 64)); return; }
   if (isa<ConstantAggregateZero>(C)) { for (auto &l : leavesT(T)) out.push_back(VC(0, l.w)); return; }
   if (auto *A = dyn_cast<ConstantAggregate>(C)) { for (auto &op : A->operands()) constLeaves(cast<Constant>(op), out); return; }
   if (auto *D = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < D->getNumElements(); i++) constLeaves(D->getElementAsConstant(i), out); return; }
   if (auto *G = dyn_cast<GlobalValue>(C)) { out.push_back(VC(addrOf(G), 64)); return; }
   if (auto *X = dyn_cast<ConstantExpr>(C)) {
      switch (X->getOpcode()) {
      case Instruction::GetElementPtr: {
         auto *G = cast<GEPOperator>(X); Val b = constScalar(cast<Constant>(G->getPointerOperand())); APInt off(64, 0);
         if (!G->accumulateConstantOffset(*DL, off)) fatal("constant gep"); out.push_back(VC(b.c + off.getZExtValue(), 64)); return; }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: constLeaves(X->getOperand(0), out); return;
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: { Val v = constScalar(X->getOperand(0)); out.push_back(VC(v.c, leavesT(T)[0].w)); return; }
      default: {
         if (X->getNumOperands() == 2) { Val a = constScalar(X->getOperand(0)), b = constScalar(X->getOperand(1));
            if (X->getOpcode() == Instruction::ICmp) { u128 r; switch (X->getPredicate()) { case CmpInst::ICMP_EQ: r = a.c == b.c; break; case CmpInst::ICMP_NE: r = a.c != b.c; break; case CmpInst::ICMP_ULT: r = a.c < b.c; break; case CmpInst::ICMP_UGT: r = a.c > b.c; break; default: fatal("const icmp"); } out.push_back(VC(r, 1)); return; }
            out.push_back(foldBinOpc(X->getOpcode(), a, b)); return; }
      } }
   }
   std::string s; raw_string_ostream os(s); C->print(os); fatal("unsupported constant " + s);
}
static void writeInit(Obj *o, const Constant *C) {
   std::vector<Leaf> l = leavesT(C->getType()); std::vector<Val> v; constLeaves(C, v);
   for (size_t i = 0; i < l.size(); i++) { if (v[i].e == UNDEF) v[i] = VC(0, l[i].w); objWrite(o, l[i].off, (l[i].w + 7) / 8, v[i]); }
}
static u64 addrOf(const GlobalValue *G) {
   if (auto *A = dyn_cast<GlobalAlias>(G)) return constScalar(A->getAliasee()).c;
   auto it = gaddr.find(G); if (it != gaddr.end()) return it->second;
   if (auto *F = dyn_cast<Function>(G)) { u64 a = fNext; fNext += 64; gaddr[G] = a; fnAt[a] = F; return a; }
   auto *V = cast<GlobalVariable>(G);
   u64 size = V->getValueType()->isSized() ? DL->getTypeAllocSize(V->getValueType()) : 8; if (!V->hasInitializer() && size < 8) size = 8;
   u64 al = std::max<u64>(16, V->getAlign() ? V->getAlign()->value() : 16);
   bool ro = V->isConstant() || !V->hasInitializer();
   if (ro) {
      cNext = (cNext + al - 1) / al * al; u64 a = cNext; cNext += size + 32; gaddr[G] = a;
      Obj *o = newObj(a, size, K_CONST, true); o->name = new std::string(V->getName().str()); cmem.push_back({a, o});
      if (V->hasInitializer()) writeInit(o, V->getInitializer());
      return a;
   }
   fatal("late mutable global " + V->getName().str());
}

// ---------------------------------------------------------------- decoding
struct Decoder {
   CFunc *cf; std::unordered_map<const Value *, int> slot; std::vector<Val> *consts; std::unordered_map<const Constant *, int> cslot;
   int op(const Value *v) {
      auto it = slot.find(v); if (it != slot.end()) return it->second;
      if (auto *C = dyn_cast<Constant>(v)) {
         auto jt = cslot.find(C); if (jt != cslot.end()) return jt->second;
         std::vector<Val> l; constLeaves(C, l); int idx = ~(int)consts->size(); for (auto &x : l) consts->push_back(x); cslot[C] = idx; return idx;
      }
      return 0;
   }
};
static std::vector<Val> constPool;
static void decode(CFunc *cf) {
   if (cf->decoded) return; cf->decoded = true;
   const Function *F = cf->F; Decoder D; D.cf = cf; D.consts = &constPool;
   u32 ns = 0;
   for (auto &A : F->args()) { D.slot[&A] = ns; cf->argSlots.push_back(ns); ns += std::max<u32>(1, nleaves(A.getType())); }
   std::unordered_map<const BasicBlock *, u32> start; u32 pc = 0;
   for (auto &B : *F) { start[&B] = pc; for (auto &I : B) { if (isa<PHINode>(I)) { D.slot[&I] = ns; ns += nleaves(I.getType()); continue; } if (isa<DbgInfoIntrinsic>(I)) continue; if (!I.getType()->isVoidTy()) { D.slot[&I] = ns; ns += std::max<u32>(1, nleaves(I.getType())); } pc++; } }
   cf->nslots = ns; cf->code.resize(pc); pc = 0;
   auto mkEdge = [&](const BasicBlock *from, const BasicBlock *to) {
      Edge e; e.tgt = start[to];
      for (auto &P : to->phis()) { u32 n = nleaves(P.getType()); int d = D.slot[&P], s = D.op(P.getIncomingValueForBlock(from)); for (u32 i = 0; i < n; i++) e.moves.push_back({d + (int)i, s >= 0 ? s + (int)i : s - (int)i}); }
      return e;
   };
   for (auto &B : *F) for (auto &I : B) {
      if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
      DI &d = cf->code[pc++]; d.I = &I; d.op = I.getOpcode();
      auto sl = D.slot.find(&I); d.dst = sl == D.slot.end() ? -1 : sl->second;
      std::vector<Leaf> rl = leavesT(I.getType()); d.n = rl.size(); d.w = d.n ? rl[0].w : 0;
      if (I.getType()->isVectorTy() && !isa<LoadInst>(I) && !isa<SelectInst>(I) && !isa<CallBase>(I) && !isa<ShuffleVectorInst>(I) && !isa<InsertElementInst>(I) && !isa<BinaryOperator>(I) && !isa<CmpInst>(I) && !isa<CastInst>(I) && !isa<FreezeInst>(I)) { d.op = 9999; continue; }
      if (auto *L = dyn_cast<LoadInst>(&I)) { d.ops = {D.op(L->getPointerOperand())}; d.leaves = rl; }
      else if (auto *S = dyn_cast<StoreInst>(&I)) { d.ops = {D.op(S->getPointerOperand()), D.op(S->getValueOperand())}; d.leaves = leavesT(S->getValueOperand()->getType()); }
      else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
         d.ops = {D.op(G->getPointerOperand())}; u64 off = 0;
         for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
            if (StructType *ST = it.getStructTypeOrNull()) { off += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue()); continue; }
            u64 sc = DL->getTypeAllocSize(it.getIndexedType());
            if (auto *C = dyn_cast<ConstantInt>(it.getOperand())) off += sc * (u64)C->getSExtValue();
            else d.gep.push_back({D.op(it.getOperand()), it.getOperand()->getType()->getIntegerBitWidth(), sc});
         }
         d.imm = off;
      }
      else if (auto *A = dyn_cast<AllocaInst>(&I)) { d.ops = {D.op(A->getArraySize())}; d.imm = DL->getTypeAllocSize(A->getAllocatedType()); d.sub = A->getAlign().value(); }
      else if (auto *Br = dyn_cast<BranchInst>(&I)) { if (Br->isConditional()) d.ops = {D.op(Br->getCondition())}; for (unsigned i = 0; i < Br->getNumSuccessors(); i++) d.edges.push_back(mkEdge(&B, Br->getSuccessor(i))); }
      else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
         d.ops = {D.op(Sw->getCondition())}; d.w = Sw->getCondition()->getType()->getIntegerBitWidth(); d.edges.push_back(mkEdge(&B, Sw->getDefaultDest()));
         for (auto &c : Sw->cases()) { d.cases.push_back(constScalar(c.getCaseValue()).c); d.edges.push_back(mkEdge(&B, c.getCaseSuccessor())); }
      }
      else if (isa<ReturnInst>(I)) { if (I.getNumOperands()) { d.ops = {D.op(I.getOperand(0))}; d.n = nleaves(I.getOperand(0)->getType()); } }
      else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
         Type *T = EV->getAggregateOperand()->getType(); u32 o = 0;
         for (unsigned ix : EV->indices()) { if (auto *ST = dyn_cast<StructType>(T)) { for (unsigned i = 0; i < ix; i++) o += nleaves(ST->getElementType(i)); T = ST->getElementType(ix); } else { auto *AT = cast<ArrayType>(T); T = AT->getElementType(); o += ix * nleaves(T); } }
         int b = D.op(EV->getAggregateOperand()); d.ops = {b >= 0 ? b + (int)o : b - (int)o};
      }
      else if (auto *IV = dyn_cast<InsertValueInst>(&I)) {
         Type *T = IV->getAggregateOperand()->getType(); u32 o = 0;
         for (unsigned ix : IV->indices()) { if (auto *ST = dyn_cast<StructType>(T)) { for (unsigned i = 0; i < ix; i++) o += nleaves(ST->getElementType(i)); T = ST->getElementType(ix); } else { auto *AT = cast<ArrayType>(T); T = AT->getElementType(); o += ix * nleaves(T); } }
         d.ops = {D.op(IV->getAggregateOperand()), D.op(IV->getInsertedValueOperand())}; d.imm = o; d.w2 = nleaves(T);
      }
      else if (auto *LPI = dyn_cast<LandingPadInst>(&I)) {
         d.lp = new LP; d.lp->cleanup = LPI->isCleanup();
         for (unsigned i = 0; i < LPI->getNumClauses(); i++) { if (LPI->isCatch(i)) d.lp->clauses.push_back({0, {(u64)constScalar(LPI->getClause(i)).c}}); else { std::vector<Val> v; constLeaves(LPI->getClause(i), v); std::vector<u64> t; for (auto &x : v) t.push_back(x.c); d.lp->clauses.push_back({1, t}); } }
      }
      else if (auto *CB = dyn_cast<CallBase>(&I)) {
         const Value *cv = CB->getCalledOperand()->stripPointerCasts(); const Function *cf2 = dyn_cast<Function>(cv);
         if (auto *GA = dyn_cast<GlobalAlias>(cv)) cf2 = dyn_cast<Function>(GA->getAliasee()->stripPointerCasts());
         bool isIntr = cf2 && cf2->isIntrinsic();
         for (unsigned i = 0; i < CB->arg_size(); i++) {
            const Value *a = CB->getArgOperand(i); if (a->getType()->isMetadataTy()) { d.ops.push_back(0); d.offs.push_back(0); d.byval.push_back(0); continue; }
            d.ops.push_back(D.op(a)); d.offs.push_back(nleaves(a->getType()));
            d.byval.push_back(CB->isByValArgument(i) ? (u32)DL->getTypeAllocSize(CB->getParamByValType(i)) : 0);
         }
         if (auto *Inv = dyn_cast<InvokeInst>(CB)) { d.edges.push_back(mkEdge(&B, Inv->getNormalDest())); d.edges.push_back(mkEdge(&B, Inv->getUnwindDest())); }
         else if (isa<CallBrInst>(CB)) { d.op = 9999; continue; }
         d.op = isa<InvokeInst>(CB) ? (unsigned)Instruction::Invoke : (unsigned)Instruction::Call;
         if (cf2) {
            std::string nm = cf2->getName().str();
            auto it = extTab.find(nm);
            if (it != extTab.end()) d.ext = it->second;
            else if (isIntr) { d.ext = intrinsicExt(cast<IntrinsicInst>(CB)); d.sub = cf2->getIntrinsicID(); if (CB->arg_size() && CB->getArgOperand(0)->getType()->isIntegerTy()) d.w2 = CB->getArgOperand(0)->getType()->getIntegerBitWidth(); }
            else if (cf2->isDeclaration()) { d.ext = nm.find("_ZSt") == 0 && nm.find("__throw") != std::string::npos ? X_THROWLIB : X_UNSUP; }
            else d.callee = getFunc(cf2);
            if (!isIntr) d.fconst = false;
         } else if (CB->isInlineAsm()) { auto *IA = cast<InlineAsm>(CB->getCalledOperand()); if (IA->getAsmString().empty() && CB->getType()->isVoidTy()) d.ext = X_NOP; else d.ext = X_UNSUP; }
         else { d.ops.push_back(D.op(CB->getCalledOperand())); d.imm = 1; }
      }
      else if (auto *C = dyn_cast<CmpInst>(&I)) { d.ops = {D.op(C->getOperand(0)), D.op(C->getOperand(1))}; d.sub = C->getPredicate(); d.leaves = leavesT(C->getOperand(0)->getType()); d.w2 = d.leaves[0].w; }
      else if (auto *Sel = dyn_cast<SelectInst>(&I)) { d.ops = {D.op(Sel->getCondition()), D.op(Sel->getTrueValue()), D.op(Sel->getFalseValue())}; d.leaves = rl; d.sub = Sel->getCondition()->getType()->isVectorTy(); }
      else if (auto *CI = dyn_cast<CastInst>(&I)) { d.ops = {D.op(CI->getOperand(0))}; d.leaves = leavesT(CI->getOperand(0)->getType()); d.w2 = d.leaves[0].w; if (d.leaves.size() != rl.size()) d.op = 9999; }
      else if (auto *RMW = dyn_cast<AtomicRMWInst>(&I)) { d.ops = {D.op(RMW->getPointerOperand()), D.op(RMW->getValOperand())}; d.sub = RMW->getOperation(); }
      else if (auto *SV = dyn_cast<ShuffleVectorInst>(&I)) { int a = D.op(SV->getOperand(0)), b = D.op(SV->getOperand(1)); int n = cast<FixedVectorType>(SV->getOperand(0)->getType())->getNumElements(); for (int m : SV->getShuffleMask()) { if (m < 0) m = 0; int base = m < n ? a : b; int k = m < n ? m : m - n; d.ops.push_back(base >= 0 ? base + k : base - k); } }
      else if (isa<ExtractElementInst>(I) || isa<InsertElementInst>(I)) { for (auto &o : I.operands()) d.ops.push_back(D.op(o)); d.w2 = isa<InsertElementInst>(I) ? rl.size() : nleaves(I.getOperand(0)->getType()); }
      else { for (auto &o : I.operands()) if (!isa<BasicBlock>(o)) d.ops.push_back(D.op(o)); }
   }
}

// ---------------------------------------------------------------- solver
static Z3_solver solver; static std::unordered_map<u32, Z3_ast> sel; static std::unordered_map<u32, std::vector<std::vector<E>>> cores;
static std::deque<Model> ring; static const size_t RING = 24;
static void solverInit() {
   Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
   g_z3 = Z3_mk_context_rc(cfg); Z3_del_config(cfg);
   solver = Z3_mk_solver_for_logic(g_z3, Z3_mk_string_symbol(g_z3, "QF_BV")); Z3_solver_inc_ref(g_z3, solver);
   Z3_params p = Z3_mk_params(g_z3); Z3_params_inc_ref(g_z3, p); Z3_params_set_uint(g_z3, p, Z3_mk_string_symbol(g_z3, "timeout"), optQTimeout); Z3_solver_set_params(g_z3, solver, p); Z3_params_dec_ref(g_z3, p);
}
static void collectSyms(E e, std::unordered_set<u32> &seen, std::vector<E> &out) {
   if (e->op == O_CONST || !seen.insert(e->id).second) return;
   if (e->op == O_SYM) { out.push_back(e); return; }
   for (int i = 0; i < 3; i++) if (e->k[i]) collectSyms(e->k[i], seen, out);
}
static std::unordered_map<u32, std::vector<u32>> symSets;
static const std::vector<u32> &symsOf(E e) { auto it = symSets.find(e->id); if (it != symSets.end()) return it->second; std::unordered_set<u32> seen; std::vector<E> sy; collectSyms(e, seen, sy); std::vector<u32> r; for (E x : sy) r.push_back((u32)x->lo); return symSets.emplace(e->id, r).first->second; }

// Guess a model for queries made of order and equality constraints between terms of one symbol each.
// Only ever used to answer "satisfiable", and only after every conjunct has been evaluated under the guess.
struct Atom { int sym; E e, base; std::vector<u8> vals, inv, tab; bool wide, mono; }; // sym -1: not usable
static std::unordered_map<u32, Atom> atoms;
static const Atom &atomOf(E e) {
   auto it = atoms.find(e->id); if (it != atoms.end()) return it->second;
   Atom a; a.sym = -1; a.e = e; a.base = e; a.wide = false; a.mono = false;
   if (e->op == O_SYM) { a.sym = (int)e->lo; a.wide = e->w > 8; }
   else { std::unordered_set<u32> seen; std::vector<E> sy; collectSyms(e, seen, sy); if (sy.size() == 1 && sy[0]->w <= 8) { a.sym = (int)sy[0]->lo; a.base = sy[0]; } }
   if (a.sym >= 0 && !a.wide) {
      unsigned w = g_syms[a.sym].w; Model m(g_syms.size(), 0); std::map<u64, u8> t; bool ok = true; a.mono = true;
      for (unsigned v = 0; v < (1u << w); v++) { m[a.sym] = v; u128 r = evalFresh(e, m); if (r > 255) { ok = false; break; } if (v && r < a.tab.back()) a.mono = false; a.tab.push_back((u8)r); t.emplace((u64)r, (u8)v); }
      if (!ok) a.sym = -1; else for (auto &q : t) { a.vals.push_back((u8)q.first); a.inv.push_back(q.second); }
   }
   return atoms.emplace(e->id, std::move(a)).first->second;
}
static bool guessModel(const std::vector<E> &pc, E extra, Model &out, const Model &base) {
   struct Node { const Atom *a; u64 lo, hi, val; int indeg; bool done; };
   static std::vector<Node> nd; static std::vector<std::array<int, 3>> ed; static std::vector<std::pair<int, int>> ne; nd.clear(); ed.clear(); ne.clear();
   static std::vector<std::pair<int, u64>> neC; neC.clear(); static std::vector<std::pair<u32, int>> force; force.clear();
   auto node = [&](E e) -> int { const Atom &a = atomOf(e); if (a.sym < 0) return -1; for (size_t i = 0; i < nd.size(); i++) if (nd[i].a == &a) return i;
      for (auto &x : nd) if (x.a->sym == a.sym && (!a.mono || !x.a->mono)) return -2;
      Node n; n.a = &a; n.lo = 0; n.hi = e->w >= 64 ? ~0ull : (1ull << e->w) - 1; n.val = 0; n.indeg = 0; n.done = false; nd.push_back(n); return (int)nd.size() - 1; };
   auto add = [&](E c) -> bool {
      bool neg = false; if (c->op == O_NOT) { neg = true; c = c->k[0]; }
      if (c->op == O_SYM && c->w == 1) { force.push_back({(u32)c->lo, neg ? 0 : 1}); return true; }
      if (c->op == O_EXTRACT || c->op == O_SYM) return true; // left to the verification
      if (c->op != O_ULT && c->op != O_EQ) return true;
      E x = c->k[0], y = c->k[1]; if (x->w > 64) return false;
      if (x->op == O_CONST || y->op == O_CONST) {
         bool cl = x->op == O_CONST; E v = cl ? y : x; u64 k = (u64)(cl ? x->c : y->c); int i = -1; if (v->op == O_SYM) i = node(v); else for (size_t q = 0; q < nd.size(); q++) if (nd[q].a->e == v) i = q; if (i < 0) return true; Node &n = nd[i];
         if (c->op == O_EQ) { if (!neg) { n.lo = std::max(n.lo, k); n.hi = std::min(n.hi, k); } else neC.push_back({i, k}); }
         else if (cl) { if (!neg) { if (k == ~0ull) return false; n.lo = std::max(n.lo, k + 1); } else n.hi = std::min(n.hi, k); }  // k < v ; v <= k
         else { if (!neg) { if (!k) return false; n.hi = std::min(n.hi, k - 1); } else n.lo = std::max(n.lo, k); }
         return true;
      }
      int i = node(x), j = node(y); if (i == -1 || j == -1) return true; if (i < 0 || j < 0) return false;
      if (c->op == O_EQ) { if (neg) ne.push_back({i, j}); else { ed.push_back({i, j, 0}); ed.push_back({j, i, 0}); } }
      else if (!neg) ed.push_back({i, j, 1}); else ed.push_back({j, i, 0}); // i<j : val j >= val i + 1 ; !(i<j): i >= j
      return true;
   };
   if (!add(extra)) return false; for (E e : pc) if (!add(e)) return false;
   if (nd.empty() && force.empty()) return false;
   // several monotone terms over one symbol: tie them to a node for the symbol itself
   static std::vector<std::pair<int, int>> link; link.clear();
   for (size_t i = 0, n0 = nd.size(); i < n0; i++) if (nd[i].a->e != nd[i].a->base) { bool multi = false; for (size_t j = 0; j < nd.size(); j++) if (j != i && nd[j].a->sym == nd[i].a->sym) multi = true; if (!multi) continue; if (!nd[i].a->mono) return false; int b = node(nd[i].a->base); if (b < 0) return false; link.push_back({(int)i, b}); }
   auto fit = [&](Node &n, u64 v) -> bool { // smallest achievable value >= v
      if (n.a->wide) { n.val = v; } else { auto it = std::lower_bound(n.a->vals.begin(), n.a->vals.end(), v); if (it == n.a->vals.end()) return false; n.val = *it; }
      return n.val <= n.hi; };
   for (auto &n : nd) if (!fit(n, n.lo)) return false;
   // least solution of the difference constraints, pushing apart values that must differ
   size_t rounds = 0;
   for (bool ch = true; ch;) {
      ch = false; if (++rounds > 3 * nd.size() + 20) return false;
      for (auto &e : ed) { Node &a = nd[e[0]], &b = nd[e[1]]; if (b.val < a.val + e[2]) { if (!fit(b, a.val + e[2])) return false; ch = true; } }
      for (auto &q : link) { Node &h = nd[q.first], &k = nd[q.second]; size_t x = std::lower_bound(h.a->vals.begin(), h.a->vals.end(), h.val) - h.a->vals.begin(); if (k.val < h.a->inv[x]) { if (!fit(k, h.a->inv[x])) return false; ch = true; } if (h.val < h.a->tab[k.val]) { if (!fit(h, h.a->tab[k.val])) return false; ch = true; } }
      if (!ch) { for (auto &q : ne) if (nd[q.first].val == nd[q.second].val) { Node &b = nd[q.second], &a = nd[q.first]; if (!fit(b, b.val + 1)) { b.val = a.val; if (!fit(a, a.val + 1)) return false; } ch = true; break; } }
      if (!ch) { for (auto &q : neC) if (nd[q.first].val == q.second) { if (!fit(nd[q.first], nd[q.first].val + 1)) return false; ch = true; break; } }
   }
   out = base; out.resize(g_syms.size(), 0); for (auto &f : force) out[f.first] = f.second;
   for (size_t pass = 0; pass < 2; pass++) for (auto &n : nd) if ((n.a->e == n.a->base) == (pass == 1)) { if (n.a->wide) out[n.a->sym] = n.val; else { size_t k = std::lower_bound(n.a->vals.begin(), n.a->vals.end(), n.val) - n.a->vals.begin(); out[n.a->sym] = n.a->inv[k]; } }
   newEpoch(); if (!evalE(extra, out)) return false;
   for (E e : pc) if (!evalE(e, out)) return false;
   return true;
}

// Look for a small inconsistent set of order/equality conjuncts (a cycle of difference constraints). Only a hint: the set is
// handed to z3, which has to confirm that it is unsatisfiable (once per set up to a renaming of symbols).
static std::vector<E> orderCore(const std::vector<E> &pc, E extra) {
   typedef __int128 I; typedef std::vector<u64> Bits; size_t W = (pc.size() + 64) / 64; // bit i: pc[i], bit pc.size(): extra
   std::vector<E> nd; std::unordered_map<u32, int> ix; nd.push_back(nullptr);
   auto node = [&](E e) { auto it = ix.find(e->id); if (it != ix.end()) return it->second; int n = nd.size(); ix[e->id] = n; nd.push_back(e); return n; };
   struct Ed { int u, v; I w; size_t why; }; std::vector<Ed> ed; struct Ne { int u, v; I k; size_t why; bool done; }; std::vector<Ne> ne; // v >= u + w
   auto add = [&](E c, size_t why) {
      bool neg = c->op == O_NOT; if (neg) c = c->k[0];
      if (c->op != O_ULT && c->op != O_EQ) { if (c->w == 1 && c->op == O_SYM) return; return; }
      E x = c->k[0], y = c->k[1]; if (x->w > 64 || x->w == 1) return;
      I kx = 0, ky = 0; int u = 0, v = 0; if (x->op == O_CONST) kx = (I)x->c; else u = node(x); if (y->op == O_CONST) ky = (I)y->c; else v = node(y);
      // x = u + kx, y = v + ky
      if (c->op == O_ULT) { if (!neg) ed.push_back({u, v, kx - ky + 1, why}); else ed.push_back({v, u, ky - kx, why}); }
      else if (!neg) { ed.push_back({u, v, kx - ky, why}); ed.push_back({v, u, ky - kx, why}); }
      else ne.push_back({u, v, kx - ky, why, false}); // v != u + k
   };
   add(extra, pc.size()); for (size_t i = 0; i < pc.size(); i++) add(pc[i], i);
   size_t n = nd.size(); if (n > 80) return {};
   const I NINF = -((I)1 << 100); std::vector<I> d(n * n, NINF); std::vector<Bits> r(n * n, Bits(W, 0)); for (size_t i = 0; i < n; i++) d[i * n + i] = 0;
   Bits conf; bool bad = false;
   auto edge = [&](int u, int v, I w, const Bits &why) {
      if (bad) return; if (d[u * n + v] >= w) return;
      if (d[v * n + u] > NINF && d[v * n + u] + w > 0) { conf = why; for (size_t k = 0; k < W; k++) conf[k] |= r[v * n + u][k]; bad = true; return; }
      std::vector<int> src, dst; for (size_t i = 0; i < n; i++) { if (d[i * n + u] > NINF) src.push_back(i); if (d[v * n + i] > NINF) dst.push_back(i); }
      std::vector<I> di, dj; std::vector<Bits> ri, rj; for (int i : src) { di.push_back(d[i * n + u]); ri.push_back(r[i * n + u]); } for (int j : dst) { dj.push_back(d[v * n + j]); rj.push_back(r[v * n + j]); }
      for (size_t a = 0; a < src.size(); a++) for (size_t b = 0; b < dst.size(); b++) { I q = di[a] + w + dj[b]; I &o = d[src[a] * n + dst[b]]; if (q > o) { o = q; Bits &t = r[src[a] * n + dst[b]]; for (size_t k = 0; k < W; k++) t[k] = ri[a][k] | why[k] | rj[b][k]; } }
   };
   Bits none(W, 0); for (size_t i = 1; i < n; i++) { edge(0, i, 0, none); edge(i, 0, -(((I)1 << nd[i]->w) - 1), none); }
   for (auto &e : ed) { Bits b(W, 0); b[e.why / 64] |= 1ull << (e.why % 64); edge(e.u, e.v, e.w, b); if (bad) break; }
   for (bool ch = true; ch && !bad;) { ch = false;
      for (auto &q : ne) { if (q.done || bad) continue; size_t a = q.u * n + q.v, b = q.v * n + q.u;
         if (d[a] == q.k) { Bits w = r[a]; w[q.why / 64] |= 1ull << (q.why % 64); q.done = ch = true; edge(q.u, q.v, q.k + 1, w); }
         else if (d[b] == -q.k) { Bits w = r[b]; w[q.why / 64] |= 1ull << (q.why % 64); q.done = ch = true; edge(q.v, q.u, -q.k + 1, w); } } }
   std::vector<E> core; if (!bad) return core;
   for (size_t i = 0; i <= pc.size(); i++) if (conf[i / 64] >> (i % 64) & 1) core.push_back(i == pc.size() ? extra : pc[i]);
   return core;
}
static Z3_solver small; static std::unordered_map<std::string, bool> canonCores;
static void canonE(E e, std::unordered_map<u32, int> &ren, std::string &o) {
   if (e->op == O_SYM) { auto it = ren.emplace(e->id, (int)ren.size()).first; o += "s" + std::to_string(it->second) + ":" + std::to_string(e->w); return; }
   if (e->op == O_CONST) { o += "c" + std::to_string((u64)e->c) + "," + std::to_string((u64)(e->c >> 64)) + ":" + std::to_string(e->w); return; }
   o += "(" + std::to_string(e->op) + "/" + std::to_string(e->w) + "/" + std::to_string(e->lo); for (int i = 0; i < 3; i++) if (e->k[i]) { o += " "; canonE(e->k[i], ren, o); } o += ")";
}
static bool confirmCore(const std::vector<E> &core) {
   std::unordered_map<u32, int> ren; std::string key; for (E e : core) { canonE(e, ren, key); key += ";"; }
   auto it = canonCores.find(key); if (it != canonCores.end()) { if (it->second) R.coreHits++; return it->second; }
   double t0 = now();
   if (!small) { small = Z3_mk_simple_solver(g_z3); Z3_solver_inc_ref(g_z3, small); }
   Z3_solver_push(g_z3, small); for (E e : core) { Z3_ast a = toBool(e); Z3_inc_ref(g_z3, a); Z3_solver_assert(g_z3, small, a); Z3_dec_ref(g_z3, a); }
   bool un = Z3_solver_check(g_z3, small) == Z3_L_FALSE; Z3_solver_pop(g_z3, small, 1);
   R.queries++; if (un) R.qunsat++; double dt = now() - t0; R.solver += dt; if (dt * 1000 > R.maxq) R.maxq = dt * 1000;
   canonCores[key] = un; return un;
}
// disjuncts (dis) or conjuncts of a condition
static void flatten(E c, bool dis, std::vector<E> &out) {
   bool neg = c->op == O_NOT; E b = neg ? c->k[0] : c;
   if (b->w == 1 && ((b->op == O_AND && neg == dis) || (b->op == O_OR && neg != dis))) { for (int i = 0; i < 2; i++) flatten(neg ? mkNot(b->k[i]) : b->k[i], dis, out); return; }
   out.push_back(c);
}
// 1 sat, 0 unsat
static bool solve(const std::vector<E> &pc, E extra, Model &out, const Model &base) {
   // recent models first
   for (auto it = ring.begin(); it != ring.end(); ++it) {
      newEpoch();
      if (!evalE(extra, *it)) continue;
      bool ok = true; for (size_t i = pc.size(); i-- > 0;) if (!evalE(pc[i], *it)) { ok = false; break; }
      if (ok) { out = *it; R.modelHits++; if (it != ring.begin()) { Model m = std::move(*it); ring.erase(it); ring.push_front(std::move(m)); } return true; }
   }
   // cached unsatisfiable cores: a superset of an unsatisfiable set of conjuncts is unsatisfiable
   auto &cl = cores[extra->id];
   if (!cl.empty()) {
      static u32 stamp = 0; ++stamp; for (E e : pc) e->mark = stamp;
      for (size_t i = 0; i < cl.size(); i++) { bool all = true; for (E e : cl[i]) if (e->mark != stamp) { all = false; break; } if (all) { R.coreHits++; if (i) std::swap(cl[i], cl[i / 2]); return false; } }
   }
   if (guessModel(pc, extra, out, base)) { R.guessHits++; ring.push_front(out); if (ring.size() > RING) ring.pop_back(); return true; }
   // a disjunctive query is decided disjunct by disjunct, a conjunctive one with its conjuncts spread out
   {
      std::vector<E> ors; flatten(extra, true, ors); std::vector<E> un; bool allUn = true;
      for (E o : ors) {
         std::vector<E> ands; flatten(o, false, ands); std::vector<E> pc2 = pc; for (size_t i = 0; i + 1 < ands.size(); i++) pc2.push_back(ands[i]);
         E last = ands.back();
         if ((ors.size() > 1 || ands.size() > 1) && guessModel(pc2, last, out, base)) { R.guessHits++; ring.push_front(out); if (ring.size() > RING) ring.pop_back(); return true; }
         if (!allUn) continue;
         std::vector<E> core = orderCore(pc2, last);
         if (core.empty() || !confirmCore(core)) { allUn = false; continue; }
         for (E c : core) { bool mine = false; for (E a : ands) if (a == c) mine = true; if (!mine && std::find(un.begin(), un.end(), c) == un.end()) un.push_back(c); }
      }
      if (allUn) { if (cl.size() < 400) cl.push_back(un); return false; }
   }
   if (getenv("VP_DBG")) { fprintf(stderr, "Q extra=%s\n", showE(extra).c_str()); for (E e : pc) fprintf(stderr, "   pc %s\n", showE(e).c_str()); }
   double t0 = now();
   // each distinct conjunct is asserted once behind a selector literal; a query is a check under assumptions,
   // so bit-blasting and learned clauses are shared by all paths
   if (sel.size() > 1500) { Z3_solver_reset(g_z3, solver); for (auto &p : sel) Z3_dec_ref(g_z3, p.second); sel.clear(); }
   static std::vector<Z3_ast> as; as.clear();
   auto lit = [&](E e) {
      auto &x = sel[e->id];
      if (!x) { bool neg = e->op == O_NOT; (void)neg; x = Z3_mk_fresh_const(g_z3, "L", Z3_mk_bool_sort(g_z3)); Z3_inc_ref(g_z3, x); Z3_ast imp = Z3_mk_implies(g_z3, x, toBool(e)); Z3_inc_ref(g_z3, imp); Z3_solver_assert(g_z3, solver, imp); Z3_dec_ref(g_z3, imp); }
      as.push_back(x);
   };
   // only the conjuncts connected to the query through shared symbols matter: the rest holds in `base` and shares no symbol
   std::vector<E> rel; { std::unordered_set<u32> in; for (u32 q : symsOf(extra)) in.insert(q); std::vector<char> used(pc.size(), 0);
      for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!used[i]) { const auto &v = symsOf(pc[i]); bool hit = v.empty(); for (u32 q : v) if (in.count(q)) { hit = true; break; } if (hit) { used[i] = 1; ch = true; for (u32 q : v) in.insert(q); } } }
      for (size_t i = 0; i < pc.size(); i++) if (used[i]) rel.push_back(pc[i]); }
   // wide arithmetic by constants: exact integer encoding first
   bool heavy = liaHeavy(extra); for (E e : rel) if (heavy) break; else heavy = liaHeavy(e);
   // small slices: z3 decides each distinct one once, up to a renaming of symbols
   if (rel.size() <= 48) {
      struct Slice { bool sat; std::vector<u128> val; }; static std::unordered_map<std::string, Slice> slices;
      std::unordered_map<u32, int> ren; std::string key; canonE(extra, ren, key); for (E e : rel) { key += ";"; canonE(e, ren, key); if (key.size() > 6000) break; }
      std::vector<E> syms(ren.size()); { std::unordered_set<u32> seen; std::vector<E> sv; collectSyms(extra, seen, sv); for (E e : rel) collectSyms(e, seen, sv); for (E q : sv) { auto it = ren.find(q->id); if (it != ren.end()) syms[it->second] = q; } }
      if (key.size() <= 6000) {
         auto it = slices.find(key); bool hit = it != slices.end();
         if (!hit) {
            if (!small) { small = Z3_mk_simple_solver(g_z3); Z3_solver_inc_ref(g_z3, small); }
            Slice sl; int lr = -1;
            if (heavy) { std::vector<E> cs = rel; cs.push_back(extra); std::vector<std::pair<E, u128>> vals; lr = liaSolve(cs, vals, 300);
               if (lr >= 0) { R.queries++; double dt = now() - t0; R.solver += dt; if (dt * 1000 > R.maxq) R.maxq = dt * 1000; }
               if (lr == 0) { sl.sat = false; R.qunsat++; }
               if (lr == 1) { sl.sat = true; R.qsat++; for (E y : syms) { u128 c = 0; for (auto &p : vals) if (p.first == y) c = p.second; sl.val.push_back(c); } } }
            if (lr < 0) {
            Z3_solver_push(g_z3, small); auto put = [&](E e) { Z3_ast a = toBool(e); Z3_inc_ref(g_z3, a); Z3_solver_assert(g_z3, small, a); Z3_dec_ref(g_z3, a); }; put(extra); for (E e : rel) put(e);
            Z3_lbool q = Z3_solver_check(g_z3, small); R.queries++;
            if (q == Z3_L_TRUE) { Z3_model m = Z3_solver_get_model(g_z3, small); Z3_model_inc_ref(g_z3, m); sl.sat = true; R.qsat++;
               for (E y : syms) { Z3_ast v = nullptr; if (!Z3_model_eval(g_z3, m, toBV(y), true, &v)) fatal("model eval"); Z3_inc_ref(g_z3, v); u128 c = 0; const char *str = Z3_get_numeral_string(g_z3, v); for (const char *z = str; *z; z++) c = c * 10 + (*z - '0'); Z3_dec_ref(g_z3, v); sl.val.push_back(c); }
               Z3_model_dec_ref(g_z3, m); }
            else { sl.sat = false; if (q == Z3_L_FALSE) R.qunsat++; }
            Z3_solver_pop(g_z3, small, 1); double dt = now() - t0; R.solver += dt; if (dt * 1000 > R.maxq) R.maxq = dt * 1000;
            if (q == Z3_L_UNDEF) { R.error = "solver returned unknown"; throw 1; }
            }
            it = slices.emplace(key, sl).first;
         }
         if (hit) R.coreHits++;
         if (!it->second.sat) { if (cl.size() < 400) cl.push_back(rel); return false; }
         out = base; out.resize(g_syms.size(), 0); for (size_t i = 0; i < syms.size(); i++) out[syms[i]->lo] = it->second.val[i];
         newEpoch(); bool good = evalE(extra, out) != 0; for (E e : pc) good = good && evalE(e, out); if (!good) fatal("model does not satisfy query: " + showE(extra));
         ring.push_front(out); if (ring.size() > RING) ring.pop_back(); return true;
      }
   }
   for (E e : rel) lit(e); lit(extra);
   Z3_lbool r = Z3_solver_check_assumptions(g_z3, solver, as.size(), as.data());
   R.queries++;
   if (r == Z3_L_TRUE) {
      R.qsat++;
      Z3_model m = Z3_solver_get_model(g_z3, solver); Z3_model_inc_ref(g_z3, m);
      std::unordered_set<u32> seen; std::vector<E> syms; for (E e : rel) collectSyms(e, seen, syms); collectSyms(extra, seen, syms);
      out = base; out.resize(g_syms.size(), 0);
      for (E s : syms) {
         Z3_ast v = nullptr; if (!Z3_model_eval(g_z3, m, toBV(s), true, &v)) fatal("model eval"); Z3_inc_ref(g_z3, v);
         u128 c = 0;
         if (s->w <= 64) { uint64_t u; if (!Z3_get_numeral_uint64(g_z3, v, &u)) fatal("model numeral"); c = u; }
         else { const char *str = Z3_get_numeral_string(g_z3, v); for (const char *q = str; *q; q++) c = c * 10 + (*q - '0'); }
         Z3_dec_ref(g_z3, v); out[s->lo] = c;
      }
      Z3_model_dec_ref(g_z3, m);
      newEpoch(); bool good = evalE(extra, out) != 0; for (E e : pc) good = good && evalE(e, out); if (!good) fatal("model does not satisfy query: " + showE(extra));
      ring.push_front(out); if (ring.size() > RING) ring.pop_back();
   } else if (r == Z3_L_FALSE) {
      R.qunsat++;
      Z3_ast_vector c = Z3_solver_get_unsat_core(g_z3, solver); Z3_ast_vector_inc_ref(g_z3, c); std::vector<E> core; bool hasX = false;
      for (unsigned i = 0; i < Z3_ast_vector_size(g_z3, c); i++) { Z3_ast a = Z3_ast_vector_get(g_z3, c, i); for (size_t k = 0; k < as.size(); k++) if (as[k] == a) { if (k == rel.size()) hasX = true; else core.push_back(rel[k]); break; } }
      Z3_ast_vector_dec_ref(g_z3, c);
      if (hasX && cl.size() < 400) cl.push_back(core);
   }
   double dt = now() - t0; R.solver += dt; if (dt * 1000 > R.maxq) R.maxq = dt * 1000;
   if (r == Z3_L_UNDEF) { R.error = std::string("solver returned unknown: ") + Z3_solver_get_reason_unknown(g_z3, solver); throw 1; }
   return r == Z3_L_TRUE;
}

// ---------------------------------------------------------------- interpreter
struct Kill {};
static std::vector<State *> pendingNew; // clones produced by the running state
static std::string whereOf(const Instruction *I) {
   if (!I) return "?"; const DILocation *L = I->getDebugLoc(); if (!L) return std::string("?:") + I->getFunction()->getName().str();
   std::string s = L->getFilename().str() + ":" + std::to_string(L->getLine());
   for (const DILocation *P = L->getInlinedAt(); P; P = P->getInlinedAt()) s += " <- " + P->getFilename().str() + ":" + std::to_string(P->getLine());
   return s;
}
static void record(State *s, const std::string &kind, const std::string &msg, const Model &m) {
   Viol v; v.entry = s->entry; v.kind = kind; v.msg = msg; v.in = s->inputs; v.m = m;
   for (size_t i = s->st.size(); i-- > 0;) { Frame *f = s->st[i]; std::string w = whereOf(f->f->code[f->pc].I); if (i + 1 == s->st.size()) v.where = w; v.stack.push_back(f->f->name + " @ " + w); }
   for (auto &o : R.viols) if (o.entry == v.entry && o.kind == v.kind && o.msg == v.msg) { return; }
   if (R.viols.size() < 6) { R.viols.push_back(v); if (sh) { sh->viols++; u64 z = 0; sh->tViol.compare_exchange_strong(z, (u64)(now() * 1000)); } }
}
[[noreturn]] static void violation(State *s, const std::string &kind, const std::string &msg) { record(s, kind, msg, s->model); throw Kill(); }
[[noreturn]] static void unsupported(State *s, const std::string &m) {
   R.error = "unsupported: " + m; if (s && !s->st.empty()) { Frame *f = s->st.back(); R.error += " at " + whereOf(f->f->code[f->pc].I); }
   throw 1;
}
static inline const Val &rawv(Frame *f, int slot) { return slot >= 0 ? f->regs[slot] : constPool[~slot]; }
static Val getv(State *s, Frame *f, int slot) {
   if (slot < 0) { Val v = constPool[~slot]; if (v.e == UNDEF) { return VE(mkSym("undef" + std::to_string(s->nundef++), v.w)); } return v; }
   Val &v = f->regs[slot];
   if (v.e == UNDEF) v = VE(mkSym("undef" + std::to_string(s->nundef++), v.w));
   return v;
}
static void addPC(State *s, E c) { if (c->op == O_AND && c->w == 1) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; } s->pc.push_back(c); }
static int known(State *s, E c) {
   bool neg = false; E b = c; if (c->op == O_NOT) { neg = true; b = c->k[0]; }
   E nb = mkNot(b);
   for (E x : s->pc) { if (x == b) return !neg; if (x == nb) return neg; }
   for (E x : s->implied) { if (x == b) return !neg; if (x == nb) return neg; }
   return -1;
}
static bool abandon();
static const u32 MAXDEC = 1000; // undecided branches on one path; the harnesses stay far below
static u32 dbgDepth = 0;
static void tooDeep(State *s) {
   u32 n = s->pc.size() + s->implied.size(); if (n > dbgDepth) dbgDepth = n;
   if (n > MAXDEC) violation(s, "nontermination", "no result after " + std::to_string(MAXDEC) + " undecided branches on one path");
   if (abandon()) { R.pending++; throw Kill(); }
}
// decide the truth of a width-1 value; forks when both sides are feasible
struct Dec { bool side; State *other; };
static Dec decide(State *s, const Val &v) {
   if (!v.e) return {v.c != 0, nullptr};
   R.branches++;
   E c = v.e; int k = known(s, c); if (k >= 0) return {k == 1, nullptr};
   bool side = evalFresh(c, s->model) != 0;
   E other = side ? mkNot(c) : c, same = side ? c : mkNot(c);
   Model m; tooDeep(s);
   if (!solve(s->pc, other, m, s->model)) { s->implied.push_back(same); return {side, nullptr}; }
   State *n = s->clone(); n->model = std::move(m); addPC(n, other); n->depth++; addPC(s, same); s->depth++;
   R.forks++; pendingNew.push_back(n);
   return {side, n};
}
static void assumeE(State *s, const Val &v) { // kills if infeasible
   if (!v.e) { if (!v.c) { R.es[s->entry].assumed++; throw Kill(); } return; }
   int k = known(s, v.e); if (k == 1) return; if (k == 0) { R.es[s->entry].assumed++; throw Kill(); }
   if (!evalFresh(v.e, s->model)) { Model m; if (!solve(s->pc, v.e, m, s->model)) { R.es[s->entry].assumed++; throw Kill(); } s->model = std::move(m); }
   addPC(s, v.e);
}
// make register `slot` concrete by forking over its feasible values (lazily: one value now, the rest in a clone that retries)
static u64 concretize(State *s, int slot) {
   Frame *f = s->top(); Val v = getv(s, f, slot);
   if (!v.e) return (u64)v.c;
   if (++s->nconc > 2000) unsupported(s, "too many values for a symbolic address or size");
   u128 c = evalFresh(v.e, s->model); E eq = mkBin(O_EQ, v.e, mkConst(c, v.w));
   Model m; R.branches++;
   if (known(s, eq) != 1 && solve(s->pc, mkNot(eq), m, s->model)) { State *n = s->clone(); n->model = std::move(m); addPC(n, mkNot(eq)); n->depth++; R.forks++; pendingNew.push_back(n); addPC(s, eq); s->depth++; }
   if (slot >= 0) s->top()->regs[slot] = VC(c, v.w); // top() un-shares the frame from the clone
   return (u64)c;
}
static Obj *findObj(State *s, u64 a, MemEnt **ent) {
   std::vector<MemEnt> &v = a >= DYN_BASE ? s->mem : cmem;
   size_t lo = 0, hi = v.size(); while (lo < hi) { size_t mid = (lo + hi) / 2; if (v[mid].base <= a) lo = mid + 1; else hi = mid; }
   if (!lo) return nullptr; MemEnt &e = v[lo - 1]; if (ent) *ent = &e; return e.o;
}
static std::string hex(u64 a) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)a); return b; }
static Obj *access(State *s, u64 a, u64 n, bool write, u32 &off) {
   if (n == 0) { off = 0; return nullptr; }
   MemEnt *e = nullptr; Obj *o = findObj(s, a, &e);
   if (!o || a + n > o->base + o->size || a + n < a || (o->kind == K_FUNC)) {
      std::string m = std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes at ";
      if (a < 65536) violation(s, "memory", m + "null/near-null pointer " + hex(a));
      if (o && a < o->base + o->size + 32) violation(s, "memory", m + "offset " + std::to_string(a - o->base) + " past a " + kindName[o->kind] + " object of " + std::to_string(o->size) + " bytes");
      violation(s, "memory", m + "an invalid or freed address");
   }
   off = a - o->base;
   if (write) {
      if (o->kind == K_CONST) violation(s, "memory", "write to constant object");
      if (o->rc > 1) { Obj *c = objClone(o); o->rc--; e->o = c; o = c; }
   }
   return o;
}
static u64 allocObj(State *s, u64 size, u64 align, Kind k, u8 ak, bool zero = false) {
   if (align < 16) align = 16;
   u64 a = (s->nextAddr + align - 1) / align * align; s->nextAddr = a + size + 32;
   Obj *o = newObj(a, size, k, zero); o->allocKind = ak; s->mem.push_back({a, o}); if (k == K_HEAP) s->heapLive++;
   return a;
}
static void freeObj(State *s, u64 a, Kind k) {
   MemEnt *e = nullptr; Obj *o = findObj(s, a, &e);
   if (!o || o->base != a || o->kind != k) violation(s, "memory", "free of an invalid or already freed pointer " + hex(a));
   if (k == K_HEAP) s->heapLive--;
   objUnref(o); s->mem.erase(s->mem.begin() + (e - &s->mem[0]));
}
static Val loadLeaf(State *s, u64 a, const Leaf &l) {
   u32 off; u32 n = (l.w + 7) / 8; Obj *o = access(s, a + l.off, n, false, off);
   Val v = objRead(o, off, n);
   if (v.e == UNDEF) { v.w = l.w; return v; }
   if (v.w != l.w) { if (!v.e) v = VC(v.c, l.w); else v = VE(mkExtract(v.e, 0, l.w)); }
   return v;
}
static void storeLeaf(State *s, u64 a, const Leaf &l, Val v) {
   u32 off; u32 n = (l.w + 7) / 8; Obj *o = access(s, a + l.off, n, true, off); objWrite(o, off, n, v);
}
static std::string readStr(State *s, u64 a) { std::string r; for (int i = 0; i < 400; i++) { u32 off; MemEnt *e; Obj *o = findObj(s, a + i, &e); if (!o || a + i >= o->base + o->size) break; off = a + i - o->base; if (o->sym && o->sym[off].e) break; char c = o->bytes[off]; if (!c) break; r += c; } return r; }

static Val binop(State *s, unsigned opc, const Val &a, const Val &b);
static Op opOf(unsigned opc) {
   switch (opc) {
   case Instruction::Add: return O_ADD; case Instruction::Sub: return O_SUB; case Instruction::Mul: return O_MUL; case Instruction::UDiv: return O_UDIV; case Instruction::SDiv: return O_SDIV;
   case Instruction::URem: return O_UREM; case Instruction::SRem: return O_SREM; case Instruction::And: return O_AND; case Instruction::Or: return O_OR; case Instruction::Xor: return O_XOR;
   case Instruction::Shl: return O_SHL; case Instruction::LShr: return O_LSHR; case Instruction::AShr: return O_ASHR; default: return O_UNDEF; }
}
static Val foldBinOpc(unsigned opc, const Val &a, const Val &b) { Op o = opOf(opc); if (o == O_UNDEF) fatal("const binop"); return VC(foldBin(o, a.c, b.c, a.w), a.w); }
static Val vbin(Op o, const Val &a, const Val &b) {
   unsigned rw = (o == O_EQ || o == O_ULT || o == O_SLT) ? 1 : a.w;
   if (!a.e && !b.e) return VC(foldBin(o, a.c, b.c, a.w), rw);
   return VE(mkBin(o, toE(a), toE(b)));
}
static Val vnot(const Val &a) { if (!a.e) return VC(!a.c, 1); return VE(mkNot(a.e)); }
static Val vite(const Val &c, const Val &a, const Val &b) { if (!c.e) return c.c ? a : b; if (a.e == UNDEF) return b; if (b.e == UNDEF) return a; return VE(mkIte(c.e, toE(a), toE(b))); }
static Val icmp(unsigned p, const Val &a, const Val &b) {
   switch (p) {
   case CmpInst::ICMP_EQ: return vbin(O_EQ, a, b); case CmpInst::ICMP_NE: return vnot(vbin(O_EQ, a, b));
   case CmpInst::ICMP_ULT: return vbin(O_ULT, a, b); case CmpInst::ICMP_UGT: return vbin(O_ULT, b, a); case CmpInst::ICMP_ULE: return vnot(vbin(O_ULT, b, a)); case CmpInst::ICMP_UGE: return vnot(vbin(O_ULT, a, b));
   case CmpInst::ICMP_SLT: return vbin(O_SLT, a, b); case CmpInst::ICMP_SGT: return vbin(O_SLT, b, a); case CmpInst::ICMP_SLE: return vnot(vbin(O_SLT, b, a)); case CmpInst::ICMP_SGE: return vnot(vbin(O_SLT, a, b));
   }
   fatal("icmp predicate");
}
static double asD(const Val &v) { if (v.w == 32) { u32 x = (u32)v.c; float f; memcpy(&f, &x, 4); return f; } u64 x = (u64)v.c; double d; memcpy(&d, &x, 8); return d; }
static Val fromD(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); return VC(x, 32); } u64 x; memcpy(&x, &d, 8); return VC(x, 64); }
// IEEE comparisons and x + 0 over the bits of a symbolic value (round-trip exact; NaN payloads as on x86: quieted)
static E fMag(E a) { return mkBin(O_AND, a, mkConst(maskw(a->w - 1), a->w)); }
static E fInf(unsigned w) { return w == 32 ? mkConst(0x7f800000u, 32) : mkConst(0x7ff0000000000000ull, 64); }
static E fNan(E a) { return mkBin(O_ULT, fInf(a->w), fMag(a)); }
static Val faddZero(const Val &av, const Val &z) { E a = toE(av); unsigned w = a->w; u128 sign = (u128)1 << (w - 1); E q = mkBin(O_OR, a, mkConst((u128)1 << (w == 32 ? 22 : 51), w));
   E r = z.c == 0 ? mkIte(mkBin(O_EQ, a, mkConst(sign, w)), mkConst(0, w), a) : a; return VE(mkIte(fNan(a), q, r)); }
static Val fcmpSym(unsigned pred, const Val &av, const Val &bv) {
   E a = toE(av), b = toE(bv); unsigned w = a->w; E sg = mkConst((u128)1 << (w - 1), w), z = mkConst(0, w);
   auto A = [](E x, E y) { return mkBin(O_AND, x, y); }; auto O = [](E x, E y) { return mkBin(O_OR, x, y); };
   auto key = [&](E x) { return mkIte(mkBin(O_EQ, mkBin(O_AND, x, sg), z), mkBin(O_OR, x, sg), mkBin(O_XOR, x, mkConst(maskw(w), w))); };
   E un = O(fNan(a), fNan(b)), bz = mkBin(O_EQ, fMag(mkBin(O_OR, a, b)), z), eq = O(mkBin(O_EQ, a, b), bz);
   E lt = A(mkNot(bz), mkBin(O_ULT, key(a), key(b))), gt = A(mkNot(bz), mkBin(O_ULT, key(b), key(a))), r = nullptr;
   switch (pred) {
   case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: r = eq; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: r = mkNot(eq); break;
   case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: r = lt; break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: r = gt; break;
   case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: r = mkNot(gt); break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: r = mkNot(lt); break;
   case CmpInst::FCMP_ORD: return VE(mkNot(un)); case CmpInst::FCMP_UNO: return VE(un); case CmpInst::FCMP_TRUE: return VC(1, 1); default: return VC(0, 1); }
   bool ord = pred >= CmpInst::FCMP_OEQ && pred <= CmpInst::FCMP_ONE;
   return VE(ord ? A(mkNot(un), r) : O(un, r)); }
static void needC(State *s, const Val &v) { if (v.e) unsupported(s, "symbolic floating-point value"); if (v.w != 32 && v.w != 64) unsupported(s, "floating-point width"); }

static void gotoEdge(State *s, Frame *f, const Edge &e) {
   if (!e.moves.empty()) {
      static Val tmp[512]; size_t n = e.moves.size(); if (n > 512) unsupported(s, "too many phis");
      for (size_t i = 0; i < n; i++) tmp[i] = rawv(f, e.moves[i].second);
      for (size_t i = 0; i < n; i++) f->regs[e.moves[i].first] = tmp[i];
   }
   f->pc = e.tgt;
}
static void pushFrame(State *s, CFunc *cf) { decode(cf); Frame *f = new Frame; f->rc = 1; f->f = cf; f->regs.assign(cf->nslots, VC(0, 1)); f->pc = 0; s->st.push_back(f); if (s->st.size() > 400) violation(s, "nontermination", "call stack deeper than 400 frames"); }
static void popFrame(State *s) { Frame *f = s->st.back(); for (size_t i = f->allocas.size(); i-- > 0;) freeObj(s, f->allocas[i], K_STACK); s->st.pop_back(); if (--f->rc == 0) delete f; }
static u32 typeIndex(u64 t) { auto it = typeIdx.find(t); if (it != typeIdx.end()) return it->second; u32 n = typeIdx.size() + 1; typeIdx[t] = n; return n; }
static ExcInfo *excOf(State *s, u64 a) { for (auto &e : s->excs) if (e.addr == a) return &e; return nullptr; }
// selector for landing pad; -1: does not land here
static int lpMatch(const LP *lp, u64 tinfo, u32 &sel) {
   for (auto &c : lp->clauses) {
      if (c.first == 0) { if (c.second[0] == 0 || c.second[0] == tinfo) { sel = typeIndex(c.second[0]); return 1; } }
      else { bool in = false; for (u64 t : c.second) if (t == tinfo) in = true; if (!in) { sel = (u32)-1; return 1; } }
   }
   if (lp->cleanup) { sel = 0; return 0; }
   return -1;
}
static const DI &lpOf(Frame *f, const DI &inv) { return f->f->code[inv.edges[1].tgt]; }
static void unwind(State *s, u64 exc, bool search) {
   ExcInfo *x = excOf(s, exc); if (!x) unsupported(s, "unknown exception object");
   u64 ti = x->tinfo; u32 sel;
   if (search) {
      bool found = false;
      for (size_t i = s->st.size(); i-- > 0 && !found;) { Frame *f = s->st[i]; const DI &d = f->f->code[f->pc]; if (d.op == Instruction::Invoke && lpMatch(lpOf(f, d).lp, ti, sel) == 1) found = true; }
      if (!found) violation(s, "exception", "exception escapes: no handler up the stack (std::terminate)");
   }
   while (!s->st.empty()) {
      Frame *f = s->top(); const DI &d = f->f->code[f->pc];
      if (d.op == Instruction::Invoke) {
         int r = lpMatch(lpOf(f, d).lp, ti, sel);
         if (r >= 0) { s->lpExc = exc; s->lpSel = sel; gotoEdge(s, f, d.edges[1]); return; }
      }
      if (f->f->nounwind) violation(s, "exception", "exception escapes the non-throwing function " + demangle(f->f->name));
      popFrame(s);
   }
   violation(s, "exception", "exception escapes the harness entry");
}
static bool breakOnFork = false;
static u64 lcg = 88172645463325252ULL; static u64 rnd() { lcg ^= lcg << 13; lcg ^= lcg >> 7; lcg ^= lcg << 17; return lcg; }
static void leaf(State *s, bool expected) {
   R.es[s->entry].paths++; if (expected) R.es[s->entry].expected++;
   R.seenLeaves++;
   size_t pos; if (R.samples.size() < optSamples) { pos = R.samples.size(); R.samples.emplace_back(); } else { pos = rnd() % R.seenLeaves; if (pos >= optSamples) return; }
   Sample &p = R.samples[pos]; p.entry = s->entry; p.in = s->inputs; p.m = s->model; p.expected = expected; p.obs.clear();
   newEpoch(); for (auto &v : s->obs) p.obs.push_back(v.e ? evalE(v.e, s->model) : v.c);
}
static void retTo(State *s, const Val *rv, u32 n) { // after popFrame: deliver result to caller and advance
   Frame *f = s->top(); const DI &d = f->f->code[f->pc];
   if (d.dst >= 0) for (u32 i = 0; i < n; i++) f->regs[d.dst + i] = rv[i];
   if (d.op == Instruction::Invoke) gotoEdge(s, f, d.edges[0]); else f->pc++;
}
static void finishCall(State *s, Frame *f, const DI &d, const Val &r) { if (d.dst >= 0) f->regs[d.dst] = r; if (d.op == Instruction::Invoke) gotoEdge(s, f, d.edges[0]); else f->pc++; }

static void doExt(State *s, Frame *f, DI &d) {
   auto A = [&](int i) { return getv(s, f, d.ops[i]); };
   auto AC = [&](int i) -> u64 { u64 c = concretize(s, d.ops[i]); f = s->top(); return c; };
   Val r = VC(0, d.w ? d.w : 1);
   switch (d.ext) {
   case X_NOP: case X_ATEXIT: case X_GUARD_REL: case X_STACKSAVE:
      if (d.ext == X_GUARD_REL) { u64 g = AC(0); storeLeaf(s, g, {8, 0, false}, VC(1, 8)); }
      break;
   case X_GUARD_ACQ: { u64 g = AC(0); Val v = loadLeaf(s, g, {8, 0, false}); r = VC(v.c == 0, 32); break; }
   case X_NEW: case X_NEWA: case X_MALLOC: { u64 n = AC(0); if (n > (1 << 24)) unsupported(s, "huge allocation"); u64 al = 16; if (d.ops.size() > 1 && d.ext == X_NEW) { Val v = A(1); if (!v.e && v.c && v.c <= 4096 && d.offs[1] == 1 && !(v.c & (v.c - 1))) al = v.c; } r = VC(allocObj(s, n, al, K_HEAP, d.ext - X_NEW + 1), 64); break; }
   case X_CALLOC: { u64 n = AC(0) * AC(1); r = VC(allocObj(s, n, 16, K_HEAP, 3, true), 64); break; }
   case X_DEL: case X_DELA: case X_FREE: { u64 p = AC(0); if (p) { MemEnt *e; Obj *o = findObj(s, p, &e); u8 want = d.ext - X_DEL + 1; if (o && o->base == p && o->kind == K_HEAP && o->allocKind != want) violation(s, "memory", "mismatched allocation/deallocation functions"); freeObj(s, p, K_HEAP); } break; }
   case X_MEMCPY: {
      u64 dst = AC(0), src = AC(1), n = AC(2); r = VC(dst, 64);
      if (n) { u32 so, dof; Obj *o = access(s, src, n, false, so); std::vector<u8> b(o->bytes + so, o->bytes + so + n); std::vector<SB> sb; if (o->sym) sb.assign(o->sym + so, o->sym + so + n);
         Obj *q = access(s, dst, n, true, dof); memcpy(q->bytes + dof, b.data(), n);
         if (!sb.empty()) { if (!q->sym) q->sym = (SB *)calloc(q->size, sizeof(SB)); memcpy((void *)(q->sym + dof), sb.data(), n * sizeof(SB)); } else if (q->sym) memset((void *)(q->sym + dof), 0, n * sizeof(SB)); }
      break; }
   case X_MEMSET: { u64 dst = AC(0), n = AC(2); Val v = A(1); if (v.w > 8) v = v.e ? VE(mkExtract(v.e, 0, 8)) : VC(v.c, 8); r = VC(dst, 64); if (n) { u32 o; Obj *q = access(s, dst, n, true, o); for (u64 i = 0; i < n; i++) objWrite(q, o + i, 1, v); } break; }
   case X_MEMCMP: case X_BCMP: {
      u64 a = AC(0), b = AC(1), n = AC(2); r = VC(0, 32);
      for (u64 i = n; i-- > 0;) { u32 o1, o2; Obj *p = access(s, a + i, 1, false, o1); Val x = objRead(p, o1, 1); Obj *q = access(s, b + i, 1, false, o2); Val y = objRead(q, o2, 1);
         if (x.e == UNDEF) x = VE(mkSym("undef" + std::to_string(s->nundef++), 8)); if (y.e == UNDEF) y = VE(mkSym("undef" + std::to_string(s->nundef++), 8));
         r = vite(vbin(O_EQ, x, y), r, vite(vbin(O_ULT, x, y), VC((u128)-1, 32), VC(1, 32))); }
      break; }
   case X_STRLEN: r = VC(readStr(s, AC(0)).size(), 64); break;
   case X_ABORT: violation(s, "abort", "abort() called");
   case X_TERMINATE: violation(s, "exception", "std::terminate called (exception out of a noexcept region)");
   case X_PUREV: violation(s, "abort", "pure virtual call");
   case X_THROWLIB: violation(s, "abort", "library error thrown by the standard library");
   case X_TRAP: violation(s, "trap", "undefined behaviour trap reached");
   case X_CXA_ALLOC: r = VC(allocObj(s, AC(0), 16, K_EXC, 0), 64); break;
   case X_CXA_FREE: freeObj(s, AC(0), K_EXC); break;
   case X_CXA_THROW: { u64 p = AC(0), t = AC(1); s->excs.push_back({p, t, 0, false}); unwind(s, p, true); return; }
   case X_CXA_BEGIN: { u64 p = AC(0); ExcInfo *x = excOf(s, p); if (!x) unsupported(s, "begin_catch"); x->handlers++; x->rethrown = false; s->caught.push_back(p); r = VC(p, 64); break; }
   case X_CXA_END: {
      if (s->caught.empty()) unsupported(s, "end_catch"); u64 p = s->caught.back(); s->caught.pop_back(); ExcInfo *x = excOf(s, p);
      if (--x->handlers == 0 && !x->rethrown) { freeObj(s, p, K_EXC); for (size_t i = 0; i < s->excs.size(); i++) if (s->excs[i].addr == p) { s->excs.erase(s->excs.begin() + i); break; } }
      break; }
   case X_CXA_RETHROW: { if (s->caught.empty()) violation(s, "exception", "rethrow without a current exception"); u64 p = s->caught.back(); excOf(s, p)->rethrown = true; unwind(s, p, true); return; }
   case X_SYM: { u64 w = AC(0); E e = mkSym("s" + std::to_string(s->nsym++), w); s->inputs.push_back({e, 0, (u32)w, 0}); r = VE(mkZext(e, 64)); break; }
   case X_CHOOSE: {
      u64 n = AC(0); u32 k = s->nsym++; if (n == 0 || n > 4096) unsupported(s, "vp_choose range"); R.branches++;
      (void)k;
      for (u64 i = n; i-- > 1;) { State *c = s->clone(); c->inputs.push_back({nullptr, i, 32, 1}); c->depth++; Frame *cf = c->top(); finishCall(c, cf, cf->f->code[cf->pc], VC(i, 32)); pendingNew.push_back(c); R.forks++; }
      f = s->top(); s->inputs.push_back({nullptr, 0, 32, 1}); r = VC(0, 32); break; }
   case X_ASSUME: { Val v = A(0); if (v.w != 1) v = vnot(vbin(O_EQ, v, VC(0, v.w))); assumeE(s, v); break; }
   case X_ASSERT: {
      Val v = A(0); if (v.w != 1) v = vnot(vbin(O_EQ, v, VC(0, v.w))); std::string lab = readStr(s, AC(1)); R.labels[lab]++; R.asserts++;
      if (!v.e) { if (!v.c) violation(s, "assert", lab); }
      else {
         R.labelsSym[lab]++; int k = known(s, v.e);
         if (k == 0) violation(s, "assert", lab);
         if (k < 0) { R.assertQ++; Model m; if (!evalFresh(v.e, s->model)) violation(s, "assert", lab); if (solve(s->pc, mkNot(v.e), m, s->model)) { record(s, "assert", lab, m); throw Kill(); } s->implied.push_back(v.e); }
      }
      break; }
   case X_OBSERVE: s->obs.push_back(A(0)); break;
   case X_REACH: R.reaches[readStr(s, AC(0))]++; break;
   case X_EXPECT: s->expectAssert = true; break;
   case X_FAIL: violation(s, "assert", readStr(s, AC(0)));
   case X_IASSERT: if (s->expectAssert) { leaf(s, true); throw Kill(); } violation(s, "internal-assert", readStr(s, AC(0)) + " (line " + std::to_string(AC(2)) + " of " + readStr(s, AC(1)) + ")");
   case X_LIVE: r = VC(s->heapLive, 64); break;
   case X_CONC: r = VC(AC(0), 64); break;
   // intrinsics
   case X_ASSUMEI: { Val v = A(0); if (!v.e && !v.c) violation(s, "ub", "compiler assumption violated"); break; }
   case X_EXPECTI: r = rawv(f, d.ops[0]); break;
   case X_UMIN: { Val a = A(0), b = A(1); r = vite(vbin(O_ULT, a, b), a, b); break; }
   case X_UMAX: { Val a = A(0), b = A(1); r = vite(vbin(O_ULT, a, b), b, a); break; }
   case X_SMIN: { Val a = A(0), b = A(1); r = vite(vbin(O_SLT, a, b), a, b); break; }
   case X_SMAX: { Val a = A(0), b = A(1); r = vite(vbin(O_SLT, a, b), b, a); break; }
   case X_ABS: { Val a = A(0); r = vite(vbin(O_SLT, a, VC(0, a.w)), vbin(O_SUB, VC(0, a.w), a), a); break; }
   case X_CTLZ: case X_CTTZ: {
      Val a = A(0); unsigned w = a.w; if (!a.e) { unsigned k = 0; if (d.ext == X_CTLZ) while (k < w && !((a.c >> (w - 1 - k)) & 1)) k++; else while (k < w && !((a.c >> k) & 1)) k++; r = VC(k, w); }
      else { E acc = mkConst(w, w); for (unsigned i = 0; i < w; i++) { unsigned bit = d.ext == X_CTLZ ? i : w - 1 - i; unsigned cnt = d.ext == X_CTLZ ? w - 1 - i : w - 1 - i; acc = mkIte(mkExtract(a.e, bit, 1), mkConst(cnt, w), acc); } r = VE(acc); }
      break; }
   case X_CTPOP: { Val a = A(0); unsigned w = a.w; if (!a.e) { unsigned k = 0; for (unsigned i = 0; i < w; i++) k += (a.c >> i) & 1; r = VC(k, w); } else { std::vector<E> t; for (unsigned i = 0; i < w; i++) t.push_back(mkExtract(a.e, i, 1)); // tree of narrow adders
         while (t.size() > 1) { std::vector<E> u; for (size_t i = 0; i + 1 < t.size(); i += 2) { unsigned nw = std::max(t[i]->w, t[i + 1]->w) + 1; u.push_back(mkBin(O_ADD, mkZext(t[i], nw), mkZext(t[i + 1], nw))); } if (t.size() & 1) u.push_back(t.back()); t.swap(u); }
         r = VE(t[0]->w < w ? mkZext(t[0], w) : mkExtract(t[0], 0, w)); } break; }
   case X_BSWAP: { Val a = A(0); unsigned n = a.w / 8; E acc = nullptr; E e = toE(a); for (unsigned i = 0; i < n; i++) { E b = mkExtract(e, 8 * (n - 1 - i), 8); acc = acc ? mkConcat(b, acc) : b; } r = VE(acc); break; }
   case X_FSHL: case X_FSHR: {
      Val a = A(0), b = A(1), c = A(2); unsigned w = a.w; Val sh = vbin(O_UREM, c, VC(w, w)); Val inv = vbin(O_SUB, VC(w, w), sh);
      if (d.ext == X_FSHL) r = vite(vbin(O_EQ, sh, VC(0, w)), a, vbin(O_OR, vbin(O_SHL, a, sh), vbin(O_LSHR, b, inv)));
      else r = vite(vbin(O_EQ, sh, VC(0, w)), b, vbin(O_OR, vbin(O_LSHR, b, sh), vbin(O_SHL, a, inv)));
      break; }
   case X_USUBSAT: { Val a = A(0), b = A(1); r = vite(vbin(O_ULT, a, b), VC(0, a.w), vbin(O_SUB, a, b)); break; }
   case X_UADDSAT: { Val a = A(0), b = A(1); Val t = vbin(O_ADD, a, b); r = vite(vbin(O_ULT, t, a), VC(~(u128)0, a.w), t); break; }
   case X_OVF: {
      Val a = A(0), b = A(1); unsigned w = a.w; Val lo, ov; bool sg = d.sub == Intrinsic::sadd_with_overflow || d.sub == Intrinsic::ssub_with_overflow || d.sub == Intrinsic::smul_with_overflow;
      Op o = (d.sub == Intrinsic::uadd_with_overflow || d.sub == Intrinsic::sadd_with_overflow) ? O_ADD : (d.sub == Intrinsic::usub_with_overflow || d.sub == Intrinsic::ssub_with_overflow) ? O_SUB : O_MUL;
      unsigned W = o == O_MUL ? 2 * w : w + 1; if (W > 128) unsupported(s, "wide overflow intrinsic");
      auto ext = [&](const Val &v, unsigned W) { return sg ? VE(mkSext(toE(v), W)) : VE(mkZext(toE(v), W)); };
      Val wide = vbin(o, ext(a, W), ext(b, W)); lo = vbin(o, a, b); ov = vnot(vbin(O_EQ, wide, ext(lo, W)));
      f->regs[d.dst] = lo; f->regs[d.dst + 1] = ov; if (d.op == Instruction::Invoke) gotoEdge(s, f, d.edges[0]); else f->pc++; return; }
   case X_OBJSIZE: r = VC(~(u128)0, d.w); break;
   case X_ISCONST: r = VC(0, 1); break;
   case X_TYPEID: r = VC(typeIndex(AC(0)), 32); break;
   case X_PTRMASK: r = vbin(O_AND, A(0), A(1)); break;
   case X_FABS: { Val a = A(0); needC(s, a); r = fromD(std::fabs(asD(a)), a.w); break; }
   case X_SQRT: { Val a = A(0); needC(s, a); r = a.w == 32 ? fromD(sqrtf((float)asD(a)), 32) : fromD(std::sqrt(asD(a)), 64); break; }
#define VP_FN1(X, F) case X: { Val a = A(0); needC(s, a); r = a.w == 32 ? fromD(F((float)asD(a)), 32) : fromD(F(asD(a)), 64); break; }
   VP_FN1(X_LOG, std::log) VP_FN1(X_LOG2, std::log2) VP_FN1(X_LOG10, std::log10) VP_FN1(X_EXP, std::exp) VP_FN1(X_FLOOR, std::floor) VP_FN1(X_CEIL, std::ceil) VP_FN1(X_FTRUNC, std::trunc) VP_FN1(X_ROUND, std::round)
   case X_FMIN: case X_FMAX: { Val a = A(0), b = A(1); needC(s, a); needC(s, b); r = fromD(d.ext == X_FMIN ? std::fmin(asD(a), asD(b)) : std::fmax(asD(a), asD(b)), a.w); break; }
   case X_POW: { Val a = A(0), b = A(1); needC(s, a); needC(s, b); r = fromD(std::pow(asD(a), asD(b)), a.w); break; }
   case X_FMA: { Val a = A(0), b = A(1), c = A(2); needC(s, a); needC(s, b); needC(s, c); r = a.w == 32 ? fromD((float)((float)asD(a) * (float)asD(b)) + (float)asD(c), 32) : fromD(asD(a) * asD(b) + asD(c), 64); break; }
   default: { std::string n; if (auto *CB = dyn_cast<CallBase>(d.I)) if (auto *F = CB->getCalledFunction()) n = F->getName().str(); unsupported(s, "external function " + n); }
   }
   f = s->top(); finishCall(s, f, d, r);
}

// executes until the path ends (returns true) or (in break mode) until a fork happened (returns false)
static bool run(State *s) {
   u64 startSteps = s->steps;
   struct Acct { State *s; u64 st; ~Acct() { R.instr += s->steps - st; } } acct{s, startSteps};
   try {
      for (;;) {
         if (breakOnFork && !pendingNew.empty()) return false;
         if ((++s->steps & 0x3ffff) == 0 && abandon()) { R.pending++; throw Kill(); }
         if (s->steps > optMaxSteps) violation(s, "nontermination", "no result after " + std::to_string(optMaxSteps) + " instructions on one path");
         Frame *f = s->top(); DI &d = f->f->code[f->pc]; d.seen = true;
         switch (d.op) {
         case Instruction::Br: {
            if (d.ops.empty()) { gotoEdge(s, f, d.edges[0]); break; }
            Dec x = decide(s, getv(s, f, d.ops[0]));
            if (x.other) { Frame *g = x.other->top(); gotoEdge(x.other, g, d.edges[x.side ? 1 : 0]); f = s->top(); }
            gotoEdge(s, f, d.edges[x.side ? 0 : 1]); break; }
         case Instruction::Switch: {
            Val v = getv(s, f, d.ops[0]);
            if (!v.e) { size_t k = 0; for (size_t i = 0; i < d.cases.size(); i++) if (d.cases[i] == v.c) { k = i + 1; break; } gotoEdge(s, f, d.edges[k]); break; }
            u128 c = evalFresh(v.e, s->model); size_t k = 0; for (size_t i = 0; i < d.cases.size(); i++) if (d.cases[i] == c) { k = i + 1; break; }
            E cond; if (k) cond = mkBin(O_EQ, v.e, mkConst(c, v.w)); else { cond = mkConst(1, 1); for (auto cc : d.cases) cond = mkBin(O_AND, cond, mkNot(mkBin(O_EQ, v.e, mkConst(cc, v.w)))); }
            Dec x = decide(s, VE(cond)); // `other` retries the switch with this case excluded
            if (!x.side) fatal("switch"); f = s->top(); gotoEdge(s, f, d.edges[k]); break; }
         case Instruction::Ret: {
            Val rv[64]; u32 n = d.ops.empty() ? 0 : d.n; if (n > 64) unsupported(s, "large aggregate return"); for (u32 i = 0; i < n; i++) rv[i] = rawv(f, d.ops[0] >= 0 ? d.ops[0] + (int)i : d.ops[0] - (int)i);
            if (s->st.size() == 1) {
               if (s->entry >= 0) { if (s->expectAssert) violation(s, "assert", "an expected safe-mode assertion did not fire"); popFrame(s); leaf(s, false); } else popFrame(s);
               return true;
            }
            popFrame(s); retTo(s, rv, n); break; }
         case Instruction::Unreachable: violation(s, "ub", "unreachable code reached");
         case Instruction::Load: {
            u64 a; Val p = getv(s, f, d.ops[0]); if (p.e) { a = concretize(s, d.ops[0]); f = s->top(); } else a = (u64)p.c;
            for (size_t i = 0; i < d.leaves.size(); i++) f->regs[d.dst + i] = loadLeaf(s, a, d.leaves[i]);
            f->pc++; break; }
         case Instruction::Store: {
            u64 a; Val p = getv(s, f, d.ops[0]); if (p.e) { a = concretize(s, d.ops[0]); f = s->top(); } else a = (u64)p.c;
            for (size_t i = 0; i < d.leaves.size(); i++) storeLeaf(s, a, d.leaves[i], rawv(f, d.ops[1] >= 0 ? d.ops[1] + (int)i : d.ops[1] - (int)i));
            f->pc++; break; }
         case Instruction::GetElementPtr: {
            Val b = rawv(f, d.ops[0]); if (b.e == UNDEF) { f->regs[d.dst] = b; f->pc++; break; }
            if (d.imm) b = vbin(O_ADD, b, VC(d.imm, 64));
            for (auto &g : d.gep) { Val x = getv(s, f, g.op); if (g.w < 64) x = x.e ? VE(mkSext(x.e, 64)) : VC((u128)sextw(x.c, g.w), 64); else if (g.w > 64) unsupported(s, "gep index width"); b = vbin(O_ADD, b, vbin(O_MUL, x, VC(g.scale, 64))); }
            f->regs[d.dst] = b; f->pc++; break; }
         case Instruction::Alloca: { u64 n = concretize(s, d.ops[0]); f = s->top(); u64 a = allocObj(s, n * d.imm, d.sub, K_STACK, 0); f->allocas.push_back(a); f->regs[d.dst] = VC(a, 64); f->pc++; break; }
         case Instruction::ICmp: { for (u32 i = 0; i < d.n; i++) { auto sl = [&](int o) { return o >= 0 ? o + (int)i : o - (int)i; }; f->regs[d.dst + i] = icmp(d.sub, getv(s, f, sl(d.ops[0])), getv(s, f, sl(d.ops[1]))); } f->pc++; break; }
         case Instruction::Select: {
            if (d.sub) { for (u32 i = 0; i < d.n; i++) { auto sl = [&](int o) { return o >= 0 ? o + (int)i : o - (int)i; }; Val c = getv(s, f, sl(d.ops[0])); f->regs[d.dst + i] = vite(c, getv(s, f, sl(d.ops[1])), getv(s, f, sl(d.ops[2]))); } f->pc++; break; }
            Val c = getv(s, f, d.ops[0]);
            if (c.e && d.leaves.size() == 1 && !d.leaves[0].ptr) { // integer: keep symbolic
               const Val &x = rawv(f, d.ops[1]), &y = rawv(f, d.ops[2]);
               f->regs[d.dst] = vite(c, x, y); f->pc++; break;
            }
            if (c.e && d.leaves.size() == 1) { const Val &x = rawv(f, d.ops[1]), &y = rawv(f, d.ops[2]); if (!x.e && !y.e && x.c == y.c) { f->regs[d.dst] = x; f->pc++; break; } }
            Dec x = decide(s, c);
            auto pick = [&](State *t, bool side) { Frame *g = t->top(); int o = d.ops[side ? 1 : 2]; for (u32 i = 0; i < d.n; i++) g->regs[d.dst + i] = rawv(g, o >= 0 ? o + (int)i : o - (int)i); g->pc++; };
            if (x.other) pick(x.other, !x.side);
            pick(s, x.side); break; }
         case Instruction::Call: case Instruction::Invoke: {
            CFunc *cal = d.callee;
            if (d.ext >= 0) { doExt(s, f, d); break; }
            size_t na = d.offs.size();
            if (!cal) {
               u64 a = concretize(s, d.ops[na]); f = s->top(); auto it = fnAt.find(a); if (it == fnAt.end()) violation(s, "memory", "call through an invalid function pointer");
               const Function *T = it->second; if (T->isDeclaration()) { auto e2 = extTab.find(T->getName().str()); if (e2 == extTab.end()) unsupported(s, "indirect call to external " + T->getName().str()); DI d2 = d; d2.ext = e2->second; doExt(s, f, d2); break; }
               cal = getFunc(T);
            }
            decode(cal); Frame *caller = f; 
            if (cal->argSlots.size() != na) { if (cal->argSlots.size() > na || cal->F->isVarArg()) unsupported(s, "argument count mismatch"); na = cal->argSlots.size(); }
            pushFrame(s, cal); Frame *nf = s->st.back();
            for (size_t i = 0; i < na; i++) {
               if (d.byval[i]) {
                  u64 src = (u64)getv(s, caller, d.ops[i]).c; u64 a = allocObj(s, d.byval[i], 16, K_STACK, 0); nf->allocas.push_back(a); u32 so; Obj *o = access(s, src, d.byval[i], false, so); Obj *q = s->mem.back().o;
                  memcpy(q->bytes, o->bytes + so, d.byval[i]); if (o->sym) { memcpy((void *)q->sym, o->sym + so, d.byval[i] * sizeof(SB)); } else memset((void *)q->sym, 0, d.byval[i] * sizeof(SB));
                  nf->regs[cal->argSlots[i]] = VC(a, 64); continue;
               }
               for (u32 j = 0; j < d.offs[i]; j++) nf->regs[cal->argSlots[i] + j] = rawv(caller, d.ops[i] >= 0 ? d.ops[i] + (int)j : d.ops[i] - (int)j);
            }
            break; }
         case Instruction::LandingPad: f->regs[d.dst] = VC(s->lpExc, 64); f->regs[d.dst + 1] = VC(s->lpSel, 32); f->pc++; break;
         case Instruction::Resume: { u64 p = (u64)getv(s, f, d.ops[0]).c; unwind(s, p, false); break; }
         case Instruction::ExtractValue: for (u32 i = 0; i < d.n; i++) f->regs[d.dst + i] = rawv(f, d.ops[0] >= 0 ? d.ops[0] + (int)i : d.ops[0] - (int)i); f->pc++; break;
         case Instruction::InsertValue: {
            for (u32 i = 0; i < d.n; i++) f->regs[d.dst + i] = rawv(f, d.ops[0] >= 0 ? d.ops[0] + (int)i : d.ops[0] - (int)i);
            for (u32 i = 0; i < d.w2; i++) f->regs[d.dst + d.imm + i] = rawv(f, d.ops[1] >= 0 ? d.ops[1] + (int)i : d.ops[1] - (int)i);
            f->pc++; break; }
         case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::ZExt: case Instruction::SExt: case Instruction::BitCast: case Instruction::AddrSpaceCast: {
            for (u32 i = 0; i < d.n; i++) {
               Val v = rawv(f, d.ops[0] >= 0 ? d.ops[0] + (int)i : d.ops[0] - (int)i);
               if (v.e == UNDEF) { if (d.w == v.w) { f->regs[d.dst + i] = v; continue; } v = getv(s, f, d.ops[0] >= 0 ? d.ops[0] + (int)i : d.ops[0] - (int)i); }
               if (d.w == v.w) f->regs[d.dst + i] = v;
               else if (d.w < v.w) f->regs[d.dst + i] = v.e ? VE(mkExtract(v.e, 0, d.w)) : VC(v.c, d.w);
               else if (d.op == Instruction::SExt) f->regs[d.dst + i] = v.e ? VE(mkSext(v.e, d.w)) : VC((u128)sextw(v.c, v.w), d.w);
               else f->regs[d.dst + i] = v.e ? VE(mkZext(v.e, d.w)) : VC(v.c, d.w);
            }
            f->pc++; break; }
         case Instruction::Freeze: for (u32 i = 0; i < d.n; i++) f->regs[d.dst + i] = getv(s, f, d.ops[0] >= 0 ? d.ops[0] + (int)i : d.ops[0] - (int)i); f->pc++; break;
         case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
            Val b = getv(s, f, d.ops[1]); if (d.n != 1) unsupported(s, "vector division");
            if (!b.e) { if (!b.c) violation(s, "ub", "division by zero"); }
            else { Dec x = decide(s, vbin(O_EQ, b, VC(0, b.w))); /* `other` re-executes with the opposite fact */ if (x.side) violation(s, "ub", "division by zero"); f = s->top(); }
            f->regs[d.dst] = binop(s, d.op, getv(s, f, d.ops[0]), b); f->pc++; break; }
         case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
            for (u32 i = 0; i < d.n; i++) { auto sl = [&](int o) { return o >= 0 ? o + (int)i : o - (int)i; }; f->regs[d.dst + i] = binop(s, d.op, getv(s, f, sl(d.ops[0])), getv(s, f, sl(d.ops[1]))); }
            f->pc++; break; }
         case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
            Val a = getv(s, f, d.ops[0]), b = getv(s, f, d.ops[1]);
            if (d.op == Instruction::FAdd && !b.e && a.e && (a.w == 32 || a.w == 64) && asD(b) == 0) { f->regs[d.dst] = faddZero(a, b); f->pc++; break; }
            needC(s, a); needC(s, b); double x = asD(a), y = asD(b), z = 0;
            if (a.w == 32) { float p = (float)x, q = (float)y; z = d.op == Instruction::FAdd ? p + q : d.op == Instruction::FSub ? p - q : d.op == Instruction::FMul ? p * q : p / q; }
            else z = d.op == Instruction::FAdd ? x + y : d.op == Instruction::FSub ? x - y : d.op == Instruction::FMul ? x * y : x / y;
            f->regs[d.dst] = fromD(z, a.w); f->pc++; break; }
         case Instruction::FNeg: { Val a = getv(s, f, d.ops[0]); needC(s, a); f->regs[d.dst] = fromD(-asD(a), a.w); f->pc++; break; }
         case Instruction::FCmp: {
            Val a = getv(s, f, d.ops[0]), b = getv(s, f, d.ops[1]);
            if ((a.e || b.e) && (a.w == 32 || a.w == 64)) { f->regs[d.dst] = fcmpSym(d.sub, a, b); f->pc++; break; }
            needC(s, a); needC(s, b); double x = asD(a), y = asD(b); bool un = std::isnan(x) || std::isnan(y); bool r;
            switch (d.sub) { case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break;
            case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; default: r = d.sub == CmpInst::FCMP_TRUE; }
            f->regs[d.dst] = VC(r, 1); f->pc++; break; }
         case Instruction::FPTrunc: case Instruction::FPExt: { Val a = getv(s, f, d.ops[0]); needC(s, a); f->regs[d.dst] = fromD(asD(a), d.w); f->pc++; break; }
         case Instruction::FPToUI: case Instruction::FPToSI: { Val a = getv(s, f, d.ops[0]); needC(s, a); double x = asD(a); f->regs[d.dst] = d.op == Instruction::FPToUI ? VC((u128)x, d.w) : VC((u128)(s128)x, d.w); f->pc++; break; }
         case Instruction::UIToFP: case Instruction::SIToFP: { Val a = getv(s, f, d.ops[0]); u64 sz = a.e ? concretize(s, d.ops[0]) : (u64)a.c; (void)sz; f = s->top(); a = getv(s, f, d.ops[0]); if (a.e) unsupported(s, "symbolic integer to floating point");
            if (d.w == 32) { float x = d.op == Instruction::UIToFP ? (float)(u64)a.c : (float)(int64_t)sextw(a.c, a.w); f->regs[d.dst] = fromD(x, 32); } else { double x = d.op == Instruction::UIToFP ? (double)(u64)a.c : (double)(int64_t)sextw(a.c, a.w); f->regs[d.dst] = fromD(x, 64); } f->pc++; break; }
         case Instruction::Fence: f->pc++; break;
         case Instruction::AtomicRMW: {
            u64 a = concretize(s, d.ops[0]); f = s->top(); Val v = getv(s, f, d.ops[1]); Leaf l{d.w, 0, false}; Val o = loadLeaf(s, a, l); Val nv;
            switch (d.sub) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = vbin(O_ADD, o, v); break; case AtomicRMWInst::Sub: nv = vbin(O_SUB, o, v); break; case AtomicRMWInst::And: nv = vbin(O_AND, o, v); break; case AtomicRMWInst::Or: nv = vbin(O_OR, o, v); break; default: unsupported(s, "atomicrmw"); }
            storeLeaf(s, a, l, nv); f->regs[d.dst] = o; f->pc++; break; }
         case Instruction::ShuffleVector: { std::vector<Val> t; for (int o : d.ops) t.push_back(rawv(f, o)); for (size_t i = 0; i < t.size(); i++) f->regs[d.dst + i] = t[i]; f->pc++; break; }
         case Instruction::ExtractElement: { Val ix = getv(s, f, d.ops[1]); if (ix.e || ix.c >= d.w2) unsupported(s, "extractelement index"); int o = d.ops[0]; f->regs[d.dst] = rawv(f, o >= 0 ? o + (int)ix.c : o - (int)ix.c); f->pc++; break; }
         case Instruction::InsertElement: { Val ix = getv(s, f, d.ops[2]); if (ix.e || ix.c >= d.w2) unsupported(s, "insertelement index"); int o = d.ops[0]; std::vector<Val> t; for (u32 i = 0; i < d.w2; i++) t.push_back(rawv(f, o >= 0 ? o + (int)i : o - (int)i)); t[ix.c] = rawv(f, d.ops[1]); for (u32 i = 0; i < d.w2; i++) f->regs[d.dst + i] = t[i]; f->pc++; break; }
         default: { std::string n; raw_string_ostream os(n); d.I->print(os); unsupported(s, "instruction " + n); }
         }
      }
   } catch (Kill &) { return true; }
}
static Val binop(State *s, unsigned opc, const Val &a, const Val &b) { Op o = opOf(opc); if (o == O_UNDEF) unsupported(s, "binary operator"); return vbin(o, a, b); }

// ---------------------------------------------------------------- output
static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static std::string hexs(u128 v) { char b[64]; if (v >> 64) snprintf(b, 64, "%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, 64, "%llx", (unsigned long long)v); return b; }
static void wInputs(FILE *o, const std::vector<InRec> &in, const Model &m) {
   fprintf(o, "["); bool c = false;
   for (auto &i : in) { u128 v = i.e ? evalFresh(i.e, m) : i.c; fprintf(o, "%s[\"%c\",%u,\"%s\"]", c ? "," : "", i.kind ? 'c' : 's', i.w, hexs(v).c_str()); c = true; }
   fprintf(o, "]");
}
static void writeResult(const std::string &path) {
   FILE *o = fopen(path.c_str(), "w"); if (!o) fatal("cannot write " + path);
   fprintf(o, "{\"error\":\"%s\",\"pending\":%llu,\"queries\":%llu,\"qsat\":%llu,\"qunsat\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"branches\":%llu,\"forks\":%llu,\"instr\":%llu,\"model_hits\":%llu,\"core_hits\":%llu,\"guess_hits\":%llu,\"solver_s\":%.3f,\"max_query_ms\":%llu,\"entries\":{", esc(R.error).c_str(), (unsigned long long)R.pending, (unsigned long long)R.queries, (unsigned long long)R.qsat, (unsigned long long)R.qunsat, (unsigned long long)R.asserts, (unsigned long long)R.assertQ, (unsigned long long)R.branches, (unsigned long long)R.forks, (unsigned long long)R.instr, (unsigned long long)R.modelHits, (unsigned long long)R.coreHits, (unsigned long long)R.guessHits, R.solver, (unsigned long long)R.maxq);
   for (size_t i = 0; i < entryNames.size(); i++) fprintf(o, "%s\"%s\":{\"paths\":%llu,\"assumed\":%llu,\"expected\":%llu}", i ? "," : "", entryNames[i].c_str(), (unsigned long long)R.es[i].paths, (unsigned long long)R.es[i].assumed, (unsigned long long)R.es[i].expected);
   auto wm = [&](const char *k, std::map<std::string, u64> &m) { fprintf(o, ",\"%s\":{", k); bool c = false; for (auto &p : m) { fprintf(o, "%s\"%s\":%llu", c ? "," : "", esc(p.first).c_str(), (unsigned long long)p.second); c = true; } fprintf(o, "}"); };
   fprintf(o, "}"); wm("labels", R.labels); wm("labels_symbolic", R.labelsSym); wm("reach", R.reaches);
   fprintf(o, ",\"violations\":["); bool c = false;
   for (auto &v : R.viols) { fprintf(o, "%s{\"entry\":\"%s\",\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"stack\":[", c ? "," : "", v.entry >= 0 ? entryNames[v.entry].c_str() : "ctors", v.kind.c_str(), esc(v.msg).c_str(), esc(v.where).c_str()); bool d = false; for (auto &x : v.stack) { fprintf(o, "%s\"%s\"", d ? "," : "", esc(x).c_str()); d = true; } fprintf(o, "],\"inputs\":"); wInputs(o, v.in, v.m); fprintf(o, "}"); c = true; }
   fprintf(o, "],\"samples\":["); c = false;
   for (auto &p : R.samples) { fprintf(o, "%s{\"entry\":\"%s\",\"expected\":%s,\"inputs\":", c ? "," : "", entryNames[p.entry].c_str(), p.expected ? "true" : "false"); wInputs(o, p.in, p.m); fprintf(o, ",\"obs\":["); bool d = false; for (auto x : p.obs) { fprintf(o, "%s\"%s\"", d ? "," : "", hexs(x).c_str()); d = true; } fprintf(o, "]}"); c = true; }
   // executed source lines and functions of the code under test
   std::map<std::string, std::set<unsigned>> lines; std::set<std::string> fns;
   for (auto &p : funcs) if (p.second->decoded) for (auto &d : p.second->code) if (d.seen && d.I) {
      const DILocation *L = d.I->getDebugLoc();
      for (const DILocation *q = L; q; q = q->getInlinedAt()) {
         std::string fn = q->getFilename().str(); if (fn.compare(0, optPrefix.size(), optPrefix) != 0) continue;
         std::string sf = fn.substr(optPrefix.size()); if (q->getLine()) lines[sf].insert(q->getLine());
         if (auto *SP = q->getScope()->getSubprogram()) fns.insert(sf + ":" + SP->getName().str());
      } }
   fprintf(o, "],\"lines\":{"); c = false;
   for (auto &p : lines) { fprintf(o, "%s\"%s\":[", c ? "," : "", p.first.c_str()); bool d = false; for (unsigned l : p.second) { fprintf(o, "%s%u", d ? "," : "", l); d = true; } fprintf(o, "]"); c = true; }
   fprintf(o, "},\"functions\":["); c = false; for (auto &x : fns) { fprintf(o, "%s\"%s\"", c ? "," : "", esc(x).c_str()); c = true; }
   fprintf(o, "]}\n"); fclose(o);
}
static bool abandon() { // long overdue: gives up in the middle of a path
   double t = now(); if (t - tStart > optDeadline + 20) return true;
   u64 tv = sh ? (u64)sh->tViol : 0; return tv && t * 1000 - tv > 40000;
}
static bool shouldStop() {
   if (now() - tStart > optDeadline) return true;
   if (sh->stop) return true;
   if (sh->viols >= 12) return true;
   u64 tv = sh->tViol; if (tv && now() * 1000 - tv > 15000) return true;
   return false;
}

int main(int argc, char **argv) {
   tStart = now(); std::string bc;
   for (int i = 1; i < argc; i++) {
      std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
      if (a == "-o") optOut = nx(); else if (a == "-j") optWorkers = std::stoi(nx()); else if (a == "--steps") optMaxSteps = std::stoull(nx()); else if (a == "--seed") optSeed = std::stoull(nx());
      else if (a == "--deadline") optDeadline = std::stod(nx()); else if (a == "--split") optSplit = std::stoi(nx()); else if (a == "--qtimeout") optQTimeout = std::stoi(nx()); else if (a == "--entry") optEntries.push_back(nx());
      else if (a == "--samples") optSamples = std::stoi(nx()); else if (a == "--prefix") optPrefix = nx(); else bc = a;
   }
   lcg ^= optSeed * 0x9E3779B97F4A7C15ULL; rnd(); rnd();
   CTX = new LLVMContext; SMDiagnostic err; auto mod = parseIRFile(bc, err, *CTX); if (!mod) fatal("cannot read " + bc + ": " + err.getMessage().str()); M = mod.release(); DL = &M->getDataLayout();
   // addresses of mutable globals first (dynamic region), then initialisers
   State *s0 = new State; s0->nextAddr = DYN_BASE + 0x1000;
   std::vector<const GlobalVariable *> ivars;
   for (auto &G : M->globals()) {
      if (G.getName().starts_with("llvm.")) continue;
      if (G.isConstant() || !G.hasInitializer()) continue;
      u64 size = DL->getTypeAllocSize(G.getValueType()); u64 al = G.getAlign() ? G.getAlign()->value() : 16;
      u64 a = allocObj(s0, size, al, K_GLOBAL, 0, true); gaddr[&G] = a; ivars.push_back(&G);
   }
   for (auto *G : ivars) { u32 off; Obj *o = access(s0, gaddr[G], DL->getTypeAllocSize(G->getValueType()), true, off); if (o) writeInit(o, G->getInitializer()); }
   for (auto &F : *M) {
      if (F.isDeclaration() || !F.getName().starts_with("vp_entry_")) continue;
      std::string nm = F.getName().str().substr(9); if (!optEntries.empty() && std::find(optEntries.begin(), optEntries.end(), nm) == optEntries.end()) continue;
      entryNames.push_back(nm); entryFns.push_back(getFunc(&F));
   }
   if (entryNames.empty()) fatal("no entries");
   R.es.resize(entryNames.size());
   sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (sh) Shared(); sh->next = 0; sh->viols = 0; sh->stop = 0; sh->tViol = 0;
   solverInit();
   auto sortC = []() { std::sort(cmem.begin(), cmem.end(), [](const MemEnt &a, const MemEnt &b) { return a.base < b.base; }); };
   sortC();
   std::deque<State *> work; std::string errOut;
   try {
      // global constructors
      if (auto *GC = M->getGlobalVariable("llvm.global_ctors")) if (auto *A = dyn_cast<ConstantArray>(GC->getInitializer())) for (auto &op : A->operands()) {
         auto *F = dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1)->stripPointerCasts()); if (!F) continue;
         s0->entry = -1; pushFrame(s0, getFunc(F)); run(s0); if (!pendingNew.empty()) fatal("global constructor forked"); if (!s0->st.empty()) fatal("global constructor did not finish");
         s0->steps = 0;
      }
      for (size_t i = 0; i < entryFns.size(); i++) { State *s = s0->clone(); s->entry = i; pushFrame(s, entryFns[i]); work.push_back(s); }
      breakOnFork = true;
      while (!work.empty() && work.size() < optSplit && !shouldStop()) {
         State *s = work.front(); work.pop_front();
         bool done = run(s);
         if (done) delete s; else work.push_back(s);
         for (auto n : pendingNew) work.push_back(n); pendingNew.clear();
      }
   } catch (int) { errOut = R.error; }
   if (!errOut.empty()) { writeResult(optOut); return 2; }
   breakOnFork = false;
   if (work.empty()) { writeResult(optOut); return 0; }
   std::vector<State *> init(work.begin(), work.end());
   // shuffle for balance
   for (size_t i = init.size(); i > 1; i--) std::swap(init[i - 1], init[rnd() % i]);
   fflush(nullptr);
   std::vector<pid_t> pids; std::vector<std::string> files;
   for (unsigned w = 0; w < optWorkers; w++) {
      std::string fn = optOut + ".w" + std::to_string(w); files.push_back(fn);
      pid_t p = fork(); if (p < 0) fatal("fork");
      if (p == 0) {
         if (w) { auto keepSeen = 0; (void)keepSeen; Result Z; Z.es.resize(entryNames.size()); R = Z; }
         lcg ^= (w + 1) * 0x2545F4914F6CDD1DULL; rnd();
         int rc = 0; std::vector<State *> stack;
         try {
            while (!shouldStop()) {
               u64 k = sh->next++; if (k >= init.size()) break;
               stack.push_back(init[k]);
               while (!stack.empty()) {
                  if (shouldStop()) { R.pending += stack.size(); break; }
                  State *s = stack.back(); stack.pop_back();
                  run(s); delete s;
                  for (auto n : pendingNew) stack.push_back(n); pendingNew.clear();
               }
            }
         } catch (int) { rc = 2; sh->stop = 1; }
         if (getenv("VP_DEPTH")) fprintf(stderr, "depth %u\n", dbgDepth); writeResult(fn); _exit(rc);
      }
      pids.push_back(p);
   }
   int bad = 0; for (auto p : pids) { int st = 0; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad = 1; }
   u64 nx = sh->next; u64 left = nx >= init.size() ? 0 : init.size() - nx;
   FILE *o = fopen(optOut.c_str(), "w"); fprintf(o, "{\"workers\":["); for (size_t i = 0; i < files.size(); i++) fprintf(o, "%s\"%s\"", i ? "," : "", files[i].c_str()); fprintf(o, "],\"unstarted\":%llu,\"wall_s\":%.3f,\"bad\":%d}\n", (unsigned long long)left, now() - tStart, bad); fclose(o);
   return bad ? 2 : 0;
}
