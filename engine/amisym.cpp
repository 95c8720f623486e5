#include <atomic>
#include <thread>
// amisym: symbolic executor for LLVM IR (see DESIGN.md).
#include "expr.hpp"
#include "solve.hpp"
#include <llvm/ADT/APFloat.h>
#include <llvm/ADT/APSInt.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/Scalar/Scalarizer.h>
#include <llvm/Transforms/Utils/LowerSwitch.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <random>
#include <sstream>
#include <thread>
#include <unistd.h>
using namespace llvm;

// ------------------------------------------------------------------ values
enum VK : uint8_t { VU, VC, VI, VB, VR, VN, VG };
struct AggV;
struct Val {
  VK k = VU; uint16_t w = 0;
  union { uint64_t c; IE e; BE b; PE p; const AggV* g; double d; };
  Val() : c(0) {}
  bool operator==(const Val& o) const { return k == o.k && w == o.w && c == o.c; }
};
struct AggV { std::vector<Val> v; };
static Val vC(uint64_t c, int w) { Val v; v.k = VC; v.w = w; v.c = mk(c, w); return v; }
static Val vI(IE e) { if (e->op == I_CONST) return vC(e->c, e->w); Val v; v.k = VI; v.w = e->w; v.e = e; return v; }
static Val vB(BE b) { if (b->op == B_TRUE) return vC(1, 1); if (b->op == B_FALSE) return vC(0, 1); Val v; v.k = VB; v.w = 1; v.b = b; return v; }
static Val vR(PE p) { Val v; v.k = VR; v.w = 64; v.p = p; return v; }
static Val vN(double d) { Val v; v.k = VN; v.w = 64; v.d = d; return v; }
static Val vD(double d) { return std::isfinite(d) ? vR(pDouble(d)) : vN(d); }
struct AggH { size_t operator()(const AggV* a) const { size_t h = a->v.size(); for (auto& x : a->v) h = h * 1000003 + x.c * 31 + x.k; return h; } };
struct AggE { bool operator()(const AggV* a, const AggV* b) const { return a->v == b->v; } };
static std::unordered_set<const AggV*, AggH, AggE> aggtab;
static Val vG(std::vector<Val>&& v) { AggV* a = new AggV{std::move(v)}; auto it = aggtab.find(a); if (it != aggtab.end()) { delete a; a = const_cast<AggV*>(*it); } else aggtab.insert(a); Val r; r.k = VG; r.g = a; return r; }
static BE asB(const Val& v) { if (v.k == VB) return v.b; if (v.k == VC) return bConst(v.c & 1); if (v.k == VI) return bNot(bICmp(P_EQ, iBin(I_AND, v.e, iConst(1, v.w)), iConst(0, v.w))); fail("undef", "boolean from undefined value"); }
static IE asI(const Val& v) { if (v.k == VC) return iConst(v.c, v.w); if (v.k == VI) return v.e; if (v.k == VB) return iIte(v.b, iConst(1, 1), iConst(0, 1)); fail("undef", "integer from non-integer value kind " + std::to_string(v.k)); }

// ------------------------------------------------------------------ memory
enum { T_UNINIT = 0, T_CONT = 0x40, T_RAW = 0x10, T_CELL = 0x20, T_CELLCONT = 0x80, T_FP = 0x08 };
static inline int lg(uint32_t s) { int k = 0; while ((1u << k) < s) k++; return k; }
struct Obj {
  uint32_t size; char kind; std::string* name = nullptr;
  std::vector<uint8_t> d, t; std::map<uint32_t, Val> cells;
};
typedef std::shared_ptr<Obj> ObjP;
static const int CH = 256;
struct Chunk { ObjP o[CH]; };
typedef std::shared_ptr<Chunk> ChunkP;
struct Mem {
  std::vector<ChunkP> ch; uint32_t next = 1; std::map<uint32_t, char> dummy;
  Obj* get(uint32_t id) const { if (id / CH >= ch.size() || !ch[id / CH]) return nullptr; return ch[id / CH]->o[id % CH].get(); }
  Chunk& wch(uint32_t id) { size_t k = id / CH; if (k >= ch.size()) ch.resize(k + 1); if (!ch[k]) ch[k] = std::make_shared<Chunk>(); else if (ch[k].use_count() > 1) ch[k] = std::make_shared<Chunk>(*ch[k]); return *ch[k]; }
  Obj* wr(uint32_t id) { Chunk& c = wch(id); ObjP& p = c.o[id % CH]; if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return p.get(); }
  uint64_t alloc(uint32_t size, char kind) { uint32_t id = next++; auto o = std::make_shared<Obj>(); o->size = size; o->kind = kind; o->d.assign(size, 0); o->t.assign(size, 0); wch(id).o[id % CH] = o; return (uint64_t)id << 32; }
  void release(uint32_t id) { wch(id).o[id % CH].reset(); }
};

// ------------------------------------------------------------------ precompiled functions
struct Opnd { int reg; Val c; };  // reg<0: constant
struct FnInfo; struct BBInfo;
struct CI {
  Instruction* I; unsigned op; int dst = -1; std::vector<Opnd> o; int w = 0; BBInfo *b0 = nullptr, *b1 = nullptr;
  FnInfo* callee = nullptr; Function* ext = nullptr; int builtin = -1; bool executed = false;
  uint64_t x = 0; std::vector<std::pair<uint64_t, int>> gep; // gep: (stride, operand index)
  std::vector<std::pair<uint64_t, BBInfo*>> sw; int fpsz = 0; long mergeFail = 0, mergeOk = 0;
};
struct BBInfo { BasicBlock* B; FnInfo* f; int idx; std::vector<CI> code; int nphi = 0; std::map<BBInfo*, std::vector<Opnd>> phiIn; std::vector<int> phiDst; BBInfo* ipdom = nullptr; bool canRet = false; std::vector<bool> live; bool liveDone = false; };
struct FnInfo { Function* F; std::string name; std::vector<std::unique_ptr<BBInfo>> bbs; std::map<BasicBlock*, BBInfo*> bmap; DenseMap<Value*, int> regs; int nregs = 0; bool analysed = false; };

struct Frame { FnInfo* f; std::vector<Val> r; BBInfo* bb; int ip; std::vector<uint32_t> allocas; CI* call; };
struct State {
  std::vector<Frame> st; Mem mem; std::vector<BE> pc; std::vector<uint64_t> dom; std::map<IE, uint64_t> conc;
  std::vector<std::pair<std::string, Val>> obs; bool tainted = false;
};
typedef std::unique_ptr<State> SP;

struct Violation { std::string msg, kind, where; std::vector<std::map<std::string, std::string>> models; std::string detail; };
struct CheckStat { long reached = 0, ident = 0, smt = 0, viol = 0, inconcl = 0; };

// ------------------------------------------------------------------ engine globals
static std::unique_ptr<Module> M; static LLVMContext Ctx; static const DataLayout* DL;
static std::map<Function*, std::unique_ptr<FnInfo>> fns;
static std::map<Function*, uint64_t> fnAddr; static std::map<uint64_t, Function*> addrFn;
static std::map<GlobalVariable*, uint64_t> gvAddr;
static std::map<std::string, int> params; static std::set<std::string> ufs;
static std::vector<Violation> viols; static std::map<std::string, CheckStat> checks; static std::map<std::string, long> reaches;
static long nInstr = 0, nForks = 0, nMerges = 0, nPaths = 0, nPruned = 0, nBranch = 0, nErrPaths = 0, nConc = 0;
static std::vector<std::string> inconclusive; static std::vector<std::string> traces; static int wantTraces = 3;
static double tLimit = 600; static std::chrono::steady_clock::time_point T0; static bool incomplete = false;
static bool strictUB = false, ieeeOn = false; static int mergeOn = 1; static unsigned seed = 1; static int maxViol = 4;
static std::map<std::string, int> ivarByName; static std::vector<std::string> rvarNames;
static std::map<std::string, std::pair<int,bool>> rvars;   // name -> atom, positive
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
struct PathEnd {}; struct PathError { std::string kind, msg; };
struct ForkVal { IE e; }; struct ForkCond { BE b; };
[[noreturn]] static void perr(const std::string& k, const std::string& m) { throw PathError{k, m}; }

// ------------------------------------------------------------------ constants
static mpq_class apfToQ(const APFloat& f) {
  SmallVector<char, 64> s; APFloat g = f; bool loss;
  if (&g.getSemantics() == &APFloat::IEEEdouble()) return mpq_class(g.convertToDouble());
  if (g.isZero()) return 0;
  // exact: mantissa * 2^exp
  int e = ilogb(g); APFloat m = scalbn(g, -e + 112, APFloat::rmNearestTiesToEven); (void)loss; (void)s;
  APSInt ai(160, false); bool ex; m.convertToInteger(ai, APFloat::rmTowardZero, &ex);
  SmallString<64> str; ai.toString(str, 10); mpz_class z(std::string(str.str())); mpq_class q(z); int sh = e - 112;
  mpz_class p2; mpz_ui_pow_ui(p2.get_mpz_t(), 2, std::abs(sh)); if (sh >= 0) q *= p2; else q /= p2; return q;
}
static uint64_t constGEPOff(const GEPOperator* g) { APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) fail("unsupported", "constant gep"); return off.getSExtValue(); }
static uint64_t gvGet(GlobalVariable* g);
static Val constVal(const Constant* c) {
  Type* T = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) fail("unsupported", "wide integer"); return vC(ci->getZExtValue(), ci->getBitWidth()); }
  if (auto* cf = dyn_cast<ConstantFP>(c)) {
    const APFloat& f = cf->getValueAPF();
    if (!f.isFinite()) return vN(f.isNaN() ? NAN : f.isNegative() ? -INFINITY : INFINITY);
    return vR(pConst(apfToQ(f)));
  }
  if (isa<UndefValue>(c)) { if (auto* st = dyn_cast<StructType>(T)) { std::vector<Val> v(st->getNumElements()); return vG(std::move(v)); } return Val(); }
  if (isa<ConstantPointerNull>(c)) return vC(0, 64);
  if (isa<ConstantAggregateZero>(c) || isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
    unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
    std::vector<Val> v; for (unsigned i = 0; i < n; i++) v.push_back(constVal(c->getAggregateElement(i))); return vG(std::move(v));
  }
  if (auto* f = dyn_cast<Function>(c)) return vC(fnAddr[const_cast<Function*>(f)], 64);
  if (auto* g = dyn_cast<GlobalVariable>(c)) return vC(gvGet(const_cast<GlobalVariable*>(g)), 64);
  if (auto* a = dyn_cast<GlobalAlias>(c)) return constVal(a->getAliasee());
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    if (auto* g = dyn_cast<GEPOperator>(e)) { Val b = constVal(cast<Constant>(g->getPointerOperand())); return vC(b.c + constGEPOff(g), 64); }
    switch (e->getOpcode()) {
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(e->getOperand(0));
      case Instruction::Sub: { Val a = constVal(e->getOperand(0)), b = constVal(e->getOperand(1)); return vC(a.c - b.c, a.w); }
      case Instruction::Add: { Val a = constVal(e->getOperand(0)), b = constVal(e->getOperand(1)); return vC(a.c + b.c, a.w); }
      default: break;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); fail("unsupported", "constant " + os.str());
}
static Mem gmem;
static int fpBytes(Type* t) { return t->isDoubleTy() ? 8 : t->isFloatTy() ? 4 : t->isFP128Ty() || t->isX86_FP80Ty() ? 16 : 0; }
static void memStore(Mem& m, uint64_t addr, uint32_t size, const Val& v, bool fp);
static void storeTyped(Mem& m, uint64_t a, Type* T, const Val& v) {
  if (v.k == VG) {
    if (auto* st = dyn_cast<StructType>(T)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < v.g->v.size(); i++) storeTyped(m, a + sl->getElementOffset(i), st->getElementType(i), v.g->v[i]); return; }
    Type* et = T->isArrayTy() ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType();
    uint64_t s = DL->getTypeAllocSize(et); for (unsigned i = 0; i < v.g->v.size(); i++) storeTyped(m, a + i * s, et, v.g->v[i]); return;
  }
  memStore(m, a, DL->getTypeStoreSize(T), v, T->isFloatingPointTy());
}
static uint64_t gvGet(GlobalVariable* g) {
  auto it = gvAddr.find(g); if (it != gvAddr.end()) return it->second;
  uint64_t sz = g->getValueType()->isSized() ? DL->getTypeAllocSize(g->getValueType()).getFixedValue() : 8; if (!g->hasInitializer()) sz = std::max<uint64_t>(sz, 1024);
  uint64_t a = gmem.alloc((uint32_t)sz, 'g'); gvAddr[g] = a;
  Obj* o = gmem.wr(a >> 32);
  if (!g->hasInitializer()) { std::fill(o->t.begin(), o->t.end(), T_RAW); return a; }
  if (!isa<UndefValue>(g->getInitializer())) {
    if (g->getInitializer()->isNullValue()) std::fill(o->t.begin(), o->t.end(), T_RAW);
    else { storeTyped(gmem, a, g->getValueType(), constVal(g->getInitializer())); o = gmem.wr(a >> 32); for (auto& t : o->t) if (!t) t = T_RAW; }
  }
  return a;
}

// ------------------------------------------------------------------ memory access
static void splitCells(Obj* o, uint32_t off, uint32_t size) {
  // cells that straddle the boundary of [off,off+size)
  for (;;) {
    bool again = false;
    auto it = o->cells.lower_bound(off >= 16 ? off - 15 : 0);
    for (; it != o->cells.end() && it->first < off + size; ++it) {
      uint32_t s = it->first; uint32_t cs = 1u << (o->t[s] & 7);
      if (s + cs <= off) continue;
      if (s >= off && s + cs <= off + size) continue;
      Val v = it->second;
      if ((v.k == VI || v.k == VC) && cs == 8) {
        IE e = asI(v); o->cells.erase(it);
        for (int h = 0; h < 2; h++) {
          Val p = vI(iExt(I_TRUNC, h ? iBin(I_LSHR, e, iConst(32, 64)) : e, 32)); uint32_t q = s + 4 * h;
          if (p.k == VC) { for (int i = 0; i < 4; i++) { o->d[q + i] = p.c >> (8 * i); o->t[q + i] = i ? T_CONT : (T_RAW | 2); } }
          else { o->cells[q] = p; for (int i = 0; i < 4; i++) o->t[q + i] = i ? T_CELLCONT : (T_CELL | 2); }
        }
        again = true; break;
      }
      fail("unsupported", "partial overwrite of a symbolic cell");
    }
    if (!again) return;
  }
}
static void clearCells(Obj* o, uint32_t off, uint32_t size) { if (o->cells.empty()) return; splitCells(o, off, size); o->cells.erase(o->cells.lower_bound(off), o->cells.lower_bound(off + size)); }
static Obj* chk(const Mem& m, uint64_t addr, uint64_t size, const char* what) {
  uint32_t id = addr >> 32; uint64_t off = addr & 0xffffffffu; Obj* o = m.get(id);
  if (!o) perr("memory", std::string(what) + (id == 0 ? " through a null or invalid pointer" : id < m.next ? " of released memory" : " through an invalid pointer"));
  if (off + size > o->size) perr("memory", std::string(what) + " out of bounds: offset " + std::to_string((int64_t)(int32_t)off) + " size " + std::to_string(size) + " in an object of " + std::to_string(o->size) + " bytes");
  return o;
}
static void memStore(Mem& m, uint64_t addr, uint32_t size, const Val& v, bool fp) {
  chk(m, addr, size, "write"); Obj* o = m.wr(addr >> 32); uint32_t off = (uint32_t)addr;
  clearCells(o, off, size);
  uint8_t tag = (uint8_t)(lg(size) | (fp ? T_FP : 0));
  auto raw = [&](uint64_t bits) { for (uint32_t i = 0; i < size; i++) { o->d[off + i] = i < 8 ? (uint8_t)(bits >> (8 * i)) : 0; o->t[off + i] = i ? T_CONT : (T_RAW | tag); } };
  switch (v.k) {
    case VU: for (uint32_t i = 0; i < size; i++) o->t[off + i] = T_UNINIT; return;
    case VC: raw(v.c); return;
    case VR: if (size == 8 && pIsConst(v.p)) { double d = pConstVal(v.p).get_d(); if (mpq_class(d) == pConstVal(v.p)) { uint64_t b; memcpy(&b, &d, 8); tag |= T_FP; raw(b); return; } } tag |= T_FP; break;
    case VN: if (size == 8) { uint64_t b; memcpy(&b, &v.d, 8); tag |= T_FP; raw(b); return; } break;
    case VG: fail("unsupported", "aggregate cell");
    default: break;
  }
  o->cells[off] = v; for (uint32_t i = 0; i < size; i++) o->t[off + i] = i ? T_CELLCONT : (T_CELL | tag);
}
static Val memLoad(const Mem& m, uint64_t addr, uint32_t size, Type* T) {
  Obj* o = chk(m, addr, size, "read"); uint32_t off = (uint32_t)addr; bool fp = T && T->isFloatingPointTy();
  if (o->t[off] & T_CELL) {
    const Val& v = o->cells.at(off); uint32_t cs = 1u << (o->t[off] & 7);
    if (cs == size) { if (!fp && v.k == VB) return vI(iExt(I_ZEXT, asI(v), size * 8)); return v; }
    if (size < cs && v.k == VI) return vI(iExt(I_TRUNC, v.e, size * 8));
    if (!(size == 8 && cs == 4)) fail("unsupported", "partial read of a symbolic cell");
  }
  bool cell = false, un = false; for (uint32_t i = 0; i < size; i++) { uint8_t t = o->t[off + i]; if (t & (T_CELL | T_CELLCONT)) cell = true; if (!t) un = true; }
  if (un) return Val();
  if (cell) {
    if (size == 8) { Val a = memLoad(m, addr, 4, nullptr), b = memLoad(m, addr + 4, 4, nullptr); if (a.k == VU || b.k == VU) return Val(); return vI(iConcat(asI(b), asI(a))); }
    if (size == 4 && (o->t[off] & T_CELLCONT) && off >= 4 && (o->t[off - 4] & T_CELL) && (o->t[off - 4] & 7) == 3) { Val v = o->cells.at(off - 4); if (v.k == VI) return vI(iExt(I_TRUNC, iBin(I_LSHR, v.e, iConst(32, 64)), 32)); }
    { std::string q; for (uint32_t i = 0; i < size; i++) q += " " + std::to_string(o->t[off + i]); fail("unsupported", "mixed read of symbolic cells: size " + std::to_string(size) + " tags" + q); }
  }
  uint64_t b = 0; for (uint32_t i = 0; i < size && i < 8; i++) b |= (uint64_t)o->d[off + i] << (8 * i);
  if (fp) {
    if (T->isDoubleTy()) { double d; memcpy(&d, &b, 8); return vD(d); }
    if (b == 0) return vR(pConst(0));
    if (T->isFloatTy()) { uint32_t q = b; float f; memcpy(&f, &q, 4); return vD(f); }
    fail("unsupported", "raw wide float");
  }
  if (size > 8) fail("unsupported", "wide integer load");
  return vC(b, size * 8);
}
static void memCopy(Mem& m, uint64_t dst, uint64_t src, uint64_t n) {
  if (!n) return;
  Obj* s = chk(m, src, n, "read"); chk(m, dst, n, "write");
  uint32_t so = (uint32_t)src, dof = (uint32_t)dst;
  if (!s->cells.empty()) { bool part = false; for (auto& c : s->cells) { uint32_t cs = 1u << (s->t[c.first] & 7); if (c.first < so + n && c.first + cs > so && !(c.first >= so && c.first + cs <= so + n)) part = true; } if (part) { s = m.wr(src >> 32); splitCells(s, so, n); } }
  std::vector<uint8_t> d(s->d.begin() + so, s->d.begin() + so + n), t(s->t.begin() + so, s->t.begin() + so + n);
  std::vector<std::pair<uint32_t, Val>> cs; for (auto it = s->cells.lower_bound(so); it != s->cells.end() && it->first < so + n; ++it) cs.push_back({it->first - so, it->second});
  Obj* o = m.wr(dst >> 32); clearCells(o, dof, n);
  std::copy(d.begin(), d.end(), o->d.begin() + dof); std::copy(t.begin(), t.end(), o->t.begin() + dof);
  for (auto& c : cs) o->cells[dof + c.first] = c.second;
}

// ------------------------------------------------------------------ path conditions
static bool domSmall(int v) { return (int64_t)g_ivars[v].hi - g_ivars[v].lo < 64; }
static uint64_t fullDom(int v) { int n = g_ivars[v].hi - g_ivars[v].lo + 1; return n >= 64 ? ~0ull : (1ull << n) - 1; }
static uint64_t& domOf(State& s, int v) { while ((int)s.dom.size() <= v) s.dom.push_back(domSmall((int)s.dom.size()) ? fullDom((int)s.dom.size()) : 0); return s.dom[v]; }
static bool single(State& s, const std::vector<int>& vars, NumEnv& env) { for (int v : vars) { if (!domSmall(v)) return false; uint64_t d = domOf(s, v); if (!d || (d & (d - 1))) return false; env.ints[v] = g_ivars[v].lo + __builtin_ctzll(d); } return true; }
static Val simp(State& s, IE e) { if (e->op == I_CONST) return vC(e->c, e->w); if (!e->hasReal && e->vars.size() <= 6) { NumEnv env; if (single(s, e->vars, env)) { uint64_t r = numI(e, env); if (!env.bad) return vC(r, e->w); } } return vI(e); }
static BE simpB(State& s, BE b) { if (b->op <= B_FALSE) return b; if (!b->hasReal && b->vars.size() <= 6) { NumEnv env; if (single(s, b->vars, env)) { bool r = numB(b, env); if (!env.bad) return bConst(r); } } return b; }
// enumerate the assignments of the variables of b allowed by the domains: bit0 = some true, bit1 = some false
static int enumB(State& s, BE b, long limit, bool* complete) {
  long n = 1; for (int v : b->vars) { if (!domSmall(v)) { *complete = false; return 3; } n *= __builtin_popcountll(domOf(s, v)); if (n > limit) { *complete = false; return 3; } }
  *complete = true; int res = 0; NumEnv env; std::vector<int> vs = b->vars; std::vector<std::vector<int>> vals;
  for (int v : vs) { std::vector<int> q; uint64_t d = domOf(s, v); for (int k = 0; k < 64; k++) if (d >> k & 1) q.push_back(g_ivars[v].lo + k); vals.push_back(q); }
  std::vector<size_t> ix(vs.size(), 0);
  for (;;) {
    for (size_t i = 0; i < vs.size(); i++) env.ints[vs[i]] = vals[i][ix[i]];
    env.bad = false; bool r = numB(b, env); res |= r ? 1 : 2; if (env.bad) res = 3; if (res == 3) return 3;
    size_t k = 0; while (k < ix.size() && ++ix[k] == vals[k].size()) ix[k++] = 0; if (k == ix.size()) break;
  }
  return res;
}
static void assume(State& s, BE b) {
  std::vector<BE> l; bLits(b, l);
  for (BE x : l) {
    bool dup = false; for (BE y : s.pc) if (x == y) { dup = true; break; } if (dup) continue;
    s.pc.push_back(x);
    if (!x->hasReal && x->vars.size() == 1 && domSmall(x->vars[0])) {
      int v = x->vars[0]; uint64_t d = domOf(s, v), nd = 0; NumEnv env;
      for (int k = 0; k < 64; k++) if (d >> k & 1) { env.ints[v] = g_ivars[v].lo + k; env.bad = false; if (numB(x, env) && !env.bad) nd |= 1ull << k; }
      s.dom[v] = nd;
    }
  }
}
static bool intOnly(const std::vector<BE>& pc) { for (BE b : pc) if (b->hasReal) return false; return true; }
// bit0: can be true, bit1: can be false
static int decide2(State& s, BE b);
static std::unordered_map<size_t, std::vector<std::pair<std::vector<BE>, int>>> dcache; static long dcN = 0;
static int decide(State& s, BE b) {
  b = simpB(s, b);
  if (b->op == B_TRUE) return 1; if (b->op == B_FALSE) return 2;
  std::vector<BE> key = s.pc; key.push_back(b); size_t h = 1469598103934665603ull; for (BE x : key) h = (h ^ (size_t)x->id) * 1099511628211ull;
  auto& v = dcache[h]; for (auto& e : v) if (e.first == key) return e.second;
  int r = decide2(s, b); if (dcN++ < 2000000) v.push_back({key, r}); return r;
}
// satisfiability of a pure integer conjunction over the variables vs; recent models are tried before the solver
static std::deque<std::map<int, int64_t>> modelCache; static long nCacheHit = 0;
static bool intSat(const std::vector<BE>& q, const std::set<int>& vs) {
  NumEnv e;
  for (auto& m : modelCache) {
    e.ints.clear(); e.amemo.clear(); bool ok = true;
    for (int v : vs) { auto it = m.find(v); e.ints[v] = it == m.end() ? g_ivars[v].lo : it->second; }
    for (size_t i = q.size(); i-- > 0 && ok;) ok = numB(q[i], e) && !e.bad;
    e.bad = false;
    if (ok) { nCacheHit++; return true; }
  }
  Model m; Res r = solveConj(q, false, 20000, &m);
  if (r == R_SAT) { std::map<int, int64_t> full = m.ints; modelCache.push_front(full); if (modelCache.size() > 48) modelCache.pop_back(); }
  return r != R_UNSAT;
}
// the same for conditions over reals: numeric models found earlier are tried before the solver
static std::deque<std::unique_ptr<NumEnv>> rmodels; static long nRealHit = 0;
static void completeEnv(NumEnv& e) {
  for (size_t v = 0; v < g_ivars.size(); v++) if (!e.ints.count(v)) e.ints[v] = g_ivars[v].lo;
  for (size_t i = 0; i < g_atoms.size(); i++) if (g_atoms[i].kind == A_VAR && !e.real.count(i)) { unsigned h = (unsigned)i * 2654435761u + 12345u; double u = (h >> 8) / 16777216.0; e.real[i] = g_atoms[i].pos ? 0.5 + u : (u < 0.5 ? -0.3 - 2 * u : u + 0.1); }
}
static std::unordered_map<BE, bool> hasFloorMemo;
static bool atomFloor(int id); static bool polyFloor(PE p) { for (auto& t : p->t) for (auto& f : g_monos[t.first].f) if (atomFloor(f.first)) return true; return false; }
static bool hasFloor(BE b);
static bool atomFloor(int id) { Atom& a = g_atoms[id]; return a.kind == A_FLOOR || (a.kind == A_IND && hasFloor(a.c)) || ((a.kind == A_ABS || a.kind == A_SQRT) && polyFloor(a.p)); }
static bool iteFloor(IE x) { return x->hasReal && ((x->op == I_ITE && hasFloor(x->cond)) || (x->a && iteFloor(x->a)) || (x->b && iteFloor(x->b))); }
static bool hasFloor(BE b) {
  auto it = hasFloorMemo.find(b); if (it != hasFloorMemo.end()) return it->second; bool r = false;
  if (b->hasReal) switch (b->op) { case B_NOT: r = hasFloor(b->a); break; case B_AND: case B_OR: r = hasFloor(b->a) || hasFloor(b->b); break; case B_RCMP: r = polyFloor(b->p); break; case B_ICMP: r = iteFloor(b->x) || iteFloor(b->y); break; default: break; }
  hasFloorMemo[b] = r; return r;
}
static bool realSat(const std::vector<BE>& q) {
  for (size_t k = 0; k < rmodels.size(); k++) {
    NumEnv& e = *rmodels[k];
    if (e.amemo.size() > 200000) e.amemo.clear();
    completeEnv(e); e.bad = false; bool ok = true;
    for (size_t i = q.size(); i-- > 0 && ok;) ok = numB(q[i], e) && !e.bad;
    if (ok) { nRealHit++; if (k > 4) std::swap(rmodels[k], rmodels[k / 2]); return true; }
  }
  Model m; Res r = solveConj(q, false, 1500, &m);
  if (r == R_SAT) {
    auto e = std::make_unique<NumEnv>(); e->margin = true; for (auto& x : m.ints) e->ints[x.first] = x.second; for (auto& x : m.reals) e->real[x.first] = x.second;
    completeEnv(*e); bool ok = true; for (size_t i = q.size(); i-- > 0 && ok;) ok = numB(q[i], *e) && !e->bad;
    if (ok) { rmodels.push_front(std::move(e)); if (rmodels.size() > 24) rmodels.pop_back(); }
  }
  return r != R_UNSAT;
}
static int decide2(State& s, BE b) {
  if (b->op == B_TRUE) return 1; if (b->op == B_FALSE) return 2;
  BE nb = bNot(b);
  for (BE x : s.pc) { if (x == b) return 1; if (x == nb) return 2; }
  if (!b->hasReal) {
    bool comp; int r = enumB(s, b, 512, &comp);
    if (comp && r != 3) return r;
    if (comp && b->vars.size() == 1) { bool multi = false; for (BE x : s.pc) if (x->vars.size() > 1 && std::binary_search(x->vars.begin(), x->vars.end(), b->vars[0])) multi = true; if (!multi) return 3; }
    // restrict the path condition to the connected component of the variables of b
    std::set<int> vs(b->vars.begin(), b->vars.end()); std::vector<BE> rel; std::vector<bool> used(s.pc.size(), false); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < s.pc.size(); i++) if (!used[i] && !s.pc[i]->hasReal) { bool hit = false; for (int v : s.pc[i]->vars) if (vs.count(v)) hit = true; if (hit) { used[i] = true; rel.push_back(s.pc[i]); for (int v : s.pc[i]->vars) vs.insert(v); ch = true; } } }
    int res = 0; rel.push_back(b); if (intSat(rel, vs)) res |= 1; rel.back() = nb; if (res == 0) return 2; if (intSat(rel, vs)) res |= 2; return res;
  }
  // whether a value is an integer is not decided here: both sides stay possible (checks still see the condition)
  bool fl = hasFloor(b); if (fl && (b->op == B_RCMP || (b->op == B_NOT && b->a->op == B_RCMP))) return 3;
  int res = 0; std::vector<BE> q; for (BE x : s.pc) if (fl || !hasFloor(x)) q.push_back(x); q.push_back(b);
  if (realSat(q)) res |= 1; else return 2;
  q.back() = nb; if (realSat(q)) res |= 2;
  return res;
}

// ------------------------------------------------------------------ compile functions
static std::string demangled(const std::string& n) { return llvm::demangle(n); }
enum Builtin { BI_NONE, BI_NEW, BI_DEL, BI_MEMCPY, BI_MEMSET, BI_MEMCMP, BI_STRLEN, BI_EXP, BI_LOG, BI_SIN, BI_COS, BI_SQRT, BI_FABS, BI_FLOOR, BI_CEIL, BI_POW, BI_CEXP, BI_CABS, BI_HYPOT, BI_MULC, BI_DIVC, BI_POWC, BI_POWI, BI_FMA, BI_COPYSIGN, BI_FMIN, BI_FMAX, BI_TANH, BI_SINH, BI_COSH, BI_EXPM1, BI_LOG1P, BI_TRUNCF, BI_ROUND, BI_LDEXP, BI_NOP, BI_RET0, BI_RETARG0, BI_THROW, BI_GUARD, BI_ABS, BI_SMAX, BI_SMIN, BI_UMAX, BI_UMIN, BI_EXPECT, BI_OVF, BI_CTPOP, BI_CTLZ, BI_CTTZ, BI_FSHL, BI_USUBSAT, BI_ISCONST, BI_TRAP, BI_ISFPCLASS, BI_SYMINT, BI_SYMREAL, BI_SYMPOS, BI_ASSUME, BI_CHECK, BI_CHECKEQ, BI_PARAM, BI_OBS, BI_REACH, BI_SPLIT, BI_ASSUMEEQ, BI_UF, BI_MEMCHR, BI_MPSTR, BI_SYMSPLITB, BI_SYMNZ, BI_ONE };
static int builtinOf(const std::string& n) {
  static const std::map<std::string, int> t = {
    {"_Znwm", BI_NEW}, {"_Znam", BI_NEW}, {"malloc", BI_NEW}, {"_ZnwmRKSt9nothrow_t", BI_NEW}, {"_ZnamRKSt9nothrow_t", BI_NEW}, {"_ZdlPvRKSt9nothrow_t", BI_DEL}, {"_ZdaPvRKSt9nothrow_t", BI_DEL}, {"_ZdlPv", BI_DEL}, {"_ZdlPvm", BI_DEL}, {"_ZdaPv", BI_DEL}, {"_ZdaPvm", BI_DEL}, {"free", BI_DEL},
    {"memcpy", BI_MEMCPY}, {"memmove", BI_MEMCPY}, {"memset", BI_MEMSET}, {"memcmp", BI_MEMCMP}, {"bcmp", BI_MEMCMP}, {"strlen", BI_STRLEN}, {"memchr", BI_MEMCHR},
    {"exp", BI_EXP}, {"log", BI_LOG}, {"sin", BI_SIN}, {"cos", BI_COS}, {"sqrt", BI_SQRT}, {"fabs", BI_FABS}, {"floor", BI_FLOOR}, {"ceil", BI_CEIL}, {"pow", BI_POW}, {"cexp", BI_CEXP}, {"cabs", BI_CABS}, {"hypot", BI_HYPOT}, {"__muldc3", BI_MULC}, {"__divdc3", BI_DIVC}, {"__multc3", BI_MULC}, {"__divtc3", BI_DIVC}, {"__powidf2", BI_POWI}, {"fma", BI_FMA}, {"copysign", BI_COPYSIGN}, {"fmin", BI_FMIN}, {"fmax", BI_FMAX}, {"tanh", BI_TANH}, {"sinh", BI_SINH}, {"cosh", BI_COSH}, {"expm1", BI_EXPM1}, {"log1p", BI_LOG1P}, {"trunc", BI_TRUNCF}, {"round", BI_ROUND}, {"ldexp", BI_LDEXP},
    {"fabsq", BI_FABS}, {"floorq", BI_FLOOR}, {"ceilq", BI_CEIL}, {"expq", BI_EXP}, {"sqrtq", BI_SQRT}, {"sinq", BI_SIN}, {"cosq", BI_COS}, {"logq", BI_LOG}, {"isnanq", BI_RET0}, {"isinfq", BI_RET0}, {"finiteq", BI_ONE}, {"powq", BI_POW}, {"fabsl", BI_FABS}, {"floorl", BI_FLOOR}, {"expl", BI_EXP}, {"sqrtl", BI_SQRT},
    {"abs", BI_ABS}, {"__cxa_guard_acquire", BI_GUARD}, {"__cxa_guard_release", BI_NOP}, {"__cxa_guard_abort", BI_NOP}, {"__cxa_atexit", BI_RET0}, {"abort", BI_THROW}, {"_ZSt9terminatev", BI_THROW}, {"__cxa_throw", BI_THROW}, {"__cxa_allocate_exception", BI_NEW}, {"__cxa_rethrow", BI_THROW}, {"__cxa_pure_virtual", BI_THROW}, {"__assert_fail", BI_THROW}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", BI_THROW}, {"exit", BI_THROW}, {"_exit", BI_THROW},
    {"sym_int", BI_SYMINT}, {"sym_real", BI_SYMREAL}, {"sym_pos", BI_SYMPOS}, {"sym_assume", BI_ASSUME}, {"sym_check", BI_CHECK}, {"sym_check_eq", BI_CHECKEQ}, {"sym_param", BI_PARAM}, {"sym_observe", BI_OBS}, {"sym_reach", BI_REACH}, {"sym_split", BI_SPLIT}, {"sym_split_bool", BI_SYMSPLITB}, {"sym_nonzero", BI_SYMNZ},
    {"puts", BI_RET0}, {"printf", BI_RET0}, {"putchar", BI_RET0}, {"fprintf", BI_RET0}, {"fflush", BI_RET0}, {"fputs", BI_RET0}, {"fputc", BI_RET0}, {"fwrite", BI_RET0}};
  auto it = t.find(n); if (it != t.end()) return it->second;
  if (ufs.count(n)) return BI_UF;
  if (n.rfind("llvm.", 0) == 0) {
    auto is = [&](const char* p) { return n.rfind(p, 0) == 0; };
    if (is("llvm.memcpy") || is("llvm.memmove")) return BI_MEMCPY; if (is("llvm.memset")) return BI_MEMSET;
    if (is("llvm.lifetime") || is("llvm.dbg") || is("llvm.assume") || is("llvm.experimental.noalias") || is("llvm.invariant") || is("llvm.stack") || is("llvm.prefetch") || is("llvm.va_")) return is("llvm.stacksave") || is("llvm.invariant.start") ? BI_RET0 : BI_NOP;
    if (is("llvm.fabs")) return BI_FABS; if (is("llvm.floor")) return BI_FLOOR; if (is("llvm.ceil")) return BI_CEIL; if (is("llvm.sqrt")) return BI_SQRT; if (is("llvm.exp.")) return BI_EXP; if (is("llvm.log.")) return BI_LOG; if (is("llvm.sin")) return BI_SIN; if (is("llvm.cos")) return BI_COS; if (is("llvm.powi")) return BI_POWI; if (is("llvm.pow")) return BI_POW; if (is("llvm.fmuladd") || is("llvm.fma")) return BI_FMA; if (is("llvm.copysign")) return BI_COPYSIGN; if (is("llvm.minnum") || is("llvm.minimum")) return BI_FMIN; if (is("llvm.maxnum") || is("llvm.maximum")) return BI_FMAX; if (is("llvm.trunc")) return BI_TRUNCF; if (is("llvm.round")) return BI_ROUND; if (is("llvm.ldexp")) return BI_LDEXP;
    if (is("llvm.abs")) return BI_ABS; if (is("llvm.smax")) return BI_SMAX; if (is("llvm.smin")) return BI_SMIN; if (is("llvm.umax")) return BI_UMAX; if (is("llvm.umin")) return BI_UMIN; if (is("llvm.expect")) return BI_EXPECT; if (is("llvm.launder") || is("llvm.strip.inv") || is("llvm.ptr.annotation") || is("llvm.ssa.copy")) return BI_EXPECT;
    if (n.find(".with.overflow") != std::string::npos) return BI_OVF; if (is("llvm.ctpop")) return BI_CTPOP; if (is("llvm.ctlz")) return BI_CTLZ; if (is("llvm.cttz")) return BI_CTTZ; if (is("llvm.fshl")) return BI_FSHL; if (is("llvm.usub.sat")) return BI_USUBSAT; if (is("llvm.is.constant")) return BI_ISCONST; if (is("llvm.trap")) return BI_TRAP; if (is("llvm.is.fpclass")) return BI_ISFPCLASS;
    return BI_NONE;
  }
  if (n.rfind("_ZSt3pow", 0) == 0 || n.rfind("_ZSt13__complex_pow", 0) == 0) return BI_POWC;
  if (n.find("__throw_") != std::string::npos) return BI_THROW;
  std::string d = demangled(n);
  if (d.find("ostream") != std::string::npos || d.find("ios_base") != std::string::npos || d.find("basic_ios") != std::string::npos || d.find("stringstream") != std::string::npos || d.find("basic_ofstream") != std::string::npos || d.find("basic_filebuf") != std::string::npos || d.find("std::locale") != std::string::npos || d.find("streambuf") != std::string::npos || d.find("std::set") == 0) return BI_RETARG0;
  return BI_NONE;
}
static bool dropBody(const Function& F) {
  std::string n = F.getName().str(); if (ufs.count(n)) return true;
  if (n.rfind("_ZSt3powI", 0) == 0 && n.find("St7complex") != std::string::npos) return true;
  if (n.rfind("_ZN7AmiBase", 0) == 0 || n.rfind("_ZN9AmiBaseMP", 0) == 0 || n.rfind("_ZNSt6vector", 0) == 0) return false;
  std::string d = demangled(n);
  return d.find("basic_ostream") != std::string::npos || d.find("std::ostream") != std::string::npos || d.find("stringstream") != std::string::npos || d.find("basic_ofstream") != std::string::npos || d.find("basic_streambuf") != std::string::npos || d.find("basic_filebuf") != std::string::npos;
}
static FnInfo* getFn(Function* F) {
  auto& p = fns[F]; if (p) return p.get();
  p = std::make_unique<FnInfo>(); FnInfo* f = p.get(); f->F = F; f->name = F->getName().str();
  for (auto& A : F->args()) f->regs[&A] = f->nregs++;
  for (auto& B : *F) { auto b = std::make_unique<BBInfo>(); b->B = &B; b->f = f; b->idx = f->bbs.size(); f->bmap[&B] = b.get(); f->bbs.push_back(std::move(b)); for (auto& I : B) if (!I.getType()->isVoidTy()) f->regs[&I] = f->nregs++; }
  auto opnd = [&](Value* v) { Opnd o; if (auto* c = dyn_cast<Constant>(v)) { o.reg = -1; o.c = constVal(c); } else { auto it = f->regs.find(v); o.reg = it == f->regs.end() ? -1 : it->second; } return o; };
  for (auto& bp : f->bbs) {
    BBInfo* b = bp.get();
    for (auto& I : *b->B) {
      if (auto* ph = dyn_cast<PHINode>(&I)) {
        b->nphi++; b->phiDst.push_back(f->regs[&I]);
        std::set<BasicBlock*> seen; for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) { BasicBlock* ib = ph->getIncomingBlock(i); if (seen.insert(ib).second) b->phiIn[f->bmap[ib]].push_back(opnd(ph->getIncomingValue(i))); }
        continue;
      }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      CI c; c.I = &I; c.op = I.getOpcode(); if (!I.getType()->isVoidTy()) c.dst = f->regs[&I];
      if (I.getType()->isIntegerTy()) c.w = I.getType()->getIntegerBitWidth(); else if (I.getType()->isPointerTy()) c.w = 64;
      if (auto* cb = dyn_cast<CallBase>(&I)) {
        for (auto& a : cb->args()) if (a->getType()->isMetadataTy()) c.o.push_back(Opnd{-1, Val()}); else c.o.push_back(opnd(a));
        Function* g = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
        if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) g = dyn_cast<Function>(ga->getAliaseeObject());
        if (!g) c.o.push_back(opnd(cb->getCalledOperand()));
        else { c.ext = g; if (g->isDeclaration()) c.builtin = builtinOf(g->getName().str()); }
        if (auto* iv = dyn_cast<InvokeInst>(&I)) { c.b0 = f->bmap[iv->getNormalDest()]; c.b1 = f->bmap[iv->getUnwindDest()]; }
      } else if (auto* br = dyn_cast<BranchInst>(&I)) {
        if (br->isConditional()) { c.o.push_back(opnd(br->getCondition())); c.b0 = f->bmap[br->getSuccessor(0)]; c.b1 = f->bmap[br->getSuccessor(1)]; } else c.b0 = f->bmap[br->getSuccessor(0)];
      } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
        c.o.push_back(opnd(sw->getCondition())); c.b0 = f->bmap[sw->getDefaultDest()]; for (auto& k : sw->cases()) c.sw.push_back({k.getCaseValue()->getZExtValue(), f->bmap[k.getCaseSuccessor()]});
      } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        c.o.push_back(opnd(g->getPointerOperand())); int64_t off = 0;
        if (!I.getType()->isVectorTy())
        for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) {
          Value* ix = ti.getOperand();
          if (auto* st = ti.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else { uint64_t sz = DL->getTypeAllocSize(ti.getIndexedType()); if (auto* k = dyn_cast<ConstantInt>(ix)) off += (int64_t)sz * k->getSExtValue(); else { c.gep.push_back({sz, (int)c.o.size()}); c.o.push_back(opnd(ix)); } }
        }
        c.x = (uint64_t)off;
      } else if (auto* al = dyn_cast<AllocaInst>(&I)) {
        c.x = DL->getTypeAllocSize(al->getAllocatedType()); c.o.push_back(opnd(al->getArraySize()));
      } else {
        for (Value* v : I.operands()) c.o.push_back(opnd(v));
        if (auto* ld = dyn_cast<LoadInst>(&I)) c.x = DL->getTypeStoreSize(ld->getType());
        if (auto* st = dyn_cast<StoreInst>(&I)) { c.x = DL->getTypeStoreSize(st->getValueOperand()->getType()); c.fpsz = fpBytes(st->getValueOperand()->getType()); }
      }
      b->code.push_back(std::move(c));
    }
  }
  return f;
}
static std::vector<BBInfo*> succs(BBInfo* b) { std::vector<BBInfo*> r; if (auto* iv = dyn_cast<InvokeInst>(b->B->getTerminator())) { r.push_back(b->f->bmap[iv->getNormalDest()]); return r; } for (BasicBlock* s : successors(b->B)) r.push_back(b->f->bmap[s]); return r; }
static void analyse(FnInfo* f) {
  if (f->analysed) return; f->analysed = true; int n = f->bbs.size();
  for (auto& b : f->bbs) b->canRet = isa<ReturnInst>(b->B->getTerminator());
  for (bool ch = true; ch;) { ch = false; for (auto& b : f->bbs) if (!b->canRet) for (BBInfo* s : succs(b.get())) if (s->canRet) { b->canRet = true; ch = true; } }
  // postdominator sets over blocks that can return (bit n = virtual exit)
  std::vector<std::vector<bool>> pd(n, std::vector<bool>(n + 1, true));
  for (bool ch = true; ch;) {
    ch = false;
    for (int i = n - 1; i >= 0; i--) { BBInfo* b = f->bbs[i].get(); if (!b->canRet) continue;
      std::vector<bool> r(n + 1, true); bool any = false;
      if (isa<ReturnInst>(b->B->getTerminator())) { r.assign(n + 1, false); r[n] = true; any = true; }
      else for (BBInfo* s : succs(b)) if (s->canRet) { any = true; for (int k = 0; k <= n; k++) if (!pd[s->idx][k]) r[k] = false; }
      if (!any) continue; r[i] = true; if (r != pd[i]) { pd[i] = r; ch = true; } }
  }
  for (int i = 0; i < n; i++) { BBInfo* b = f->bbs[i].get(); if (!b->canRet) continue; int cnt = 0; for (int k = 0; k < n; k++) if (k != i && pd[i][k]) cnt++;
    for (int k = 0; k < n; k++) if (k != i && pd[i][k]) { int c2 = 0; for (int l = 0; l < n; l++) if (l != k && pd[k][l]) c2++; if (c2 == cnt - 1) { b->ipdom = f->bbs[k].get(); break; } } }
  // liveness at block entry after phis
  std::vector<std::vector<bool>> live(n, std::vector<bool>(f->nregs, false));
  std::vector<std::vector<bool>> use(n), def(n);
  for (int i = 0; i < n; i++) { use[i].assign(f->nregs, false); def[i].assign(f->nregs, false); for (auto& c : f->bbs[i]->code) { for (auto& o : c.o) if (o.reg >= 0 && !def[i][o.reg]) use[i][o.reg] = true; if (c.dst >= 0) def[i][c.dst] = true; } }
  for (bool ch = true; ch;) { ch = false;
    for (int i = n - 1; i >= 0; i--) { BBInfo* b = f->bbs[i].get(); std::vector<bool> out(f->nregs, false);
      std::vector<BBInfo*> ss = succs(b);
      for (BBInfo* s : ss) { std::vector<bool> l = live[s->idx]; for (int d : s->phiDst) l[d] = false; auto it = s->phiIn.find(b); if (it != s->phiIn.end()) for (auto& o : it->second) if (o.reg >= 0) l[o.reg] = true; for (int k = 0; k < f->nregs; k++) if (l[k]) out[k] = true; }
      for (int k = 0; k < f->nregs; k++) { bool v = use[i][k] || (out[k] && !def[i][k]); if (v != live[i][k]) { live[i][k] = v; ch = true; } } } }
  for (int i = 0; i < n; i++) f->bbs[i]->live = live[i];
}

#include "interp.inc"
