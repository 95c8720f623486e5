// Expression layer of amisym: bit-vector expressions, boolean conditions and exact-real (Laurent) polynomials.
#pragma once
#include <gmpxx.h>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

struct IExpr; struct BExpr; struct Poly;
typedef const IExpr* IE; typedef const BExpr* BE; typedef const Poly* PE;

struct EngineError { std::string kind, msg; };
[[noreturn]] inline void fail(const std::string& kind, const std::string& msg) { throw EngineError{kind, msg}; }

// ---------------------------------------------------------------- integer (bit-vector) layer
struct IntVar { std::string name; int lo, hi; };
extern std::vector<IntVar> g_ivars;

enum IOp { I_CONST, I_VAR, I_ADD, I_MUL, I_SDIV, I_UDIV, I_SREM, I_UREM, I_AND, I_OR, I_XOR, I_SHL, I_LSHR, I_ASHR, I_ZEXT, I_SEXT, I_TRUNC, I_ITE, I_CONCAT };
struct IExpr {
  IOp op; int w; uint64_t c; IE a, b; BE cond; int id;
  int64_t lo, hi;                 // interval of the signed value
  std::vector<int> vars;          // int variables occurring (sorted)
  bool hasReal;                   // depends on a real comparison
};
enum BOp { B_TRUE, B_FALSE, B_NOT, B_AND, B_OR, B_ICMP, B_RCMP };
enum IPred { P_EQ, P_SLT, P_SLE, P_ULT, P_ULE };
enum RPred { R_EQ, R_LT, R_LE };  // poly REL 0
struct BExpr {
  BOp op; int pred; IE x, y; PE p; BE a, b; int id;
  std::vector<int> vars; bool hasReal;
};

// ---------------------------------------------------------------- real layer
enum AK { A_VAR, A_IVAR, A_INV, A_EXPM, A_IND, A_ABS, A_FLOOR, A_SQRT, A_SIN, A_COS, A_LOG, A_UF };
struct Atom {
  int id; AK kind; std::string name; PE p = nullptr; BE c = nullptr; std::vector<PE> args; int ivar = -1; bool pos = false;
  int mono = 0; mpq_class k;      // EXPM: exp(k * mono)
  // INV of a two-term exponential binomial c1*m1 + c2*m2: elimination atom, its exponent, the rewriting data
  bool elim = false; int ex = -1, ed = 0; PE elimUp = nullptr, elimDown = nullptr;
};
extern std::deque<Atom> g_atoms;
typedef std::vector<std::pair<int, int>> MonoV;  // (atom, exponent), sorted by atom
struct Mono { MonoV f; bool needsRed = false; };
extern std::deque<Mono> g_monos;
struct Poly { std::vector<std::pair<int, mpq_class>> t; int id; size_t h; };
extern std::unordered_map<PE, IE> g_fromInt;

int monoOf(MonoV v);
int mulMono(int a, int b);
PE pConst(const mpq_class& c); PE pDouble(double d);
PE pMono(int mono, const mpq_class& c);
PE pAtom(int atom, int e = 1);
PE pAdd(PE a, PE b); PE pSub(PE a, PE b); PE pNeg(PE a); PE pScale(PE a, const mpq_class& c);
PE pMul(PE a, PE b);
PE pInv(PE a);                // a is not the zero polynomial
PE pPowInt(PE a, long e);
inline bool pIsZero(PE a) { return a->t.empty(); }
bool pIsConst(PE a); mpq_class pConstVal(PE a);
PE pExp(PE a); PE pSin(PE a); PE pCos(PE a); PE pAbs(PE a); PE pFloor(PE a); PE pSqrt(PE a); PE pLog(PE a);
PE pIte(BE c, PE a, PE b);
PE pUF(const std::string& name, const std::vector<PE>& args);
PE pVar(const std::string& name, bool pos);
PE pIVar(int v);
void pPrim(PE a, mpq_class& c, int& mono, PE& prim);   // a = c * mono * prim
std::string pStr(PE a, int maxTerms = 10);
// substitution: atom -> polynomial; booleans inside indicators are mapped by bs
struct Subst {
  std::map<int, PE> at; std::function<BE(BE)> bs;
  std::unordered_map<PE, PE> memo; std::unordered_map<int, PE> amemo;
  // domain reduction of integer variables: returns 0 none, 1 {x^2=1}, 2 {x^2=x}, 3 {x^3=x}
  std::function<int(int)> domRed;
};
PE pSubst(PE a, Subst& s);
PE pNumer(PE d, size_t limit, bool& ok);                // d times all its denominators; zero iff d is
void polyAtoms(PE a, std::set<int>& out, bool deep);
void boolAtoms(BE b, std::set<int>& out);

IE iConst(uint64_t c, int w); IE iVar(int v);
IE iBin(IOp op, IE a, IE b); IE iExt(IOp op, IE a, int w); IE iIte(BE c, IE a, IE b); IE iConcat(IE hi, IE lo);
PE iToReal(IE a);              // signed value as a real; nullptr if not expressible
bool iNoWrap(IOp op, IE a, IE b); // interval argument: signed op cannot wrap
std::string iStr(IE a); std::string bStr(BE b);

BE bConst(bool v); BE bNot(BE a); BE bAnd(BE a, BE b); BE bOr(BE a, BE b);
BE bICmp(IPred p, IE a, IE b); BE bRCmp(RPred p, PE a);
void bLits(BE b, std::vector<BE>& out);   // flatten conjunction

inline int64_t sx(uint64_t v, int w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= (1ull << w) - 1; return (int64_t)((v ^ m) - m); }
inline uint64_t mk(uint64_t v, int w) { return w >= 64 ? v : v & ((1ull << w) - 1); }

// numeric evaluation
struct NumEnv {
  std::map<int, long double> real; std::map<int, int64_t> ints; bool bad = false, margin = false;   // margin: comparisons too close to call are bad
  std::unordered_map<int, long double> amemo;
};
long double numPoly(PE p, NumEnv& env);
bool numB(BE b, NumEnv& env);
uint64_t numI(IE a, NumEnv& env);
long double numUF(const std::string& name, const std::vector<long double>& a, bool& bad);
