#include "expr.hpp"
#include <sstream>

std::vector<IntVar> g_ivars;
std::deque<Atom> g_atoms;
std::deque<Mono> g_monos;
std::unordered_map<PE, IE> g_fromInt;

// ================================================================ integers
static size_t hmix(size_t h, size_t v) { return h ^ (v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2)); }
struct IKey { int op, w; uint64_t c; int a, b, cond; bool operator==(const IKey& o) const { return op == o.op && w == o.w && c == o.c && a == o.a && b == o.b && cond == o.cond; } };
struct IKeyH { size_t operator()(const IKey& k) const { size_t h = k.op; h = hmix(h, k.w); h = hmix(h, k.c); h = hmix(h, k.a); h = hmix(h, k.b); return hmix(h, k.cond); } };
static std::unordered_map<IKey, IE, IKeyH> itab;
static int icount = 0, bcount = 0;

static void mergeVars(std::vector<int>& o, const std::vector<int>& x) {
  if (x.empty()) return;
  if (o.empty()) { o = x; return; }
  std::vector<int> r; std::set_union(o.begin(), o.end(), x.begin(), x.end(), std::back_inserter(r)); o.swap(r);
}
static void fullRange(int w, int64_t& lo, int64_t& hi) { if (w >= 64) { lo = INT64_MIN; hi = INT64_MAX; } else { lo = -(1ll << (w - 1)); hi = (1ll << (w - 1)) - 1; } }
static bool fits(__int128 lo, __int128 hi, int w) { int64_t l, h; fullRange(w, l, h); return lo >= l && hi <= h; }

static IE mkI(IOp op, int w, uint64_t c, IE a, IE b, BE cond) {
  IKey k{op, w, c, a ? a->id : -1, b ? b->id : -1, cond ? cond->id : -1};
  auto it = itab.find(k); if (it != itab.end()) return it->second;
  IExpr* e = new IExpr; e->op = op; e->w = w; e->c = c; e->a = a; e->b = b; e->cond = cond; e->id = icount++; e->hasReal = false;
  if (op == I_VAR) e->vars.push_back((int)c);
  if (a) { mergeVars(e->vars, a->vars); e->hasReal |= a->hasReal; }
  if (b) { mergeVars(e->vars, b->vars); e->hasReal |= b->hasReal; }
  if (cond) { mergeVars(e->vars, cond->vars); e->hasReal |= cond->hasReal; }
  int64_t lo, hi; fullRange(w, lo, hi);
  auto setIf = [&](__int128 l, __int128 h) { if (fits(l, h, w)) { lo = (int64_t)l; hi = (int64_t)h; } };
  switch (op) {
    case I_CONST: lo = hi = sx(c, w); break;
    case I_VAR: lo = g_ivars[c].lo; hi = g_ivars[c].hi; break;
    case I_ADD: setIf((__int128)a->lo + b->lo, (__int128)a->hi + b->hi); break;
    case I_MUL: { __int128 q[4] = {(__int128)a->lo * b->lo, (__int128)a->lo * b->hi, (__int128)a->hi * b->lo, (__int128)a->hi * b->hi}; setIf(*std::min_element(q, q + 4), *std::max_element(q, q + 4)); break; }
    case I_SEXT: lo = a->lo; hi = a->hi; break;
    case I_ZEXT: if (a->lo >= 0) { lo = a->lo; hi = a->hi; } else { lo = 0; hi = (a->w >= 63) ? INT64_MAX : (int64_t)((1ull << a->w) - 1); } break;
    case I_TRUNC: setIf(a->lo, a->hi); break;
    case I_CONCAT: if (a->lo >= 0) { lo = a->lo << 32; hi = (a->hi << 32) | 0xffffffffll; } break;
    case I_ITE: lo = std::min(a->lo, b->lo); hi = std::max(a->hi, b->hi); break;
    case I_AND: if (b->op == I_CONST && sx(b->c, w) >= 0) { lo = 0; hi = sx(b->c, w); } else if (a->lo >= 0) { lo = 0; hi = a->hi; } break;
    case I_SREM: if (b->op == I_CONST && sx(b->c, w) > 0) { int64_t m = sx(b->c, w) - 1; lo = a->lo >= 0 ? 0 : -m; hi = a->hi <= 0 ? 0 : m; } break;
    case I_UREM: if (b->op == I_CONST && sx(b->c, w) > 0) { lo = 0; hi = sx(b->c, w) - 1; } break;
    case I_SDIV: if (b->op == I_CONST && sx(b->c, w) > 0) { lo = a->lo / sx(b->c, w); hi = a->hi / sx(b->c, w); } else { int64_t m = std::max(std::abs(a->lo), std::abs(a->hi)); setIf(-(__int128)m, m); } break;
    case I_LSHR: if (a->lo >= 0) { lo = 0; hi = b->op == I_CONST ? a->hi >> b->c : a->hi; } else if (b->op == I_CONST && b->c > 0) { lo = 0; hi = (int64_t)(mk(~0ull, w) >> b->c); } break;
    case I_ASHR: if (b->op == I_CONST) { lo = a->lo >> b->c; hi = a->hi >> b->c; } break;
    case I_SHL: if (b->op == I_CONST && b->c < 62) setIf((__int128)a->lo * ((__int128)1 << b->c), (__int128)a->hi * ((__int128)1 << b->c)); break;
    default: break;
  }
  e->lo = lo; e->hi = hi; itab[k] = e; return e;
}
IE iConst(uint64_t c, int w) { return mkI(I_CONST, w, mk(c, w), nullptr, nullptr, nullptr); }
IE iVar(int v) { return mkI(I_VAR, 32, v, nullptr, nullptr, nullptr); }
static bool isC(IE a) { return a->op == I_CONST; }
static uint64_t evalOp(IOp op, uint64_t x, uint64_t y, int w, bool& bad) {
  int64_t sxx = sx(x, w), sy = sx(y, w);
  switch (op) {
    case I_ADD: return mk(x + y, w); case I_MUL: return mk(x * y, w);
    case I_SDIV: if (sy == 0 || (sy == -1 && sxx == sx(1ull << (w - 1), w))) { bad = true; return 0; } return mk((uint64_t)(sxx / sy), w);
    case I_SREM: if (sy == 0 || (sy == -1 && sxx == sx(1ull << (w - 1), w))) { bad = true; return 0; } return mk((uint64_t)(sxx % sy), w);
    case I_UDIV: if (mk(y, w) == 0) { bad = true; return 0; } return mk(x, w) / mk(y, w);
    case I_UREM: if (mk(y, w) == 0) { bad = true; return 0; } return mk(x, w) % mk(y, w);
    case I_AND: return x & y; case I_OR: return x | y; case I_XOR: return x ^ y;
    case I_SHL: return y >= (uint64_t)w ? 0 : mk(x << y, w);
    case I_LSHR: return y >= (uint64_t)w ? 0 : mk(x, w) >> y;
    case I_ASHR: return y >= (uint64_t)w ? 0 : mk((uint64_t)(sxx >> y), w);
    default: bad = true; return 0;
  }
}
bool iNoWrap(IOp op, IE a, IE b) {
  if (op == I_ADD) return fits((__int128)a->lo + b->lo, (__int128)a->hi + b->hi, a->w);
  if (op == I_MUL) { __int128 q[4] = {(__int128)a->lo * b->lo, (__int128)a->lo * b->hi, (__int128)a->hi * b->lo, (__int128)a->hi * b->hi}; return fits(*std::min_element(q, q + 4), *std::max_element(q, q + 4), a->w); }
  return false;
}
static bool halves(IE e, IE& hi, IE& lo) {
  if (e->w != 64) return false;
  if (isC(e)) { hi = iConst(e->c >> 32, 32); lo = iConst(e->c & 0xffffffffu, 32); return true; }
  if (e->op == I_CONCAT) { hi = e->a; lo = e->b; return true; }
  if (e->op == I_ZEXT && e->a->w <= 32) { hi = iConst(0, 32); lo = iExt(I_ZEXT, e->a, 32); return true; }
  if (e->op == I_SEXT && e->lo >= 0 && e->a->w <= 32) { hi = iConst(0, 32); lo = iExt(I_SEXT, e->a, 32); return true; }
  if (e->op == I_SHL && isC(e->b) && e->b->c == 32) { lo = iConst(0, 32); hi = iExt(I_TRUNC, e->a, 32); return true; }
  if (e->op == I_ITE) { IE h1, l1, h2, l2; if (halves(e->a, h1, l1) && halves(e->b, h2, l2)) { hi = iIte(e->cond, h1, h2); lo = iIte(e->cond, l1, l2); return true; } }
  return false;
}
IE iConcat(IE hi, IE lo) {
  if (isC(hi) && isC(lo)) return iConst((hi->c << 32) | lo->c, 64);
  if (isC(hi) && hi->c == 0) return iExt(I_ZEXT, lo, 64);
  return mkI(I_CONCAT, 64, 0, hi, lo, nullptr);
}
IE iBin(IOp op, IE a, IE b) {
  int w = a->w; bool bad = false;
  if (w == 64 && (op == I_OR || op == I_AND || op == I_XOR) && !(isC(a) && isC(b))) { IE h1, l1, h2, l2; if ((a->op == I_CONCAT || b->op == I_CONCAT || a->op == I_SHL || b->op == I_SHL) && halves(a, h1, l1) && halves(b, h2, l2)) return iConcat(iBin(op, h1, h2), iBin(op, l1, l2)); }
  if (w == 64 && op == I_LSHR && isC(b) && b->c == 32 && a->op == I_CONCAT) return iExt(I_ZEXT, a->a, 64);
  if (w == 64 && op == I_ASHR && isC(b) && b->c == 32 && a->op == I_CONCAT) return iExt(I_SEXT, a->a, 64);
  if (w == 64 && op == I_SHL && isC(b) && b->c == 32 && !isC(a)) return iConcat(iExt(I_TRUNC, a, 32), iConst(0, 32));
  if (isC(a) && isC(b)) { uint64_t r = evalOp(op, a->c, b->c, w, bad); if (!bad) return iConst(r, w); }
  if (op == I_ADD || op == I_MUL || op == I_AND || op == I_OR || op == I_XOR) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); }
  if (isC(b)) {
    uint64_t c = b->c;
    if (op == I_ADD && c == 0) return a;
    if (op == I_MUL && c == 1) return a;
    if ((op == I_MUL || op == I_AND) && c == 0) return iConst(0, w);
    if (op == I_AND && c == mk(~0ull, w)) return a;
    if ((op == I_OR || op == I_XOR || op == I_SHL || op == I_LSHR || op == I_ASHR) && c == 0) return a;
    if ((op == I_SDIV || op == I_UDIV) && c == 1) return a;
    if (op == I_SHL && c < (uint64_t)w) return iBin(I_MUL, a, iConst(1ull << c, w));
    if (op == I_ADD && a->op == I_ADD && isC(a->b)) return iBin(I_ADD, a->a, iConst(a->b->c + c, w));
    if (op == I_MUL && a->op == I_MUL && isC(a->b)) return iBin(I_MUL, a->a, iConst(a->b->c * c, w));
    if (a->op == I_ITE && (isC(a->a) || isC(a->b)) && (isC(a->a) && isC(a->b))) return iIte(a->cond, iBin(op, a->a, b), iBin(op, a->b, b));
  }
  if (isC(a) && b->op == I_ITE && isC(b->a) && isC(b->b) && op != I_SDIV && op != I_SREM && op != I_UDIV && op != I_UREM) return iIte(b->cond, iBin(op, a, b->a), iBin(op, a, b->b));
  if (op == I_ADD) {
    if (b->op == I_MUL && isC(b->b) && sx(b->b->c, w) == -1 && b->a == a) return iConst(0, w);
    if (a->op == I_MUL && isC(a->b) && sx(a->b->c, w) == -1 && a->a == b) return iConst(0, w);
  }
  if (a == b && (op == I_AND || op == I_OR)) return a;
  if (a == b && op == I_XOR) return iConst(0, w);
  return mkI(op, w, 0, a, b, nullptr);
}
IE iExt(IOp op, IE a, int w) {
  if (a->w == w) return a;
  if (isC(a)) return iConst(op == I_SEXT ? (uint64_t)sx(a->c, a->w) : mk(a->c, a->w), w);
  if (op == I_TRUNC && (a->op == I_SEXT || a->op == I_ZEXT)) { if (a->a->w == w) return a->a; if (a->a->w > w) return iExt(I_TRUNC, a->a, w); return iExt(a->op, a->a, w); }
  if (op == I_TRUNC && a->op == I_CONCAT && w <= 32) return iExt(I_TRUNC, a->b, w);
  if (op == I_TRUNC && a->op == I_TRUNC) return iExt(I_TRUNC, a->a, w);
  if (op == a->op && (op == I_SEXT || op == I_ZEXT)) return iExt(op, a->a, w);
  if (op == I_ZEXT && a->lo >= 0) { op = I_SEXT; if (a->op == I_SEXT || a->op == I_ZEXT) return iExt(a->op, a->a, w); }
  if (a->op == I_ITE && (isC(a->a) || isC(a->b))) return iIte(a->cond, iExt(op, a->a, w), iExt(op, a->b, w));
  return mkI(op, w, 0, a, nullptr, nullptr);
}
IE iIte(BE c, IE a, IE b) {
  if (a == b || c->op == B_TRUE) return a;
  if (c->op == B_FALSE) return b;
  if (c->op == B_NOT) return iIte(c->a, b, a);
  if (a->op == I_ITE && a->cond == c) a = a->a;
  if (b->op == I_ITE && b->cond == c) b = b->b;
  if (a == b) return a;
  return mkI(I_ITE, a->w, 0, a, b, c);
}
PE iToReal(IE a) {
  PE r = nullptr;
  switch (a->op) {
    case I_CONST: return pConst(mpq_class((long)sx(a->c, a->w)));
    case I_VAR: r = pIVar((int)a->c); break;
    case I_ADD: case I_MUL: { if (!iNoWrap(a->op, a->a, a->b)) return nullptr; PE x = iToReal(a->a), y = iToReal(a->b); if (!x || !y) return nullptr; r = a->op == I_ADD ? pAdd(x, y) : pMul(x, y); break; }
    case I_SEXT: r = iToReal(a->a); break;
    case I_ZEXT: if (a->a->lo < 0) return nullptr; r = iToReal(a->a); break;
    case I_TRUNC: { int64_t lo, hi; fullRange(a->w, lo, hi); if (a->a->lo < lo || a->a->hi > hi) return nullptr; r = iToReal(a->a); break; }
    case I_ITE: { PE x = iToReal(a->a), y = iToReal(a->b); if (!x || !y) return nullptr; r = pIte(a->cond, x, y); break; }
    default: return nullptr;
  }
  if (r && !pIsConst(r)) g_fromInt.emplace(r, a);
  return r;
}

// ================================================================ booleans
struct BKey { int op, pred, x, y, p, a, b; bool operator==(const BKey& o) const { return op == o.op && pred == o.pred && x == o.x && y == o.y && p == o.p && a == o.a && b == o.b; } };
struct BKeyH { size_t operator()(const BKey& k) const { size_t h = k.op; for (int v : {k.pred, k.x, k.y, k.p, k.a, k.b}) h = hmix(h, v); return h; } };
static std::unordered_map<BKey, BE, BKeyH> btab;
static BE mkB(BOp op, int pred, IE x, IE y, PE p, BE a, BE b) {
  BKey k{op, pred, x ? x->id : -1, y ? y->id : -1, p ? p->id : -1, a ? a->id : -1, b ? b->id : -1};
  auto it = btab.find(k); if (it != btab.end()) return it->second;
  BExpr* e = new BExpr; e->op = op; e->pred = pred; e->x = x; e->y = y; e->p = p; e->a = a; e->b = b; e->id = bcount++; e->hasReal = p != nullptr;
  for (IE q : {x, y}) if (q) { mergeVars(e->vars, q->vars); e->hasReal |= q->hasReal; }
  for (BE q : {a, b}) if (q) { mergeVars(e->vars, q->vars); e->hasReal |= q->hasReal; }
  if (p) { std::set<int> at; polyAtoms(p, at, true); std::vector<int> v; for (int i : at) { if (g_atoms[i].ivar >= 0) v.push_back(g_atoms[i].ivar); if (g_atoms[i].c) mergeVars(e->vars, g_atoms[i].c->vars); } std::sort(v.begin(), v.end()); mergeVars(e->vars, v); }
  btab[k] = e; return e;
}
BE bConst(bool v) { static BE t = mkB(B_TRUE, 0, 0, 0, 0, 0, 0), f = mkB(B_FALSE, 0, 0, 0, 0, 0, 0); return v ? t : f; }
BE bNot(BE a) {
  if (a->op == B_TRUE) return bConst(false);
  if (a->op == B_FALSE) return bConst(true);
  if (a->op == B_NOT) return a->a;
  return mkB(B_NOT, 0, 0, 0, 0, a, 0);
}
void bLits(BE b, std::vector<BE>& out) { if (b->op == B_AND) { bLits(b->a, out); bLits(b->b, out); } else if (b->op != B_TRUE) out.push_back(b); }
static bool litIn(BE conj, BE l) { if (conj == l) return true; return conj->op == B_AND && (litIn(conj->a, l) || litIn(conj->b, l)); }
static bool disjIn(BE d, BE l) { if (d == l) return true; return d->op == B_OR && (disjIn(d->a, l) || disjIn(d->b, l)); }
BE bAnd(BE a, BE b) {
  if (a->op == B_FALSE || b->op == B_FALSE) return bConst(false);
  if (a->op == B_TRUE || a == b) return b;
  if (b->op == B_TRUE) return a;
  if (bNot(a) == b) return bConst(false);
  if (a->op == B_AND && litIn(a, b)) return a;
  if (b->op == B_AND && litIn(b, a)) return b;
  if (a->op == B_AND && litIn(a, bNot(b))) return bConst(false);
  if (b->op == B_AND && litIn(b, bNot(a))) return bConst(false);
  if (b->op == B_OR) { if (disjIn(b, a)) return a; if (b->a == bNot(a)) return bAnd(a, b->b); if (b->b == bNot(a)) return bAnd(a, b->a); }
  if (a->op == B_OR) { if (disjIn(a, b)) return b; if (a->a == bNot(b)) return bAnd(b, a->b); if (a->b == bNot(b)) return bAnd(b, a->a); }
  if (a->id > b->id) std::swap(a, b);
  return mkB(B_AND, 0, 0, 0, 0, a, b);
}
BE bOr(BE a, BE b) {
  if (a->op == B_TRUE || b->op == B_TRUE) return bConst(true);
  if (a->op == B_FALSE || a == b) return b;
  if (b->op == B_FALSE) return a;
  if (bNot(a) == b) return bConst(true);
  if (a->op == B_OR && disjIn(a, b)) return a;
  if (b->op == B_OR && disjIn(b, a)) return b;
  if (a->op == B_OR && disjIn(a, bNot(b))) return bConst(true);
  if (b->op == B_OR && disjIn(b, bNot(a))) return bConst(true);
  if (b->op == B_AND) { if (litIn(b, a)) return a; if (b->a == bNot(a)) return bOr(a, b->b); if (b->b == bNot(a)) return bOr(a, b->a); }
  if (a->op == B_AND) { if (litIn(a, b)) return b; if (a->a == bNot(b)) return bOr(b, a->b); if (a->b == bNot(b)) return bOr(b, a->a); }
  if (a->id > b->id) std::swap(a, b);
  return mkB(B_OR, 0, 0, 0, 0, a, b);
}
static BE bIteB(BE c, BE a, BE b) { if (a == b) return a; return bOr(bAnd(c, a), bAnd(bNot(c), b)); }
BE bICmp(IPred p, IE a, IE b) {
  int w = a->w;
  if (isC(a) && isC(b)) {
    switch (p) { case P_EQ: return bConst(a->c == b->c); case P_SLT: return bConst(a->lo < b->lo); case P_SLE: return bConst(a->lo <= b->lo); case P_ULT: return bConst(a->c < b->c); case P_ULE: return bConst(a->c <= b->c); }
  }
  if (a == b) return bConst(p == P_EQ || p == P_SLE || p == P_ULE);
  if (a->op == I_ITE && isC(b) && (isC(a->a) || isC(a->b))) return bIteB(a->cond, bICmp(p, a->a, b), bICmp(p, a->b, b));
  if (b->op == I_ITE && isC(a) && (isC(b->a) || isC(b->b))) return bIteB(b->cond, bICmp(p, a, b->a), bICmp(p, a, b->b));
  if (a->op == I_ITE && b->op == I_ITE && a->cond == b->cond) return bIteB(a->cond, bICmp(p, a->a, b->a), bICmp(p, a->b, b->b));
  if (p == P_ULT || p == P_ULE) {
    if (a->lo >= 0 && b->lo >= 0) p = p == P_ULT ? P_SLT : P_SLE;
    else if (isC(b) && a->lo >= INT32_MIN && isC(b) && b->lo < 0 && a->lo >= 0) return bConst(true);
  }
  if (p == P_SLT) { if (a->hi < b->lo) return bConst(true); if (a->lo >= b->hi) return bConst(false); }
  if (p == P_SLE) { if (a->hi <= b->lo) return bConst(true); if (a->lo > b->hi) return bConst(false); }
  if (p == P_SLE && isC(b) && b->lo < INT64_MAX && fits((__int128)b->lo + 1, (__int128)b->lo + 1, w)) { return bICmp(P_SLT, a, iConst((uint64_t)(b->lo + 1), w)); }
  if (p == P_SLE && isC(a)) return bNot(bICmp(P_SLT, b, a));
  if (p == P_EQ) {
    if (a->op == I_CONCAT || b->op == I_CONCAT) { IE h1, l1, h2, l2; if (halves(a, h1, l1) && halves(b, h2, l2)) return bAnd(bICmp(P_EQ, h1, h2), bICmp(P_EQ, l1, l2)); }
    if (a->hi < b->lo || b->hi < a->lo) return bConst(false);
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
    if (isC(b)) {
      if (a->op == I_ADD && isC(a->b)) return bICmp(P_EQ, a->a, iConst(b->c - a->b->c, w));
      if (a->op == I_MUL && isC(a->b) && sx(a->b->c, w) == -1) return bICmp(P_EQ, a->a, iConst(0 - b->c, w));
      if (a->op == I_MUL && b->c == 0 && iNoWrap(I_MUL, a->a, a->b)) return bOr(bICmp(P_EQ, a->a, iConst(0, w)), bICmp(P_EQ, a->b, iConst(0, w)));
      if (a->op == I_SEXT) { int64_t v = sx(b->c, w); if (!fits(v, v, a->a->w)) return bConst(false); return bICmp(P_EQ, a->a, iConst((uint64_t)v, a->a->w)); }
      if (a->op == I_ZEXT) { if (mk(b->c, w) != mk(b->c, a->a->w)) return bConst(false); return bICmp(P_EQ, a->a, iConst(b->c, a->a->w)); }
    } else {
      if (a->op == I_SEXT && b->op == I_SEXT && a->a->w == b->a->w) return bICmp(P_EQ, a->a, b->a);
      // x == y  <->  -x == -y
      if (a->op == I_MUL && isC(a->b) && sx(a->b->c, w) == -1 && b->op == I_MUL && b->b == a->b) return bICmp(P_EQ, a->a, b->a);
    }
  }
  if ((p == P_SLT || p == P_SLE) && isC(b) && a->op == I_SEXT && fits(b->lo, b->lo, a->a->w)) return bICmp(p, a->a, iConst((uint64_t)b->lo, a->a->w));
  if ((p == P_SLT || p == P_SLE) && isC(a) && b->op == I_SEXT && fits(a->lo, a->lo, b->a->w)) return bICmp(p, iConst((uint64_t)a->lo, b->a->w), b->a);
  return mkB(B_ICMP, p, a, b, 0, 0, 0);
}
static int polySign(PE a) {  // +1 provably >0, -1 provably <0, 0 unknown
  int s = 0;
  for (auto& t : a->t) {
    for (auto& f : g_monos[t.first].f) if (!g_atoms[f.first].pos && f.second % 2) return 0;
    for (auto& f : g_monos[t.first].f) if (!g_atoms[f.first].pos && g_atoms[f.first].kind != A_VAR) return 0;
    bool strict = true; for (auto& f : g_monos[t.first].f) if (!g_atoms[f.first].pos) strict = f.second < 0;
    int q = sgn(t.second); if (s && q != s) return 0; if (!s && !strict) return 0; s = q;
  }
  return s;
}
// sign known from the form of the terms alone: p >= 0 (1, strict when *st) or p <= 0 (-1)
static int weakSign(PE p, bool* st) {
  int s = 0; *st = false;
  for (auto& t : p->t) {
    bool strict = true;
    for (auto& f : g_monos[t.first].f) {
      const Atom& a = g_atoms[f.first]; if (a.pos) continue;
      bool nn = f.second % 2 == 0 || a.kind == A_ABS || a.kind == A_IND || a.kind == A_SQRT, sd;
      if (!nn && a.kind == A_FLOOR && weakSign(a.p, &sd) > 0) nn = true;
      if (!nn) return 0;
      if (f.second > 0) strict = false;
    }
    int q = sgn(t.second); if (s && q != s) return 0; s = q; if (strict) *st = true;
  }
  return s;
}
BE bRCmp(RPred r, PE p) {
  if (pIsConst(p)) { int s = p->t.empty() ? 0 : sgn(p->t[0].second); return bConst(r == R_EQ ? s == 0 : r == R_LT ? s < 0 : s <= 0); }
  // drop a positive content
  mpq_class c; int mono; PE prim; pPrim(p, c, mono, prim);
  { MonoV keep; bool allpos = true; for (auto& f : g_monos[mono].f) if (!g_atoms[f.first].pos) { allpos = false; keep.push_back(f); }
    PE q = keep.empty() ? prim : pMul(prim, pMono(monoOf(keep), 1));
    if (sgn(c) < 0) q = pNeg(q);
    (void)allpos; p = q; if (pIsConst(p)) return bRCmp(r, p); }
  int s = polySign(p);
  if (s) return bConst(r == R_EQ ? false : s < 0);
  bool wst; int ws = weakSign(p, &wst);
  if (ws && wst) return bConst(r == R_EQ ? false : ws < 0);
  if (ws > 0 && r == R_LT) return bConst(false);
  if (ws < 0 && r == R_LE) return bConst(true);
  if (r == R_EQ && sgn(p->t.back().second) < 0) p = pNeg(p);
  // single indicator
  int ind = -1; bool only = true;
  for (auto& t : p->t) for (auto& f : g_monos[t.first].f) { if (g_atoms[f.first].kind == A_IND) { if (ind >= 0 && ind != f.first) only = false; ind = f.first; } }
  if (ind >= 0 && only) {
    Subst s1, s0; s1.at[ind] = pConst(1); s0.at[ind] = pConst(0);
    PE q1 = pSubst(p, s1), q0 = pSubst(p, s0);
    if (pIsConst(q1) || pIsConst(q0)) return bIteB(g_atoms[ind].c, bRCmp(r, q1), bRCmp(r, q0));
  }
  // an integer-valued polynomial compared with 0
  auto it = g_fromInt.find(p);
  if (it != g_fromInt.end()) { IE x = it->second; IE z = iConst(0, x->w); return r == R_EQ ? bICmp(P_EQ, x, z) : r == R_LT ? bICmp(P_SLT, x, z) : bICmp(P_SLE, x, z); }
  if (p->t.size() <= 2) {   // c*ivar + k
    int iv = -1; bool ok = true; mpq_class ci, k0;
    for (auto& t : p->t) { auto& f = g_monos[t.first].f; if (f.empty()) k0 = t.second; else if (f.size() == 1 && f[0].second == 1 && g_atoms[f[0].first].kind == A_IVAR) { iv = g_atoms[f[0].first].ivar; ci = t.second; } else ok = false; }
    if (ok && iv >= 0) {
      BE res = bConst(false);
      for (int v = g_ivars[iv].lo; v <= g_ivars[iv].hi; v++) { mpq_class val = ci * v + k0; int sg = sgn(val); if (r == R_EQ ? sg == 0 : r == R_LT ? sg < 0 : sg <= 0) res = bOr(res, bICmp(P_EQ, iVar(iv), iConst((uint64_t)(int64_t)v, 32))); }
      return res;
    }
  }
  return mkB(B_RCMP, r, 0, 0, p, 0, 0);
}
std::string iStr(IE a) {
  static const char* n[] = {"", "", "+", "*", "/s", "/u", "%s", "%u", "&", "|", "^", "<<", ">>u", ">>s", "zext", "sext", "trunc", "ite", "concat"};
  switch (a->op) {
    case I_CONST: return std::to_string(sx(a->c, a->w)); case I_VAR: return g_ivars[a->c].name;
    case I_ZEXT: case I_SEXT: case I_TRUNC: return std::string(n[a->op]) + std::to_string(a->w) + "(" + iStr(a->a) + ")";
    case I_ITE: return "(" + bStr(a->cond) + " ? " + iStr(a->a) + " : " + iStr(a->b) + ")";
    default: return "(" + iStr(a->a) + n[a->op] + iStr(a->b) + ")";
  }
}
std::string bStr(BE b) {
  static const char* ip[] = {"==", "<", "<=", "<u", "<=u"}; static const char* rp[] = {"=", "<", "<="};
  switch (b->op) {
    case B_TRUE: return "true"; case B_FALSE: return "false"; case B_NOT: return "!(" + bStr(b->a) + ")";
    case B_AND: return "(" + bStr(b->a) + " && " + bStr(b->b) + ")"; case B_OR: return "(" + bStr(b->a) + " || " + bStr(b->b) + ")";
    case B_ICMP: return iStr(b->x) + ip[b->pred] + iStr(b->y); case B_RCMP: return "(" + pStr(b->p) + ")" + rp[b->pred] + "0";
  }
  return "?";
}

// ================================================================ monomials
struct MVH { size_t operator()(const MonoV& v) const { size_t h = v.size(); for (auto& p : v) { h = hmix(h, p.first); h = hmix(h, (size_t)(p.second + 1000)); } return h; } };
static std::unordered_map<MonoV, int, MVH> mtab;
static std::unordered_map<uint64_t, int> mulcache;
static void initMono() { if (g_monos.empty()) { g_monos.push_back(Mono{}); mtab[MonoV{}] = 0; } }
int monoOf(MonoV v) {
  initMono();
  for (auto& f : v) if (g_atoms[f.first].kind == A_IND && f.second > 1) f.second = 1;
  auto it = mtab.find(v); if (it != mtab.end()) return it->second;
  Mono m; m.f = v;
  for (auto& f : v) {
    const Atom& a = g_atoms[f.first];
    if (a.kind == A_INV) {
      if (f.second < 0) m.needsRed = true;
      if (a.elim) { for (auto& g : v) if (g.first == a.ex && (g.second < 0 || g.second >= a.ed)) m.needsRed = true; }
    }
    if ((a.kind == A_SIN || a.kind == A_SQRT || a.kind == A_ABS) && f.second >= 2) m.needsRed = true;
  }
  int id = g_monos.size(); g_monos.push_back(m); mtab[v] = id; return id;
}
int mulMono(int a, int b) {
  if (a == 0) return b; if (b == 0) return a;
  if (a > b) std::swap(a, b);
  uint64_t k = ((uint64_t)a << 32) | (uint32_t)b;
  auto it = mulcache.find(k); if (it != mulcache.end()) return it->second;
  MonoV r; const MonoV& x = g_monos[a].f; const MonoV& y = g_monos[b].f; size_t i = 0, j = 0;
  while (i < x.size() || j < y.size()) {
    if (j >= y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
    else if (i >= x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
    else { int e = x[i].second + y[j].second; if (e) r.push_back({x[i].first, e}); i++; j++; }
  }
  int id = monoOf(r); mulcache[k] = id; return id;
}

// ================================================================ polynomials
static std::unordered_multimap<size_t, PE> ptab;
static int pcount = 0;
typedef std::vector<std::pair<int, mpq_class>> TermV;
static PE intern(TermV&& t) {
  size_t h = t.size(); for (auto& x : t) { h = hmix(h, x.first); h = hmix(h, mpz_get_ui(x.second.get_num_mpz_t()) + 31 * mpz_get_ui(x.second.get_den_mpz_t()) + (sgn(x.second) < 0)); }
  auto r = ptab.equal_range(h);
  for (auto it = r.first; it != r.second; ++it) if (it->second->t == t) return it->second;
  Poly* p = new Poly; p->t = std::move(t); p->id = pcount++; p->h = h; ptab.emplace(h, p); return p;
}
static PE reduceMono(int m);
typedef std::unordered_map<int, mpq_class> Acc;
static PE fromAcc(Acc& acc) {
  // apply reductions until none is needed
  for (;;) {
    std::vector<int> red; for (auto& x : acc) if (g_monos[x.first].needsRed && sgn(x.second)) red.push_back(x.first);
    if (red.empty()) break;
    for (int m : red) { mpq_class c = acc[m]; acc.erase(m); PE r = reduceMono(m); for (auto& t : r->t) acc[t.first] += c * t.second; }
  }
  TermV t; t.reserve(acc.size()); for (auto& x : acc) if (sgn(x.second)) t.emplace_back(x.first, x.second);
  std::sort(t.begin(), t.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
  return intern(std::move(t));
}
static std::unordered_map<int, PE> redcache;
static PE polyMulRaw(PE a, PE b) {
  Acc acc; acc.reserve(a->t.size() * b->t.size() * 2);
  for (auto& x : a->t) for (auto& y : b->t) acc[mulMono(x.first, y.first)] += x.second * y.second;
  return fromAcc(acc);
}
static PE reduceMono(int m) {
  auto it = redcache.find(m); if (it != redcache.end()) return it->second;
  MonoV v = g_monos[m].f; PE r = nullptr;
  for (size_t i = 0; i < v.size() && !r; i++) {
    Atom a = g_atoms[v[i].first];
    auto without = [&](int d) { MonoV q = v; q[i].second -= d; if (!q[i].second) q.erase(q.begin() + i); return pMono(monoOf(q), 1); };
    if (a.kind == A_INV && v[i].second < 0) { int e = v[i].second; r = pMul(without(e), pPowInt(a.p, -e)); }
    else if (a.kind == A_SIN && v[i].second >= 2) { PE c = pCos(a.p); r = pMul(without(2), pSub(pConst(1), pMul(c, c))); }
    else if (a.kind == A_SQRT && v[i].second >= 2) r = pMul(without(2), a.p);
    else if (a.kind == A_ABS && v[i].second >= 2) r = pMul(without(2), pMul(a.p, a.p));
    else if (a.kind == A_INV && a.elim) {
      for (size_t j = 0; j < v.size(); j++) if (v[j].first == a.ex) {
        if (v[j].second >= a.ed) { MonoV q = v; q[j].second -= a.ed; q[i].second -= 1; MonoV q2; for (auto& f : q) if (f.second) q2.push_back(f); r = pMul(pMono(monoOf(q2), 1), a.elimUp); }
        else if (v[j].second < 0) { r = pMul(without(1), a.elimDown); }
        break;
      }
    }
  }
  if (!r) fail("internal", "reduceMono");
  redcache[m] = r; return r;
}
PE pMono(int mono, const mpq_class& c) {
  if (!sgn(c)) return pConst(0);
  if (g_monos[mono].needsRed) { Acc a; a[mono] = c; return fromAcc(a); }
  TermV t; t.emplace_back(mono, c); return intern(std::move(t));
}
PE pConst(const mpq_class& c) {
  initMono();
  TermV t; if (sgn(c)) t.emplace_back(0, c); return intern(std::move(t));
}
PE pDouble(double d) {
  static std::unordered_map<double, PE> cache; auto it = cache.find(d); if (it != cache.end()) return it->second;
  PE r = pConst(mpq_class(d)); cache[d] = r; return r;
}
bool pIsConst(PE a) { return a->t.empty() || (a->t.size() == 1 && a->t[0].first == 0); }
mpq_class pConstVal(PE a) { return a->t.empty() ? mpq_class(0) : a->t[0].second; }
PE pAtom(int atom, int e) { if (!e) return pConst(1); return pMono(monoOf(MonoV{{atom, e}}), 1); }
static PE addScaled(PE a, PE b, const mpq_class& k) {
  TermV r; r.reserve(a->t.size() + b->t.size()); size_t i = 0, j = 0;
  while (i < a->t.size() || j < b->t.size()) {
    if (j >= b->t.size() || (i < a->t.size() && a->t[i].first < b->t[j].first)) r.push_back(a->t[i++]);
    else if (i >= a->t.size() || b->t[j].first < a->t[i].first) { r.emplace_back(b->t[j].first, k * b->t[j].second); j++; }
    else { mpq_class c = a->t[i].second + k * b->t[j].second; if (sgn(c)) r.emplace_back(a->t[i].first, c); i++; j++; }
  }
  return intern(std::move(r));
}
PE pAdd(PE a, PE b) { if (a->t.empty()) return b; if (b->t.empty()) return a; return addScaled(a, b, 1); }
PE pSub(PE a, PE b) { if (b->t.empty()) return a; if (a == b) return pConst(0); return addScaled(a, b, -1); }
PE pScale(PE a, const mpq_class& c) { if (!sgn(c)) return pConst(0); if (c == 1) return a; TermV t = a->t; for (auto& x : t) x.second *= c; return intern(std::move(t)); }
PE pNeg(PE a) { return pScale(a, -1); }

// factorisations of expanded products (so that 1/(A*B) becomes (1/A)*(1/B))
struct Factored { int sign; std::vector<std::pair<PE, int>> f; };   // prim = sign * product of f
static std::unordered_map<PE, Factored> g_factors;
static void factorsOf(PE a, mpq_class& c, int& mono, std::vector<std::pair<PE, int>>& out) {
  PE prim; pPrim(a, c, mono, prim);
  if (pIsConst(prim)) return;
  auto it = g_factors.find(prim);
  if (it != g_factors.end()) { out = it->second.f; if (it->second.sign < 0) c = -c; return; }
  out.push_back({prim, 1});
}
static std::unordered_map<uint64_t, PE> pmulcache;
PE pMul(PE a, PE b) {
  if (a->t.empty() || b->t.empty()) return pConst(0);
  if (a->t.size() > b->t.size()) std::swap(a, b);
  if (pIsConst(a)) return pScale(b, a->t[0].second);
  uint64_t key = ((uint64_t)std::min(a->id, b->id) << 32) | (uint32_t)std::max(a->id, b->id);
  auto it = pmulcache.find(key); if (it != pmulcache.end()) return it->second;
  PE r = nullptr;
  if (a->t.size() == 1 && b->t.size() > 1) {   // monomial times polynomial: cancel P * INV(P)
    MonoV v = g_monos[a->t[0].first].f;
    for (size_t i = 0; i < v.size() && !r; i++) if (g_atoms[v[i].first].kind == A_INV && v[i].second > 0 && g_atoms[v[i].first].p->t.size() <= b->t.size()) {
      mpq_class c; int m; std::vector<std::pair<PE, int>> fs; factorsOf(b, c, m, fs);
      for (size_t k = 0; k < fs.size(); k++) if (fs[k].first == g_atoms[v[i].first].p) {
        MonoV q = v; q[i].second--; if (!q[i].second) q.erase(q.begin() + i);
        PE rest = pMono(m, c);
        for (size_t l = 0; l < fs.size(); l++) rest = pMul(rest, pPowInt(fs[l].first, fs[l].second - (l == k ? 1 : 0)));
        r = pMul(pMono(monoOf(q), a->t[0].second), rest); break;
      }
    }
  }
  if (!r) r = polyMulRaw(a, b);
  if (a->t.size() > 1 && r->t.size() > 1) {
    mpq_class ca, cb, cr; int ma, mb, mr; std::vector<std::pair<PE, int>> fa, fb; factorsOf(a, ca, ma, fa); factorsOf(b, cb, mb, fb);
    PE prim; pPrim(r, cr, mr, prim);
    if (prim->t.size() > 1 && !g_factors.count(prim)) {
      for (auto& f : fb) { bool f1 = false; for (auto& g : fa) if (g.first == f.first) { g.second += f.second; f1 = true; } if (!f1) fa.push_back(f); }
      mpq_class ratio = ca * cb / cr;
      if (!(fa.size() == 1 && fa[0].second == 1) && abs(ratio) == 1 && mulMono(ma, mb) == mr) g_factors[prim] = Factored{sgn(ratio), fa};
    }
  }
  pmulcache[key] = r; return r;
}
PE pPowInt(PE a, long e) {
  if (e < 0) return pPowInt(pInv(a), -e);
  PE r = pConst(1), b = a; while (e) { if (e & 1) r = pMul(r, b); e >>= 1; if (e) b = pMul(b, b); } return r;
}
void pPrim(PE a, mpq_class& c, int& mono, PE& prim) {
  static std::unordered_map<PE, std::tuple<mpq_class, int, PE>> cache;
  auto it = cache.find(a); if (it != cache.end()) { std::tie(c, mono, prim) = it->second; return; }
  if (a->t.empty()) { c = 0; mono = 0; prim = pConst(1); return; }
  mpz_class g = 0, l = 1;
  for (auto& t : a->t) { mpz_class n = abs(t.second.get_num()); mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), n.get_mpz_t()); mpz_lcm(l.get_mpz_t(), l.get_mpz_t(), t.second.get_den_mpz_t()); }
  c = mpq_class(g, l); c.canonicalize(); if (sgn(a->t.back().second) < 0) c = -c;
  std::map<int, std::pair<int, size_t>> mn;
  for (auto& t : a->t) for (auto& f : g_monos[t.first].f) { auto& e = mn[f.first]; if (!e.second || f.second < e.first) e.first = f.second; e.second++; }
  MonoV mv; for (auto& x : mn) { int e = x.second.first; if (x.second.second < a->t.size()) e = std::min(e, 0); AK k = g_atoms[x.first].kind; if (k == A_IND || (k == A_IVAR && false)) continue; if (e) mv.push_back({x.first, e}); }
  mono = monoOf(mv);
  if (g_monos[mono].needsRed) mono = 0, mv.clear();
  if (mono == 0 && c == 1) prim = a;
  else {
    MonoV iv = mv; for (auto& f : iv) f.second = -f.second; int im = monoOf(iv);
    TermV t; mpq_class ic = 1 / c; bool red = false; for (auto& x : a->t) { int q = mulMono(x.first, im); if (g_monos[q].needsRed) red = true; t.emplace_back(q, x.second * ic); }
    if (red) { mono = 0; t = a->t; for (auto& x : t) x.second *= ic; }
    std::sort(t.begin(), t.end(), [](const auto& p, const auto& q) { return p.first < q.first; });
    prim = intern(std::move(t));
    if (sgn(prim->t.back().second) < 0) { prim = pNeg(prim); c = -c; }
  }
  cache[a] = std::make_tuple(c, mono, prim);
}
static int newAtom(Atom a) { a.id = g_atoms.size(); g_atoms.push_back(a); return a.id; }
static PE invPrim(PE prim) {
  static std::unordered_map<PE, int> tab; auto it = tab.find(prim); if (it != tab.end()) return pAtom(it->second, 1);
  Atom a; a.kind = A_INV; a.p = prim; a.pos = polySign(prim) > 0; int id = newAtom(a); tab[prim] = id;
  PE Y = pAtom(id, 1);
  if (prim->t.size() == 2) {
    bool allexp = true; int best = -1;
    for (auto& t : prim->t) for (auto& f : g_monos[t.first].f) { if (g_atoms[f.first].kind != A_EXPM || f.second < 0) allexp = false; if (best < 0 || f.first < best) best = f.first; }
    if (allexp && best >= 0) {
      int which = -1, d = 0; for (int k = 0; k < 2; k++) for (auto& f : g_monos[prim->t[k].first].f) if (f.first == best) { which = k; d = f.second; }
      auto &t1 = prim->t[which], &t2 = prim->t[1 - which];
      // c1 m1 Y + c2 m2 Y = 1
      PE m1 = pMono(t1.first, 1), m2 = pMono(t2.first, 1); mpq_class c1 = t1.second, c2 = t2.second;
      PE xd = pAtom(best, d); PE m1r = pMul(m1, pInv(xd));
      PE up = pScale(pMul(pInv(m1r), pSub(pConst(1), pScale(pMul(m2, Y), c2))), 1 / c1);
      // elimDown must not itself contain x^a Y with a outside [0,d): built as Laurent data, reduced lazily
      PE down = nullptr;
      { // Y = m2^{-1} (1 - c1 m1 Y)/c2 ; m1 Y keeps exponent d of x, reduced only after multiplication by x^a, a<0
        TermV t; MonoV im2; for (auto& f : g_monos[t2.first].f) im2.push_back({f.first, -f.second}); int i2 = monoOf(im2);
        t.emplace_back(i2, mpq_class(1 / c2)); t.emplace_back(mulMono(mulMono(i2, t1.first), monoOf(MonoV{{id, 1}})), mpq_class(-c1 / c2));
        std::sort(t.begin(), t.end(), [](const auto& p, const auto& q) { return p.first < q.first; }); down = intern(std::move(t)); }
      g_atoms[id].elim = true; g_atoms[id].ex = best; g_atoms[id].ed = d; g_atoms[id].elimUp = up; g_atoms[id].elimDown = down;
    }
  }
  return Y;
}
PE pInv(PE a) {
  static std::unordered_map<PE, PE> cache; auto it = cache.find(a); if (it != cache.end()) return it->second;
  if (a->t.empty()) fail("div0", "inverse of zero polynomial");
  mpq_class c; int mono; std::vector<std::pair<PE, int>> fs; factorsOf(a, c, mono, fs);
  PE r = pConst(1 / c);
  for (auto& f : g_monos[mono].f) {
    const Atom at = g_atoms[f.first];
    if (at.kind == A_INV && f.second > 0) r = pMul(r, pPowInt(at.p, f.second));
    else if (at.kind == A_IND || ((at.kind == A_SQRT || at.kind == A_ABS || at.kind == A_SIN) )) { PE iv = invPrim(pAtom(f.first, 1)); r = pMul(r, pPowInt(iv, f.second)); }
    else r = pMul(r, pAtom(f.first, -f.second));
  }
  for (auto& f : fs) {
    if (f.first->t.size() == 1) { auto& mv = g_monos[f.first->t[0].first].f; if (mv.empty()) continue; }
    r = pMul(r, pPowInt(invPrim(f.first), f.second));
  }
  cache[a] = r; return r;
}
PE pVar(const std::string& name, bool pos) {
  static std::map<std::string, int> tab; auto it = tab.find(name); if (it != tab.end()) return pAtom(it->second, 1);
  initMono(); Atom a; a.kind = A_VAR; a.name = name; a.pos = pos; int id = newAtom(a); tab[name] = id; return pAtom(id, 1);
}
PE pIVar(int v) {
  static std::map<int, int> tab; auto it = tab.find(v); if (it != tab.end()) return pAtom(it->second, 1);
  initMono(); Atom a; a.kind = A_IVAR; a.name = g_ivars[v].name; a.ivar = v; a.pos = g_ivars[v].lo > 0; int id = newAtom(a); tab[v] = id; return pAtom(id, 1);
}
PE pExp(PE a) {
  static std::map<std::pair<int, mpq_class>, int> tab;
  PE r = pConst(1);
  for (auto& t : a->t) {
    mpq_class c2 = t.second * 2; int e = 1; mpq_class k = mpq_class(1, 2);
    if (c2.get_den() == 1 && abs(c2.get_num()) < 1000) e = (int)c2.get_num().get_si();
    else { k = t.second; if (sgn(k) < 0) { k = -k; e = -1; } }
    auto key = std::make_pair(t.first, k); auto it = tab.find(key); int id;
    if (it == tab.end()) { Atom at; at.kind = A_EXPM; at.mono = t.first; at.k = k; at.pos = true; id = newAtom(at); tab[key] = id; } else id = it->second;
    r = pMul(r, pAtom(id, e));
  }
  return r;
}
static PE unary(AK kind, PE a, bool pos) {
  static std::map<std::pair<int, PE>, int> tab; auto key = std::make_pair((int)kind, a); auto it = tab.find(key);
  if (it != tab.end()) return pAtom(it->second, 1);
  Atom at; at.kind = kind; at.p = a; at.pos = pos; int id = newAtom(at); tab[key] = id; return pAtom(id, 1);
}
PE pSin(PE a) { if (a->t.empty()) return a; if (sgn(a->t.back().second) < 0) return pNeg(pSin(pNeg(a))); return unary(A_SIN, a, false); }
PE pCos(PE a) { if (a->t.empty()) return pConst(1); if (sgn(a->t.back().second) < 0) return pCos(pNeg(a)); return unary(A_COS, a, false); }
PE pLog(PE a) { if (pIsConst(a) && pConstVal(a) == 1) return pConst(0); return unary(A_LOG, a, false); }
PE pFloor(PE a) { if (pIsConst(a)) { mpq_class c = pConstVal(a); mpz_class q; mpz_fdiv_q(q.get_mpz_t(), c.get_num_mpz_t(), c.get_den_mpz_t()); return pConst(mpq_class(q)); } return unary(A_FLOOR, a, false); }
PE pAbs(PE a) {
  if (pIsConst(a)) return pConst(abs(pConstVal(a)));
  int s = polySign(a); if (s) return s > 0 ? a : pNeg(a);
  mpq_class c; int mono; PE prim; pPrim(a, c, mono, prim);
  MonoV keep, out; for (auto& f : g_monos[mono].f) (g_atoms[f.first].pos ? out : keep).push_back(f);
  PE in = pMul(prim, pMono(monoOf(keep), 1));
  if (sgn(in->t.back().second) < 0) in = pNeg(in);
  return pScale(pMul(unary(A_ABS, in, false), pMono(monoOf(out), 1)), abs(c));
}
PE pSqrt(PE a) {
  if (a->t.empty()) return a;
  if (pIsConst(a)) { mpq_class c = pConstVal(a); if (sgn(c) > 0) { mpz_class n = sqrt(c.get_num()), d = sqrt(c.get_den()); if (n * n == c.get_num() && d * d == c.get_den()) return pConst(mpq_class(n, d)); } }
  if (a->t.size() == 1) { MonoV h; bool ok = true; for (auto& f : g_monos[a->t[0].first].f) { if (f.second % 2) ok = false; h.push_back({f.first, f.second / 2}); }
    if (ok) { PE c = pSqrt(pConst(a->t[0].second)); if (pIsConst(c)) return pMul(c, pAbs(pMono(monoOf(h), 1))); } }
  auto it = g_factors.find(a); if (it != g_factors.end() && it->second.sign > 0 && it->second.f.size() == 1 && it->second.f[0].second == 2) return pAbs(it->second.f[0].first);
  return unary(A_SQRT, a, false);
}
PE pIte(BE c, PE a, PE b) {
  if (a == b || c->op == B_TRUE) return a;
  if (c->op == B_FALSE) return b;
  if (c->op == B_NOT) return pIte(c->a, b, a);
  static std::map<int, int> tab; auto it = tab.find(c->id); int id;
  if (it == tab.end()) { Atom at; at.kind = A_IND; at.c = c; id = newAtom(at); tab[c->id] = id; } else id = it->second;
  { Subst s1, s0; s1.at[id] = pConst(1); s0.at[id] = pConst(0); a = pSubst(a, s1); b = pSubst(b, s0); }
  if (a == b) return a;
  return pAdd(b, pMul(pAtom(id, 1), pSub(a, b)));
}
PE pUF(const std::string& name, const std::vector<PE>& args) {
  static std::map<std::pair<std::string, std::vector<PE>>, int> tab; auto key = std::make_pair(name, args); auto it = tab.find(key);
  if (it != tab.end()) return pAtom(it->second, 1);
  Atom at; at.kind = A_UF; at.name = name; at.args = args; int id = newAtom(at); tab[key] = id; return pAtom(id, 1);
}
static std::string atomStr(int i) {
  const Atom& a = g_atoms[i];
  switch (a.kind) {
    case A_VAR: case A_IVAR: return a.name; case A_INV: return "inv(" + pStr(a.p, 6) + ")";
    case A_EXPM: return "exp(" + a.k.get_str() + "*" + pStr(pMono(a.mono, 1), 3) + ")"; case A_IND: return "[" + (a.c->op == B_RCMP || a.c->op == B_ICMP ? bStr(a.c) : "b" + std::to_string(a.c->id)) + "]";
    case A_ABS: return "abs(" + pStr(a.p, 6) + ")"; case A_FLOOR: return "floor(" + pStr(a.p, 6) + ")"; case A_SQRT: return "sqrt(" + pStr(a.p, 6) + ")";
    case A_SIN: return "sin(" + pStr(a.p, 6) + ")"; case A_COS: return "cos(" + pStr(a.p, 6) + ")"; case A_LOG: return "log(" + pStr(a.p, 6) + ")";
    case A_UF: { std::string s = a.name + "("; for (size_t k = 0; k < a.args.size(); k++) s += (k ? ", " : "") + pStr(a.args[k], 6); return s + ")"; }
  }
  return "?";
}
std::string pStr(PE a, int mt) {
  if (a->t.empty()) return "0";
  std::string s; int n = 0;
  for (auto& t : a->t) {
    if (n++ >= mt) { s += " + ...(" + std::to_string(a->t.size()) + " terms)"; break; }
    if (n > 1) s += " + ";
    auto& f = g_monos[t.first].f;
    if (t.second != 1 || f.empty()) s += t.second.get_str() + (f.empty() ? "" : "*");
    for (size_t k = 0; k < f.size(); k++) { if (k) s += "*"; s += atomStr(f[k].first); if (f[k].second != 1) s += "^" + std::to_string(f[k].second); }
  }
  return s;
}
void polyAtoms(PE a, std::set<int>& out, bool deep) {
  for (auto& t : a->t) for (auto& f : g_monos[t.first].f) {
    if (!out.insert(f.first).second || !deep) continue;
    const Atom& at = g_atoms[f.first];
    if (at.p) polyAtoms(at.p, out, true);
    if (at.kind == A_EXPM) polyAtoms(pMono(at.mono, 1), out, true);
    for (PE q : std::vector<PE>(at.args)) polyAtoms(q, out, true);
  }
}
void boolAtoms(BE b, std::set<int>& out) {
  if (b->p) polyAtoms(b->p, out, true);
  if (b->a) boolAtoms(b->a, out); if (b->b) boolAtoms(b->b, out);
}
static PE substAtom(int id, Subst& s) {
  auto it = s.at.find(id); if (it != s.at.end()) return it->second;
  auto mit = s.amemo.find(id); if (mit != s.amemo.end()) return mit->second;
  Atom a = g_atoms[id]; PE r = pAtom(id, 1);
  switch (a.kind) {
    case A_INV: { PE q = pSubst(a.p, s); if (q != a.p) r = pInv(q); break; }
    case A_EXPM: { PE m = pMono(a.mono, 1); PE q = pSubst(m, s); if (q != m) r = pExp(pScale(q, a.k)); break; }
    case A_IND: if (s.bs) { BE c = s.bs(a.c); if (c != a.c) r = pIte(c, pConst(1), pConst(0)); } break;
    case A_ABS: { PE q = pSubst(a.p, s); if (q != a.p) r = pAbs(q); break; }
    case A_FLOOR: { PE q = pSubst(a.p, s); if (q != a.p) r = pFloor(q); break; }
    case A_SQRT: { PE q = pSubst(a.p, s); if (q != a.p) r = pSqrt(q); break; }
    case A_SIN: { PE q = pSubst(a.p, s); if (q != a.p) r = pSin(q); break; }
    case A_COS: { PE q = pSubst(a.p, s); if (q != a.p) r = pCos(q); break; }
    case A_LOG: { PE q = pSubst(a.p, s); if (q != a.p) r = pLog(q); break; }
    case A_UF: { std::vector<PE> v; bool ch = false; for (PE q : a.args) { PE n = pSubst(q, s); ch |= n != q; v.push_back(n); } if (ch) r = pUF(a.name, v); break; }
    default: break;
  }
  s.amemo[id] = r; return r;
}
PE pSubst(PE p, Subst& s) {
  auto it = s.memo.find(p); if (it != s.memo.end()) return it->second;
  bool changed = false;
  std::vector<std::pair<int, mpq_class>> terms = p->t;
  for (auto& t : terms) { for (auto& f : MonoV(g_monos[t.first].f)) { if (substAtom(f.first, s) != pAtom(f.first, 1)) changed = true; else if (s.domRed && f.second >= 2 && g_atoms[f.first].kind == A_IVAR && s.domRed(f.first)) changed = true; else if (s.domRed && f.second < 0 && g_atoms[f.first].kind == A_IVAR && s.domRed(f.first) == 1) changed = true; if (changed) break; } if (changed) break; }
  if (!changed) { s.memo[p] = p; return p; }
  PE r = pConst(0); Acc acc; 
  for (auto& t : terms) {
    MonoV keep; PE q = nullptr;
    for (auto& f : MonoV(g_monos[t.first].f)) {
      PE n = substAtom(f.first, s);
      if (n == pAtom(f.first, 1)) {
        int e = f.second;
        if (s.domRed && g_atoms[f.first].kind == A_IVAR && (e >= 2 || e < 0)) { int d = s.domRed(f.first); if (d == 1) e = ((e % 2) + 2) % 2; else if (d == 2 && e >= 2) e = 1; else if (d == 3 && e >= 3) e = e % 2 ? 1 : 2; }
        if (e) keep.push_back({f.first, e});
        continue;
      }
      if (pIsZero(n) && f.second < 0) fail("div0", "substitution gives 1/0");
      PE w = pPowInt(n, f.second); q = q ? pMul(q, w) : w;
    }
    PE term = pMono(monoOf(keep), t.second); if (q) term = pMul(term, q);
    for (auto& x : term->t) acc[x.first] += x.second;
  }
  r = fromAcc(acc); s.memo[p] = r; return r;
}
PE pNumer(PE d, size_t limit, bool& ok) {
  ok = true;
  for (int round = 0; round < 500; round++) {
    std::map<int, int> mx; for (auto& t : d->t) for (auto& f : g_monos[t.first].f) if (g_atoms[f.first].kind == A_INV) { int& e = mx[f.first]; e = std::max(e, f.second); }
    if (mx.empty()) return d;
    // eliminate the atom whose denominator is smallest
    int best = -1; for (auto& x : mx) if (best < 0 || g_atoms[x.first].p->t.size() < g_atoms[best].p->t.size()) best = x.first;
    int K = mx[best]; PE P = g_atoms[best].p;
    std::vector<PE> pw(K + 1); pw[0] = pConst(1); for (int k = 1; k <= K; k++) pw[k] = polyMulRaw(pw[k - 1], P);
    std::vector<Acc> parts(K + 1);
    for (auto& t : d->t) { MonoV v = g_monos[t.first].f; int e = 0; for (size_t i = 0; i < v.size(); i++) if (v[i].first == best) { e = v[i].second; v.erase(v.begin() + i); break; } parts[e][monoOf(v)] += t.second; }
    PE r = pConst(0);
    for (int e = 0; e <= K; e++) { if (parts[e].empty()) continue; PE q = fromAcc(parts[e]); if (q->t.size() * pw[K - e]->t.size() > limit) { ok = false; return d; } r = pAdd(r, polyMulRaw(q, pw[K - e])); if (r->t.size() > limit) { ok = false; return d; } }
    mpq_class c; int m; PE prim; if (!r->t.empty()) { pPrim(r, c, m, prim); r = prim; }
    d = r;
  }
  ok = false; return d;
}

// ================================================================ numeric evaluation
uint64_t numI(IE a, NumEnv& env) {
  switch (a->op) {
    case I_CONST: return a->c;
    case I_VAR: { auto it = env.ints.find((int)a->c); return mk((uint64_t)(it == env.ints.end() ? (int64_t)g_ivars[a->c].lo : it->second), 32); }
    case I_ZEXT: return mk(numI(a->a, env), a->a->w);
    case I_SEXT: return mk((uint64_t)sx(numI(a->a, env), a->a->w), a->w);
    case I_TRUNC: return mk(numI(a->a, env), a->w);
    case I_CONCAT: return (numI(a->a, env) << 32) | mk(numI(a->b, env), 32);
    case I_ITE: return numB(a->cond, env) ? numI(a->a, env) : numI(a->b, env);
    default: { bool bad = false; uint64_t r = evalOp(a->op, numI(a->a, env), numI(a->b, env), a->w, bad); if (bad) env.bad = true; return r; }
  }
}
bool numB(BE b, NumEnv& env) {
  switch (b->op) {
    case B_TRUE: return true; case B_FALSE: return false; case B_NOT: return !numB(b->a, env);
    case B_AND: return numB(b->a, env) && numB(b->b, env); case B_OR: return numB(b->a, env) || numB(b->b, env);
    case B_ICMP: { int w = b->x->w; uint64_t x = numI(b->x, env), y = numI(b->y, env); int64_t sa = sx(x, w), sb = sx(y, w); x = mk(x, w); y = mk(y, w);
      switch (b->pred) { case P_EQ: return x == y; case P_SLT: return sa < sb; case P_SLE: return sa <= sb; case P_ULT: return x < y; default: return x <= y; } }
    case B_RCMP: { long double v = numPoly(b->p, env); if (env.margin && v != 0) { long double sc = 0; for (auto& t : b->p->t) sc += fabsl(numPoly(pMono(t.first, t.second), env)); if (fabsl(v) < 1e-9L * sc) env.bad = true; } return b->pred == R_EQ ? v == 0 : b->pred == R_LT ? v < 0 : v <= 0; }
  }
  return false;
}
long double numUF(const std::string& name, const std::vector<long double>& a, bool& bad) {
  if (name.find("fermi_bose") != std::string::npos && a.size() == 5) {
    // args m, sigma, beta, Re E, Im E : m-th energy derivative of y = 1/(sigma exp(beta E)+1), via y' = beta (y^2 - y)
    int m = (int)llroundl(a[0]); if (m < 0 || m > 12) { bad = true; return 0; }
    std::vector<long double> c{0, 1};
    for (int k = 0; k < m; k++) { std::vector<long double> d(c.size() + 1, 0); for (size_t i = 1; i < c.size(); i++) { d[i + 1] += i * c[i]; d[i] -= i * c[i]; } c = d; }
    long double er = expl(a[2] * a[3]), re = a[1] * er * cosl(a[2] * a[4]) + 1, im = a[1] * er * sinl(a[2] * a[4]), n = re * re + im * im; if (n == 0) { bad = true; return 0; }
    long double yr = re / n, yi = -im / n, pr = 1, pi = 0, sr = 0, si = 0;
    for (size_t i = 0; i < c.size(); i++) { sr += c[i] * pr; si += c[i] * pi; long double t = pr * yr - pi * yi; pi = pr * yi + pi * yr; pr = t; }
    long double b = powl(a[2], m); return name.size() > 3 && name.compare(name.size() - 3, 3, ".im") == 0 ? si * b : sr * b;
  }
  // an arbitrary but fixed smooth function
  long double h = 0.3L; for (char c : name) h += 0.017L * (c % 13); long double s = h; int k = 1; for (long double x : a) s += sinl(h * x + k++) * (0.7L + 0.1L * k); return s;
}
static long double numAtom(int id, NumEnv& env) {
  auto it = env.amemo.find(id); if (it != env.amemo.end()) return it->second;
  Atom a = g_atoms[id]; long double r = 0;
  switch (a.kind) {
    case A_VAR: { auto q = env.real.find(id); if (q == env.real.end()) { env.bad = true; r = 1; } else r = q->second; break; }
    case A_IVAR: { auto q = env.ints.find(a.ivar); r = q == env.ints.end() ? g_ivars[a.ivar].lo : q->second; break; }
    case A_INV: { long double v = numPoly(a.p, env); if (fabsl(v) < 1e-300L) { env.bad = true; r = 0; } else r = 1 / v; break; }
    case A_EXPM: r = expl((long double)a.k.get_d() * numPoly(pMono(a.mono, 1), env)); break;
    case A_IND: r = numB(a.c, env) ? 1 : 0; break;
    case A_ABS: r = fabsl(numPoly(a.p, env)); break;
    case A_FLOOR: r = floorl(numPoly(a.p, env)); break;
    case A_SQRT: r = sqrtl(numPoly(a.p, env)); break;
    case A_SIN: r = sinl(numPoly(a.p, env)); break;
    case A_COS: r = cosl(numPoly(a.p, env)); break;
    case A_LOG: r = logl(numPoly(a.p, env)); break;
    case A_UF: { std::vector<long double> v; for (PE q : a.args) v.push_back(numPoly(q, env)); bool bad = false; r = numUF(a.name, v, bad); if (bad) env.bad = true; break; }
  }
  if (!std::isfinite((double)r)) env.bad = true;
  env.amemo[id] = r; return r;
}
long double numPoly(PE p, NumEnv& env) {
  long double s = 0;
  for (auto& t : p->t) { long double v = t.second.get_d(); for (auto& f : g_monos[t.first].f) { long double x = numAtom(f.first, env); int e = f.second; if (e < 0) { if (x == 0) { env.bad = true; x = 1; } x = 1 / x; e = -e; } while (e--) v *= x; } s += v; }
  return s;
}
