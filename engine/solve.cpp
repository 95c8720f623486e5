#include "solve.hpp"
#include <chrono>
SolverStats g_ss;
static z3::context* Cx = nullptr;
static z3::context& C() { if (!Cx) Cx = new z3::context; return *Cx; }

struct Tr {
  bool exact; z3::context& c; z3::expr_vector side;
  std::unordered_map<int, z3::expr> im, bm, pm, am, mm; std::set<int> ivs;
  std::vector<int> realVars;
  Tr(bool e) : exact(e), c(C()), side(c) {}
  z3::expr bvv(int64_t v, int w) { return c.bv_val((int64_t)v, (unsigned)w); }
  z3::expr ivar(int v) {
    z3::expr x = c.bv_const(("i" + std::to_string(v)).c_str(), nb(v));
    if (ivs.insert(v).second) { int n = nb(v); side.push_back(x >= bvv(g_ivars[v].lo, n)); side.push_back(x <= bvv(g_ivars[v].hi, n)); }
    return x;
  }
  static int nb(int v) { int n = 2; while (-(1ll << (n - 1)) > g_ivars[v].lo || (1ll << (n - 1)) - 1 < g_ivars[v].hi) n++; return n; }
  // minimal width holding [lo,hi]
  static int need(int64_t lo, int64_t hi) { int n = 1; while (n < 64 && (-(1ll << (n - 1)) > lo || (1ll << (n - 1)) - 1 < hi)) n++; return n; }
  z3::expr fit(z3::expr e, int w) { int n = e.get_sort().bv_size(); if (n == w) return e; if (n < w) return z3::sext(e, w - n); return e.extract(w - 1, 0); }
  // value in a width >= need(lo,hi), signed; callers use fit()
  z3::expr small(IE a) {
    auto it = im.find(a->id); if (it != im.end()) return it->second;
    z3::expr r(c); int n = need(a->lo, a->hi);
    switch (a->op) {
      case I_CONST: r = bvv(sx(a->c, a->w), n); break;
      case I_VAR: r = ivar((int)a->c); break;
      case I_ADD: if (iNoWrap(I_ADD, a->a, a->b)) r = fit(small(a->a), std::max(n, 1)) + fit(small(a->b), n); else r = fit(small(a->a), a->w) + fit(small(a->b), a->w); break;
      case I_MUL: if (iNoWrap(I_MUL, a->a, a->b)) r = fit(small(a->a), n) * fit(small(a->b), n); else r = fit(small(a->a), a->w) * fit(small(a->b), a->w); break;
      case I_SEXT: r = small(a->a); break;
      case I_ZEXT: if (a->a->lo >= 0) r = small(a->a); else r = z3::zext(fit(small(a->a), a->a->w), a->w - a->a->w); break;
      case I_TRUNC: r = fit(small(a->a), a->w); break;
      case I_CONCAT: r = z3::concat(fit(small(a->a), 32), fit(small(a->b), 32)); break;
      case I_ITE: { z3::expr x = small(a->a), y = small(a->b); int m = std::max(x.get_sort().bv_size(), y.get_sort().bv_size()); r = z3::ite(boolean(a->cond), fit(x, m), fit(y, m)); break; }
      default: {
        int wd = a->w; bool nonneg = a->a->lo >= 0 && a->b->lo >= 0;
        if (a->op == I_SDIV || a->op == I_SREM || a->op == I_AND || a->op == I_OR || a->op == I_XOR || ((a->op == I_UDIV || a->op == I_UREM) && nonneg))   // a narrow encoding is exact
          wd = std::min(wd, 1 + std::max(need(a->a->lo, a->a->hi), need(a->b->lo, a->b->hi)));
        z3::expr x = fit(small(a->a), wd), y = fit(small(a->b), wd);
        switch (a->op) {
          case I_SDIV: r = x / y; break; case I_SREM: r = z3::srem(x, y); break; case I_UDIV: r = z3::udiv(x, y); break; case I_UREM: r = z3::urem(x, y); break;
          case I_AND: r = x & y; break; case I_OR: r = x | y; break; case I_XOR: r = x ^ y; break;
          case I_SHL: r = z3::shl(x, y); break; case I_LSHR: r = z3::lshr(x, y); break; case I_ASHR: r = z3::ashr(x, y); break; default: fail("internal", "z3 int op");
        }
      }
    }
    im.emplace(a->id, r); return r;
  }
  z3::expr num(const mpq_class& q) { return c.real_val(q.get_str().c_str()); }
  z3::expr atom(int id) {
    auto it = am.find(id); if (it != am.end()) return it->second;
    Atom a = g_atoms[id]; z3::expr v = c.real_const(("a" + std::to_string(id)).c_str()); am.emplace(id, v);
    if (a.kind == A_VAR) realVars.push_back(id);
    if (a.pos) side.push_back(v > 0);
    switch (a.kind) {
      case A_IVAR: { if ((int64_t)g_ivars[a.ivar].hi - g_ivars[a.ivar].lo > 4096) fail("unsupported", "real value of a wide integer variable"); z3::expr x = ivar(a.ivar); int n = x.get_sort().bv_size(); z3::expr_vector d(c); for (int k = g_ivars[a.ivar].lo; k <= g_ivars[a.ivar].hi; k++) d.push_back(x == bvv(k, n) && v == c.real_val(k)); side.push_back(z3::mk_or(d)); break; }
      case A_IND: { z3::expr b = boolean(a.c); side.push_back(v == z3::ite(b, c.real_val(1), c.real_val(0))); break; }
      case A_INV: if (exact) side.push_back(v * poly(a.p) == 1); break;
      case A_ABS: { z3::expr q = poly(a.p); side.push_back(v >= 0); side.push_back(v == q || v == -q); break; }
      case A_FLOOR: { z3::expr q = poly(a.p); side.push_back(v <= q && q < v + 1); break; }
      case A_SQRT: { side.push_back(v >= 0); if (exact) side.push_back(v * v == poly(a.p)); break; }
      case A_SIN: case A_COS: side.push_back(v <= 1 && v >= -1); break;
      default: break;
    }
    return v;
  }
  z3::expr mono(int m) {
    auto it = mm.find(m); if (it != mm.end()) return it->second;
    MonoV f = g_monos[m].f; z3::expr r(c);
    if (f.empty()) r = c.real_val(1);
    else if (f.size() == 1 && f[0].second == 1) r = atom(f[0].first);
    else if (f.size() == 1 && f[0].second > 0 && g_atoms[f[0].first].kind == A_IND) r = atom(f[0].first);
    else if (exact) {
      r = c.real_val(1); bool first = true;
      for (auto& g : f) { z3::expr a = atom(g.first); int e = std::abs(g.second); z3::expr p = a; 
        if (g.second < 0) { auto key = -1 - g.first; auto q = am.find(key); if (q == am.end()) { z3::expr iv = c.real_const(("ia" + std::to_string(g.first)).c_str()); side.push_back(iv * a == 1); am.emplace(key, iv); p = iv; } else p = q->second; }
        for (int k = 0; k < e; k++) { r = first ? p : r * p; first = false; } }
    } else {
      r = c.real_const(("m" + std::to_string(m)).c_str());
      bool pos = true, even = true, inds = false; for (auto& g : f) { if (!g_atoms[g.first].pos) { pos = false; if (g.second % 2) even = false; } if (g_atoms[g.first].kind == A_IND) inds = true; }
      if (pos) side.push_back(r > 0); else if (even) side.push_back(r >= 0);
      if (inds) { // m = ind * rest
        MonoV rest; z3::expr_vector on(c); for (auto& g : f) { if (g_atoms[g.first].kind == A_IND) on.push_back(boolean(g_atoms[g.first].c)); else rest.push_back(g); }
        z3::expr rr = mono(monoOf(rest)); side.push_back(r == z3::ite(z3::mk_and(on), rr, c.real_val(0)));
      }
    }
    mm.emplace(m, r); return r;
  }
  z3::expr poly(PE p) {
    auto it = pm.find(p->id); if (it != pm.end()) return it->second;
    z3::expr_vector v(c); for (auto& t : p->t) v.push_back(t.first == 0 ? num(t.second) : (t.second == 1 ? mono(t.first) : num(t.second) * mono(t.first)));
    z3::expr r = v.empty() ? c.real_val(0) : v.size() == 1 ? v[0] : z3::sum(v); pm.emplace(p->id, r); return r;
  }
  z3::expr boolean(BE b) {
    auto it = bm.find(b->id); if (it != bm.end()) return it->second;
    z3::expr r(c);
    switch (b->op) {
      case B_TRUE: r = c.bool_val(true); break; case B_FALSE: r = c.bool_val(false); break;
      case B_NOT: r = !boolean(b->a); break; case B_AND: r = boolean(b->a) && boolean(b->b); break; case B_OR: r = boolean(b->a) || boolean(b->b); break;
      case B_ICMP: {
        z3::expr x = small(b->x), y = small(b->y);
        if (b->pred == P_ULT || b->pred == P_ULE) { x = fit(x, b->x->w); y = fit(y, b->x->w); r = b->pred == P_ULT ? z3::ult(x, y) : z3::ule(x, y); }
        else { int n = std::max(x.get_sort().bv_size(), y.get_sort().bv_size()); x = fit(x, n); y = fit(y, n); r = b->pred == P_EQ ? x == y : b->pred == P_SLT ? x < y : x <= y; }
        break; }
      case B_RCMP: { z3::expr q = poly(b->p); r = b->pred == R_EQ ? q == 0 : b->pred == R_LT ? q < 0 : q <= 0; break; }
    }
    bm.emplace(b->id, r); return r;
  }
};

static long double toLD(const z3::expr& v, bool& ok) {
  ok = true;
  std::string s;
  if (v.is_numeral()) { mpq_class q; if (q.set_str(Z3_get_numeral_string(C(), v), 10)) { ok = false; return 0; } q.canonicalize(); return q.get_d(); }
  if (v.is_algebraic()) { s = v.get_decimal_string(18); if (!s.empty() && s.back() == '?') s.pop_back(); return strtold(s.c_str(), nullptr); }
  ok = false; return 0;
}
static Res run(Tr& t, std::vector<z3::expr>& as, unsigned timeout_ms, Model* model) {
  auto t0 = std::chrono::steady_clock::now();
  bool pure = t.am.empty() && t.mm.empty() && t.pm.empty();
  z3::solver s = pure ? z3::solver(C(), "QF_FD") : t.exact ? z3::solver(C()) : z3::solver(C(), z3::solver::simple()); z3::params p(C()); p.set("timeout", timeout_ms); s.set(p);
  for (auto& e : as) s.add(e);
  for (unsigned i = 0; i < t.side.size(); i++) s.add(t.side[i]);
  Res r = R_UNKNOWN;
  try {
    z3::check_result cr = s.check(); r = cr == z3::sat ? R_SAT : cr == z3::unsat ? R_UNSAT : R_UNKNOWN;
    if (r == R_SAT && model) {
      z3::model m = s.get_model();
      for (int v : t.ivs) { z3::expr e = m.eval(C().bv_const(("i" + std::to_string(v)).c_str(), Tr::nb(v)), true); uint64_t u = e.get_numeral_uint64(); model->ints[v] = sx(u, Tr::nb(v)); }
      model->hasReals = true;
      for (int v : t.realVars) { bool ok; long double d = toLD(m.eval(C().real_const(("a" + std::to_string(v)).c_str()), true), ok); if (ok) model->reals[v] = d; else model->hasReals = false; }
    }
  } catch (z3::exception& e) { r = R_UNKNOWN; }
  g_ss.queries++; (r == R_SAT ? g_ss.sat : r == R_UNSAT ? g_ss.unsat : g_ss.unknown)++;
  g_ss.secs += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  return r;
}
Res solveConj(const std::vector<BE>& conj, bool exact, unsigned timeout_ms, Model* model) {
  Tr t(exact); std::vector<z3::expr> as; for (BE b : conj) as.push_back(t.boolean(b)); return run(t, as, timeout_ms, model);
}
Res solveNonZero(const std::vector<BE>& pc, PE p, bool exact, unsigned timeout_ms, Model* model) {
  Tr t(exact); std::vector<z3::expr> as; for (BE b : pc) as.push_back(t.boolean(b)); as.push_back(t.poly(p) != 0); return run(t, as, timeout_ms, model);
}
Res solveDiffer(const std::vector<BE>& pc, PE l, PE r, unsigned timeout_ms) {
  Tr t(false); std::vector<z3::expr> as; for (BE b : pc) as.push_back(t.boolean(b)); as.push_back(t.poly(l) != t.poly(r)); return run(t, as, timeout_ms, nullptr);
}
