// C07: one summation step of an arbitrary product is the exact residue sum (array and term form).
// Coefficients are symbolic; the statistical function is uninterpreted here (C08 decides it).
#include "common.hpp"
static AmiBase* A; static double B;
static double den(const iv& a, const iv& e, const std::vector<double>& x, const std::vector<double>& E) { double d = 0; for (size_t k = 0; k < x.size(); k++) d += a[k] * x[k]; for (size_t k = 0; k < E.size(); k++) d += e[k] * E[k]; sym_nonzero(d); return 1.0 / d; }
static double stat(const iv& a, const iv& e, int der, const std::vector<double>& E) {
  int odd = 0; for (size_t k = 0; k < a.size(); k++) odd += a[k] != 0;
  odd = sym_split(odd & 1); double en = 0; for (size_t k = 0; k < E.size(); k++) en += e[k] * E[k];
  return A->fermi_bose(der, odd ? -1.0 : 1.0, B, cd(en, 0)).real();
}
static iv plus(const iv& a, int s, const iv& b) { iv r; for (size_t k = 0; k < a.size(); k++) r.push_back(a[k] + s * b[k]); return r; }
static bool zero(const iv& a) { bool z = true; for (size_t k = 0; k < a.size(); k++) z = z & (a[k] == 0); return z; }
// residue sum of prod 1/(a.x+e.E) over frequency idx: group lines by pole, Leibniz in closed form
static double oracle(const AmiBase::g_prod_t& R, int idx, const std::vector<double>& x, const std::vector<double>& E, bool& skip) {
  int n = (int)R.size(); std::vector<char> used(n, 0); double tot = 0; skip = false;
  for (int i = 0; i < n; i++) {
    if (used[i]) continue;
    int ai = sym_split(R[i].alpha_[idx]); if (ai == 0) continue;
    iv za, ze; for (size_t k = 0; k < R[i].alpha_.size(); k++) za.push_back((int)k == idx ? 0 : -ai * R[i].alpha_[k]);
    for (size_t k = 0; k < R[i].eps_.size(); k++) ze.push_back(-ai * R[i].eps_[k]);
    if (sym_split_bool(zero(ze))) { int c = 0; for (size_t k = 0; k < za.size(); k++) c += za[k] != 0; if (sym_split(c & 1)) { skip = true; return 0; } }
    int M = 0; double pre = 1; std::vector<double> inv; iv oa;
    for (int j = 0; j < n; j++) {
      int aj = sym_split(R[j].alpha_[idx]);
      iv ra = plus(R[j].alpha_, aj, za), re = plus(R[j].eps_, aj, ze); ra[idx] = 0;
      if (aj != 0 && sym_split_bool(zero(ra) & zero(re))) { used[j] = 1; M++; pre *= aj; } else { inv.push_back(den(ra, re, x, E)); oa.push_back(aj); }
    }
    int m = (int)inv.size(); std::vector<int> r(m + 1, 0); r[m] = M - 1;
    for (;;) {
      double v = pre / orc::fact(r[m]); for (int j = 0; j < m; j++) for (int q = 0; q <= r[j]; q++) v *= q ? -oa[j] * inv[j] : inv[j];
      tot += v * stat(za, ze, r[m], E);
      int j = 0; while (j < m && (r[m] == 0 || oa[j] == 0)) { r[m] += r[j]; r[j] = 0; j++; }
      if (j == m) break;
      r[j]++; r[m]--;
    }
  }
  return tot;
}
extern "C" void harness() {
  int n = sym_param("n", 2), nf = sym_param("nf", 2), ne = sym_param("ne", 2), em = sym_param("em", 1), np = sym_param("np", 1), idx = sym_param("idx", 0), form = sym_param("form", 0);
  int same = sym_param("same", 0);   // the last `same` lines repeat line 0 up to orientation: a pole of that multiplicity
  AmiBase ami; A = &ami; AmiBase::Ri_t Rs; int tp = sym_param("topo", -1);   // the lines of a fixed diagram (and of a second one with the same counts)
  if (tp >= 0) { Case c = topo(tp); nf = c.nfreq; ne = c.neps; Rs.push_back(c.R0); if (np == 2) Rs.push_back(AmiBase::g_prod_t(c.R0.rbegin(), c.R0.rend() - 1)); }
  else for (int p = 0; p < np; p++) {
    AmiBase::g_prod_t R;
    for (int i = 0; i < n - same; i++) {
      iv a, e;
      for (int k = 0; k < nf; k++) a.push_back(symI(nm("a", 10 * p + i, k), -1, 1));
      for (int k = 0; k < ne; k++) e.push_back(symI(nm("q", 10 * p + i, k), -em, em));
      R.push_back(AmiBase::g_struct(e, a));
    }
    for (int i = 0; i < same; i++) { iv a, e; int f = sym_split(symI(nm("f", 10 * p + i), 0, 1)) ? 1 : -1; for (int k = 0; k < nf; k++) a.push_back(f * R[0].alpha_[k]); for (int k = 0; k < ne; k++) e.push_back(f * R[0].eps_[k]); R.push_back(AmiBase::g_struct(e, a)); }
    if (same) sym_assume(R[0].alpha_[idx] != 0);
    Rs.push_back(R);
  }
  std::vector<double> x, E; for (int k = 0; k < nf; k++) x.push_back(k == idx ? 0.0 : symR(nm("w", k))); for (int k = 0; k < ne; k++) E.push_back(symR(nm("e", k))); B = symP("beta");
  std::vector<double> want; bool skip = false;
  for (int p = 0; p < np; p++) { want.push_back(oracle(Rs[p], idx, x, E, skip)); sym_assume(!skip); }
  if (form == 0) {
    AmiBase::R_t R; AmiBase::P_t P; AmiBase::S_t S; R.push_back(Rs);
    ami.update_gprod_general(idx, 0, R, P, S);
    sym_check(R.size() == 2 && P.size() == 1 && S.size() == 1, "a step appends one layer");
    sym_check((int)P[0].size() == np && (int)S[0].size() == np, "one group per product");
    size_t pos = 0;
    for (int p = 0; p < np; p++) {
      double got = 0; sym_check(P[0][p].size() == S[0][p].size(), "signs and poles pair up");
      for (size_t k = 0; k < P[0][p].size(); k++, pos++) {
        double v = S[0][p][k] * stat(P[0][p][k].alpha_, P[0][p][k].eps_, sym_split(P[0][p][k].der_), E);
        sym_check(pos < R[1].size(), "one residual product per pole");
        for (size_t g = 0; g < R[1][pos].size(); g++) { sym_check(R[1][pos][g].alpha_[idx] == 0, "a residual product does not depend on the summed frequency"); v *= den(R[1][pos][g].alpha_, R[1][pos][g].eps_, x, E); }
        got += v;
      }
      sym_check_eq(got, want[p], "one step of the array form is the exact residue sum");
    }
    sym_check(pos == R[1].size(), "one residual product per pole");
  } else {
    AmiBase::terms in, out; std::vector<double> sg; std::vector<AmiBase::pole_struct> keep; double tot = 0, got = 0;
    for (int p = 0; p < np; p++) {
      AmiBase::term t; t.sign = symR(nm("s", p)); t.g_list = Rs[p];
      iv pa(nf, 0), pe(ne, 0); pe[0] = p + 1; AmiBase::pole_struct k(pe, pa); k.index_ = 1; k.der_ = p; k.which_g_.push_back(0); k.multiplicity_ = 1; t.p_list.push_back(k); keep.push_back(k);
      in.push_back(t); tot += t.sign * stat(pa, pe, p, E) * want[p];
    }
    ami.integrate_step(idx, in, out);
    for (size_t t = 0; t < out.size(); t++) {
      double v = out[t].sign; sym_check(out[t].p_list.size() == 2, "a step adds one factor and keeps the earlier ones");
      for (size_t k = 0; k < out[t].p_list.size(); k++) v *= stat(out[t].p_list[k].alpha_, out[t].p_list[k].eps_, sym_split(out[t].p_list[k].der_), E);
      for (size_t g = 0; g < out[t].g_list.size(); g++) v *= den(out[t].g_list[g].alpha_, out[t].g_list[g].eps_, x, E);
      got += v;
    }
    sym_check_eq(got, tot, "one step of the term form is the exact residue sum");
  }
}
