// C24: the array algebra keeps positions.  Shapes (number of groups and their sizes, empty groups included) are symbolic and
// split; every entry is symbolic.  what: 0 dot, 1 cross, 2 star, 3 fermi, 4 whole evaluation of free tables, 5 factorized contraction
#include "common.hpp"
typedef AmiBase::SorF_t SF;
static int len(const std::string& n, int lo, int hi) { return lo == hi ? lo : sym_split(symI(n, lo, hi)); }
static void same(cd a, cd b, const char* m) { sym_check_eq(a.real(), b.real(), m); sym_check_eq(a.imag(), b.imag(), m); }
static int cplx;
static cd entry(const char* p, int i, int j) { return cd(symR(nm(p, i, j)), cplx ? symR(nm((std::string(p) + "i").c_str(), i, j)) : 0.0); }
static AmiBase::pole_struct pole(int ne, int k, int L) { AmiBase::pole_struct q; q.eps_ = iv(ne, 0); q.eps_[k] = 1; q.alpha_ = iv(L, 0); q.index_ = 0; q.multiplicity_ = 1; q.which_g_.push_back(0); return q; }
extern "C" void harness() {
  int what = sym_param("what", 0), G = sym_param("G", 3), M = sym_param("M", 2), lo = sym_param("lo", 0); cplx = sym_param("cplx", 1);
  AmiBase ami; ami.precision_cutoff = -1; AmiBase::ami_vars v; v.BETA_ = symP("beta"); v.prefactor = symR("pf");
  AmiBase::ami_parms parms = mkParms(1, AmiBase::Sigma);
  if (what == 0) {
    int g = len("g", lo, G); AmiBase::Si_t S; SF F;
    for (int i = 0; i < g; i++) { int m = len(nm("m", i), 0, M); S.push_back(AmiBase::sign_t()); F.push_back(std::vector<cd>()); for (int j = 0; j < m; j++) { S[i].push_back(symR(nm("s", i, j))); F[i].push_back(entry("f", i, j)); } }
    SF r = ami.dot(S, F);
    sym_check((int)r.size() == g, "the elementwise product keeps the number of groups"); if ((int)r.size() != g) return;
    for (int i = 0; i < g; i++) {
      sym_check(r[i].size() == S[i].size(), "the elementwise product keeps the size of every group"); if (r[i].size() != S[i].size()) return;
      if (S[i].empty()) sym_reach("empty group");
      for (size_t j = 0; j < S[i].size(); j++) same(r[i][j], cd(S[i][j] * F[i][j].real(), S[i][j] * F[i][j].imag()), "matching entries are multiplied");
    }
  } else if (what == 1) {
    int g = len("g", 1, G); SF L(1), R; std::vector<cd> w;
    for (int i = 0; i < g; i++) { int m = len(nm("m", i), 0, M); L[0].push_back(entry("l", 0, i)); R.push_back(std::vector<cd>()); for (int j = 0; j < m; j++) { R[i].push_back(entry("r", i, j)); w.push_back(orc::cmul(L[0][i], R[i][j])); } if (!m) sym_reach("empty group"); }
    SF r = ami.cross(L, R);
    sym_check(r.size() == 1 && r[0].size() == w.size(), "the cross product has one entry per right entry"); if (r.size() != 1 || r[0].size() != w.size()) return;
    for (size_t i = 0; i < w.size(); i++) same(r[0][i], w[i], "left entries expand over their own right group in order");
  } else if (what == 2 || what == 5) {
    int n = len("n", 0, G), nl = G * M; for (int i = 0; i < nl; i++) { v.frequency_.push_back(cd(0, 0)); v.energy_.push_back(cd(symR(nm("x", i)), cplx ? symR(nm("xi", i)) : 0.0)); if (cplx) sym_nonzero(v.energy_[i].imag()); else sym_nonzero(v.energy_[i].real()); }
    SF K(1); for (int i = 0; i < n; i++) K[0].push_back(entry("k", 0, i));
    cd want(0, 0), got;
    if (what == 2) {
      AmiBase::Ri_t R; 
      for (int i = 0; i < n; i++) { int m = len(nm("m", i), 0, M); AmiBase::g_prod_t p; cd t(v.prefactor, 0); for (int j = 0; j < m; j++) { iv e(nl, 0); e[i * M + j] = 1; p.push_back(AmiBase::g_struct(e, iv(nl, 0))); t = orc::cmul(t, orc::cinv(v.energy_[i * M + j])); } R.push_back(p); want += orc::cmul(K[0][i], t); if (!m) sym_reach("empty group"); }
      got = ami.star(parms, K, R, v);
    } else {
      AmiBase::g_prod_t ug; AmiBase::R_ref_t rr; AmiBase::ref_eval_t ev;
      for (int i = 0; i < nl; i++) { iv e(nl, 0); e[i] = 1; ug.push_back(AmiBase::g_struct(e, iv(nl, 0))); }
      int groups = n ? len("groups", 0, 2) : 0;
      for (int i = 0; i < groups; i++) {
        int m = len(nm("m", i), 0, M), q = len(nm("q", i), 0, 2); AmiBase::ref_v_t a, b; cd t(v.prefactor, 0), ks(0, 0);
        for (int j = 0; j < m; j++) { int u = sym_split(symI(nm("u", i, j), 0, nl - 1)); a.push_back(std::make_pair(u, 1)); t = orc::cmul(t, orc::cinv(v.energy_[u])); }
        for (int j = 0; j < q; j++) { int k = sym_split(symI(nm("w", i, j), 0, n - 1)), s = symI(nm("sg", i, j), -1, 1); b.push_back(std::make_pair(k, s)); ks += double(s) * K[0][k]; }
        if (!m || !q) sym_reach("empty group");
        rr.push_back(a); ev.push_back(b); want += orc::cmul(ks, t);
      }
      got = ami.optimized_star(parms, K, ug, rr, ev, v);
    }
    same(got, want, "each factor multiplies the value of its own Green's-function product");
  } else if (what == 3) {
    int g = len("g", lo, G), ne = G * M, L = 2; for (int k = 0; k < L; k++) v.frequency_.push_back(cd(0, 0)); for (int k = 0; k < ne; k++) v.energy_.push_back(cd(symR(nm("e", k)), cplx ? symR(nm("ei", k)) : 0.0));
    AmiBase::Pi_t P; for (int i = 0; i < g; i++) { int m = len(nm("m", i), 0, M); P.push_back(AmiBase::pole_array_t()); for (int j = 0; j < m; j++) { P[i].push_back(pole(ne, i * M + j, L)); P[i][j].der_ = (i + j) % 2; } }
    SF r = ami.fermi(parms, P, v);
    sym_check((int)r.size() == g, "the statistical factors keep the number of groups"); if ((int)r.size() != g) return;
    for (int i = 0; i < g; i++) {
      sym_check(r[i].size() == P[i].size(), "the statistical factors keep the size of every group"); if (r[i].size() != P[i].size()) return;
      if (P[i].empty()) sym_reach("empty group");
      for (size_t j = 0; j < P[i].size(); j++) same(r[i][j], ami.fermi_bose((i + (int)j) % 2, 1.0, v.BETA_, v.energy_[i * M + j]), "every factor belongs to its own pole");
    }
  } else {
    // free tables: level l has one group per entry of level l-1; each entry has its own pole energy and sign
    int dim = sym_param("dim", 2); parms = mkParms(dim, AmiBase::Sigma);
    AmiBase::S_t S; AmiBase::P_t P; AmiBase::R_t R(dim + 1); std::vector<cd> cur(1, cd(1, 0)); int used = 0, cap = sym_param("cap", 12);
    int L = dim + 1; for (int k = 0; k < L; k++) v.frequency_.push_back(cd(0, 0)); for (int k = 0; k < cap; k++) v.energy_.push_back(cd(symR(nm("e", k)), 0));
    for (int l = 0; l < dim; l++) {
      AmiBase::Si_t Sl; AmiBase::Pi_t Pl; std::vector<cd> nx;
      for (size_t i = 0; i < cur.size(); i++) {
        int m = len(nm("m", l, (int)i), l ? 0 : 1, M); Sl.push_back(AmiBase::sign_t()); Pl.push_back(AmiBase::pole_array_t());
        for (int j = 0; j < m && used < cap; j++, used++) { double s = symR(nm("s", l, (int)nx.size())); Sl[i].push_back(s); Pl[i].push_back(pole(cap, used, L)); cd f = ami.fermi_bose(0, 1.0, v.BETA_, v.energy_[used]); nx.push_back(orc::cmul(cur[i], cd(s * f.real(), s * f.imag()))); }
        if (Sl[i].empty()) sym_reach("empty group");
      }
      S.push_back(Sl); P.push_back(Pl); cur = nx;
    }
    int F = (int)cur.size(); v.frequency_.assign(L + F, cd(0, 0)); cd want(0, 0); R[0].push_back(AmiBase::g_prod_t(1, AmiBase::g_struct(iv(cap, 0), iv(L + F, 0))));
    for (int l = 1; l < dim; l++) R[l].push_back(R[0][0]);
    for (int i = 0; i < F; i++) { double x = symR(nm("x", i)); sym_nonzero(x); v.frequency_[L + i] = cd(x, 0); iv a(L + F, 0); a[L + i] = 1; R[dim].push_back(AmiBase::g_prod_t(1, AmiBase::g_struct(iv(cap, 0), a))); want += cur[i] * (v.prefactor / x); }
    if (sym_param("otf", 0)) same(ami.evaluate_otf(parms, R, P, S, v), want, "the evaluation sums every chain of poles once"); else
    same(ami.evaluate(parms, R, P, S, v), want, "the evaluation sums every chain of poles once");
  }
}
