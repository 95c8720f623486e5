// C16: every contribution beyond the precision cutoff raises the overflow flag, for every evaluator and every flag history.
// The tables are free (symbolic signs, factors and Green's-function values); the Fermi/Bose function is uninterpreted.
#include "common.hpp"
static double ab(double v) { return v < 0 ? -v : v; }
extern "C" void harness() {
  int what = sym_param("what", 0), n = sym_param("n", 2), cplx = sym_param("cplx", 0), ng = sym_param("ng", 1);
  AmiBase ami; double cut = symP("cut"); ami.precision_cutoff = cut;
  int nint = what == 5 || what == 6 ? 0 : sym_param("nint", 1);
  AmiBase::ami_parms parms = mkParms(nint, AmiBase::Sigma);
  AmiBase::ami_vars v; v.BETA_ = symP("beta"); v.prefactor = symR("pf");
  int nl = n * ng; std::vector<cd> g; std::vector<double> f(n);
  for (int i = 0; i < nl; i++) { cd x(symR(nm("x", i)), cplx ? symR(nm("xi", i)) : 0.0); if (cplx) sym_nonzero(x.imag()); else sym_nonzero(x.real()); v.frequency_.push_back(x); g.push_back(cplx ? orc::cinvG(x) : cd(1.0 / x.real(), 0)); }
  for (int i = 0; i < n; i++) v.energy_.push_back(cd(symR(nm("e", i)), 0));
  AmiBase::R_t R(nint + 1); AmiBase::P_t P(nint); AmiBase::S_t S(nint); AmiBase::terms T; std::vector<cd> con;
  AmiBase::g_prod_t ug; AmiBase::R_ref_t rr; AmiBase::ref_eval_t ev;
  std::vector<AmiBase::g_prod_t> prods; AmiBase::pole_array_t poles; AmiBase::sign_t signs;
  for (int i = 0; i < n; i++) {
    AmiBase::g_prod_t p; cd w(v.prefactor, 0);
    for (int j = 0; j < ng; j++) { iv a(nl, 0); a[i * ng + j] = 1; p.push_back(AmiBase::g_struct(iv(n, 0), a)); w = orc::cmul(w, g[i * ng + j]); }
    AmiBase::pole_struct q; q.alpha_ = iv(nl, 0); q.eps_ = iv(n, 0); q.eps_[i] = 1; q.index_ = 0; q.der_ = 0; q.multiplicity_ = 1; q.which_g_.push_back(0);
    double s = symR(nm("s", i)); f[i] = s * ami.fermi_bose(0, 1.0, v.BETA_, v.energy_[i]).real();
    prods.push_back(p); poles.push_back(q); signs.push_back(s); con.push_back(cd(f[i] * w.real(), f[i] * w.imag()));
    AmiBase::term t; t.sign = s; t.p_list.push_back(q); t.g_list = p; T.push_back(t);
  }
  if (what <= 1 || what == 7) { R[0].push_back(prods[0]); P[0].push_back(poles); S[0].push_back(signs); R[1] = prods; }
  if (what == 5 || what == 6) { R[0].push_back(prods[0]); con.clear(); cd w(v.prefactor, 0); for (int j = 0; j < ng; j++) w = orc::cmul(w, g[j]); con.push_back(w); }
  if (what == 1 || what == 3 || what == 6) { // factorized by hand: every product its own, or (shared) one product for all
    bool shared = sym_param("shared", 0);
    for (int i = 0; i < (shared ? 1 : n); i++) { AmiBase::ref_v_t r; for (int j = 0; j < ng; j++) { ug.push_back(prods[i][j]); r.push_back(std::make_pair((int)ug.size() - 1, 1)); } rr.push_back(r); AmiBase::ref_v_t e; for (int k = 0; k < (shared ? n : 1); k++) e.push_back(std::make_pair(shared ? k : i, 1)); ev.push_back(e); }
    if (shared && what != 6) { double k = 0; for (int i = 0; i < n; i++) k += f[i]; cd w(v.prefactor, 0); for (int j = 0; j < ng; j++) w = orc::cmul(w, g[j]); con.clear(); con.push_back(cd(k * w.real(), k * w.imag())); }
  }
  bool pre = what != 4 && symI("flag", 0, 1); ami.overflow_detected = pre;
  AmiBase fresh; fresh.precision_cutoff = cut;
  cd r;
  for (int k = 0; k < 2; k++) {
    AmiBase& A = k ? fresh : ami;
    switch (what) {
      case 0: case 5: r = A.evaluate(parms, R, P, S, v); break;
      case 1: case 6: r = A.evaluate(parms, R, P, S, v, ug, rr, ev); break;
      case 2: r = A.evaluate(parms, T, v); break;
      case 3: r = A.evaluate(parms, T, v, ug, rr, ev); break;
      case 7: r = A.evaluate_otf(parms, R, P, S, v); break;
      case 4: r = A.evaluate_term(parms, T[0], v); break;
      default: return;
    }
    if (what == 4) break;
  }
  if (what != 4) sym_check(ami.overflow_detected == fresh.overflow_detected, "a flag from an earlier evaluation does not survive");
  if (ami.overflow_detected) sym_reach("flag set"); else sym_reach("flag clear");
  if (!ami.overflow_detected) {
    if (what == 4) con.resize(1);
    for (size_t i = 0; i < con.size(); i++) {
      sym_check(!(con[i].real() > cut) && !(con[i].real() < -cut), "a contribution beyond the cutoff raises the flag");
      sym_check(!(con[i].imag() > cut) && !(con[i].imag() < -cut), "a contribution whose imaginary part is beyond the cutoff raises the flag");
    }
  }
}
