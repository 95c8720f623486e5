// C23: the statistical functions stay finite and saturate, with the non-finite values of double arithmetic (--ieee).
#include "common.hpp"
static bool fin(double x) { return x - x == 0; }
// a whole diagram with one summation: however large the energies are, its value stays finite
static void diagram() {
  Case c = topo(sym_param("topo", 0)); int terms = sym_param("terms", 0); AmiBase ami; AmiBase::ami_vars v; double beta = symP("beta"); sym_assume(beta <= 1e15);
  for (int k = 0; k < c.neps; k++) { double e = symR(nm("e", k)); sym_assume(e <= 1e100); sym_assume(e >= -1e100); v.energy_.push_back(cd(e, 0)); }
  double nu = symP("nu"); sym_assume(nu >= 1e-3); sym_assume(nu <= 1e100);
  for (int k = 0; k < c.nfreq; k++) v.frequency_.push_back(cd(0, k < c.nint ? 0.0 : nu));
  v.BETA_ = beta; v.prefactor = 1; AmiBase::ami_parms parms = mkParms(c.nint, AmiBase::Sigma); cd g;
  if (terms) { AmiBase::terms T; ami.construct(c.nint, c.R0, T); g = ami.evaluate(parms, T, v); }
  else { AmiBase::R_t R; AmiBase::P_t P; AmiBase::S_t S; ami.construct(parms, c.R0, R, P, S); g = ami.evaluate(parms, R, P, S, v); }
  sym_observe("re", g.real());
  sym_check(fin(g.real()) && fin(g.imag()), "the value of a diagram is finite at large energies");
}
extern "C" void harness() {
  if (sym_param("what", 0) == 2) { diagram(); return; }
  int m = sym_param("m", 0), bose = sym_param("bose", 0), what = sym_param("what", 0);
  double E = symR("E"), beta = symP("beta"); sym_assume(E <= 1e308); sym_assume(E >= -1e308);
  if (m) sym_assume(beta <= 1e15); else sym_assume(beta <= 1e308);
  double x = beta * E;
  if (bose) { double y = std::exp(x); sym_assume(y - 1 >= 1e-12 || 1 - y >= 1e-12); }
  AmiBase ami; cd g;
  if (what == 0) g = ami.fermi_bose(m, bose ? -1.0 : 1.0, beta, cd(E, 0));
  else {      // through the pole interface: the pole carries the energy, one fermionic frequency decides the statistics
    AmiBase::ami_parms par(0, 0); AmiBase::pole_struct p; p.eps_ = {1, 0}; p.alpha_ = bose ? AmiBase::alpha_t{1, 0} : AmiBase::alpha_t{0, 0}; p.index_ = 0; p.der_ = m; p.which_g_ = {0};
    AmiBase::energy_t en = {cd(E, 0), cd(0, 0)}; AmiBase::frequency_t fr = {cd(0, 0), cd(0, 0)}; AmiBase::ami_vars ext(en, fr, beta);
    ami.drop_bosonic_diverge = false; g = ami.fermi_pole(par, p, ext);
  }
  sym_observe("re", g.real());
  sym_check(fin(g.real()), "the statistical function is finite");
  sym_check(fin(g.imag()), "the statistical function is finite (imaginary part)");
  if (!fin(g.real())) return;
  if (m == 0 && !bose) sym_check(g.real() >= 0 && g.real() <= 1, "the Fermi function lies between zero and one");
  if (x > 800) { sym_reach("saturated high"); sym_check(g.real() == 0, "the function tends to zero at large positive energies"); }
  else if (x < -800) { sym_reach("saturated low"); sym_check(g.real() == (m ? 0.0 : 1.0), "the function tends to one, its derivatives to zero, at large negative energies"); }
}
