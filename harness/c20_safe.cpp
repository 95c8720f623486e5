// C20: no invalid access, indeterminate read, bad division or exception through the whole pipeline.
// The engine's own memory and definedness checks are the assertions; lines have symbolic coefficients.
#include "common.hpp"
extern "C" void harness() {
  int n = sym_param("n", 2), nint = sym_param("nint", 1), nf = sym_param("nf", 2), ne = sym_param("ne", 1), em = sym_param("em", 1), what = sym_param("what", 0);
  AmiBase ami; ami.precision_cutoff = -1; ami.drop_matsubara_poles = sym_param("drop", 1);
  Case c; int tp = sym_param("topo", -1);
  if (tp >= 0) c = topo(tp);
  else { c.nint = nint; c.nfreq = nf; c.neps = ne;
    for (int i = 0; i < n; i++) { iv a, e; for (int k = 0; k < nf; k++) a.push_back(symI(nm("a", i, k), -1, 1)); for (int k = 0; k < ne; k++) e.push_back(symI(nm("q", i, k), -em, em)); c.R0.push_back(AmiBase::g_struct(e, a)); } }
  AmiBase::ami_parms parms = mkParms(c.nint, sym_param("bos", 0) ? AmiBase::Pi_phuu : AmiBase::Sigma);
  AmiBase::ami_vars v; v.BETA_ = symP("beta"); v.prefactor = symR("pf");
  for (int k = 0; k < c.nfreq; k++) v.frequency_.push_back(cd(k < c.nint ? 0.0 : symR(nm("w", k)), 0));
  for (int k = 0; k < c.neps; k++) v.energy_.push_back(cd(symR(nm("e", k)), 0));
  AmiBase::R_t R; AmiBase::P_t P; AmiBase::S_t S; AmiBase::terms T; AmiBase::g_prod_t ug; AmiBase::R_ref_t rr; AmiBase::ref_eval_t ev;
  if (what == 0 || what == 1 || what == 2 || what == 5) ami.construct(parms, c.R0, R, P, S); else ami.construct(parms, c.R0, T);
  cd r(0, 0); sym_reach("constructed");
  if (!sym_param("eval", 1)) { if (what == 1 || what == 5) ami.factorize_Rn(R.back(), ug, rr, ev); if (what == 4 || what == 6) ami.factorize_terms(T, ug, rr, ev); if (what == 5 || what == 6) ami.derivative_opt(ug, rr, ev); return; }
  if (what == 0) r = ami.evaluate(parms, R, P, S, v);
  if (what == 1) { ami.factorize_Rn(R.back(), ug, rr, ev); r = ami.evaluate(parms, R, P, S, v, ug, rr, ev); }
  if (what == 2) r = ami.evaluate_otf(parms, R, P, S, v);
  if (what == 3) r = ami.evaluate(parms, T, v);
  if (what == 4) { ami.factorize_terms(T, ug, rr, ev); r = ami.evaluate(parms, T, v, ug, rr, ev); }
  if (what == 5) { ami.factorize_Rn(R.back(), ug, rr, ev); ami.derivative_opt(ug, rr, ev); r = ami.evaluate(parms, R, P, S, v, ug, rr, ev); }
  if (what == 6) { ami.factorize_terms(T, ug, rr, ev); ami.derivative_opt(ug, rr, ev); r = ami.evaluate(parms, T, v, ug, rr, ev); }
  sym_reach("finished");
}
