// C05: every evaluator is linear in the overall prefactor.
#include "common.hpp"
static void pairCheck(cd a, cd b, double c, const char* w) { sym_check_eq(a.real(), c * b.real(), w); sym_check_eq(a.imag(), c * b.imag(), w); }
extern "C" void harness() {
  Case c = anyCase(); int what = sym_param("what", 0);
  Point pt = realPoint(c, true); double k = sym_param("zero", 0) ? 0.0 : symR("c");
  AmiBase::ami_vars v1 = pt.v, v2 = pt.v; v2.prefactor = k * pt.pf; 
  AmiBase::ami_vars v0 = pt.v; v0.prefactor = 1.0;
  AmiBase ami; ami.precision_cutoff = -1;
  AmiBase::ami_parms parms = mkParms(c.nint, AmiBase::Sigma);
  AmiBase::R_t R; AmiBase::P_t P; AmiBase::S_t S; AmiBase::terms T; AmiBase::g_prod_t ug; AmiBase::R_ref_t rr; AmiBase::ref_eval_t ev;
  { orc::Sum o = oracle(c, false); if (sym_param("n", 0)) orc::valueReal(o, pt.x, pt.E, pt.beta); }   // assumes away what is outside the claim
  if (what == 0 || what == 1 || what == 5) ami.construct(parms, c.R0, R, P, S); else ami.construct(parms, c.R0, T);
  if (what == 1) ami.factorize_Rn(R[c.nint], ug, rr, ev);
  if (what == 3) ami.factorize_terms(T, ug, rr, ev);
  if (what == 0) { cd b = ami.evaluate(parms, R, P, S, v1); sym_observe("b", b.real()); pairCheck(ami.evaluate(parms, R, P, S, v2), b, k, "array evaluation is linear in the prefactor"); pairCheck(b, ami.evaluate(parms, R, P, S, v0), pt.pf, "array evaluation is the prefactor times the value at prefactor one");
    if (c.nint == 0) { double w = v1.prefactor; for (size_t i = 0; i < c.R0.size(); i++) { double d = 0; for (int q = 0; q < c.nfreq; q++) d += c.R0[i].alpha_[q] * pt.x[q]; for (int q = 0; q < c.neps; q++) d += c.R0[i].eps_[q] * pt.E[q]; w *= 1.0 / d; } sym_check_eq(b.real(), w, "without integration the value is the prefactor times the product"); } }
  if (what == 1) { cd b = ami.evaluate(parms, R, P, S, v1, ug, rr, ev); pairCheck(ami.evaluate(parms, R, P, S, v2, ug, rr, ev), b, k, "factorized array evaluation is linear in the prefactor"); pairCheck(b, ami.evaluate(parms, R, P, S, v0, ug, rr, ev), pt.pf, "factorized array evaluation is the prefactor times the value at prefactor one"); }
  if (what == 2) { cd b = ami.evaluate(parms, T, v1); pairCheck(ami.evaluate(parms, T, v2), b, k, "term evaluation is linear in the prefactor"); pairCheck(b, ami.evaluate(parms, T, v0), pt.pf, "term evaluation is the prefactor times the value at prefactor one"); }
  if (what == 3) { cd b = ami.evaluate(parms, T, v1, ug, rr, ev); pairCheck(ami.evaluate(parms, T, v2, ug, rr, ev), b, k, "factorized term evaluation is linear in the prefactor"); pairCheck(b, ami.evaluate(parms, T, v0, ug, rr, ev), pt.pf, "factorized term evaluation is the prefactor times the value at prefactor one"); }
  if (what == 4) for (size_t i = 0; i < T.size() && i < 6; i++) { cd b = ami.evaluate_term(parms, T[i], v1); pairCheck(ami.evaluate_term(parms, T[i], v2), b, k, "single-term evaluation is linear in the prefactor"); pairCheck(b, ami.evaluate_term(parms, T[i], v0), pt.pf, "single-term evaluation is the prefactor times the value at prefactor one"); }
  if (what == 5) { cd b = ami.evaluate_otf(parms, R, P, S, v1); pairCheck(ami.evaluate_otf(parms, R, P, S, v2), b, k, "on-the-fly evaluation is linear in the prefactor"); pairCheck(b, ami.evaluate_otf(parms, R, P, S, v0), pt.pf, "on-the-fly evaluation is the prefactor times the value at prefactor one"); }
}
