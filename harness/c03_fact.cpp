// C03: evaluation through the factorized form of the final products equals the plain array evaluation.
#include "common.hpp"
extern "C" void harness() {
  Case c = anyCase(); int bos = sym_param("bos", 0);
  Point pt = realPoint(c, sym_param("pf", 1));
  AmiBase ami; ami.precision_cutoff = -1;
  AmiBase::ami_parms parms = mkParms(c.nint, bos ? AmiBase::Pi_phuu : AmiBase::Sigma);
  AmiBase::R_t R; AmiBase::P_t P; AmiBase::S_t S;
  { orc::Sum o = oracle(c, bos); if (sym_param("n", 0)) orc::valueReal(o, pt.x, pt.E, pt.beta); }   // assumes away what is outside the claim
  ami.construct(parms, c.R0, R, P, S);
  cd plain = ami.evaluate(parms, R, P, S, pt.v);
  AmiBase::g_prod_t ug; AmiBase::R_ref_t rr; AmiBase::ref_eval_t ev;
  cd none = ami.evaluate(parms, R, P, S, pt.v, ug, rr, ev);
  sym_check_eq(none.real(), plain.real(), "empty factorized tables fall back to the plain evaluation");
  ami.factorize_Rn(R[c.nint], ug, rr, ev);
  cd got = ami.evaluate(parms, R, P, S, pt.v, ug, rr, ev);
  sym_observe("re", got.real()); sym_observe("unique", ug.size()); sym_observe("prods", rr.size());
  sym_check_eq(got.real(), plain.real(), "factorized array evaluation equals the plain evaluation");
  sym_check_eq(got.imag(), plain.imag(), "factorized array evaluation equals the plain evaluation (imaginary part)");
}
