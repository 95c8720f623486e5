// C01: construct (S/P/R) + evaluate equals the nested Matsubara sum, fixed topologies, all real parameters symbolic.
#include "common.hpp"
extern "C" void harness() {
  Case c = anyCase(); int bos = sym_param("bos", 0);
  Point pt = realPoint(c, true);
  AmiBase ami; ami.precision_cutoff = -1;
  AmiBase::ami_parms parms = mkParms(c.nint, bos ? AmiBase::Pi_phuu : AmiBase::Sigma);
  AmiBase::R_t R; AmiBase::P_t P; AmiBase::S_t S;
  orc::Sum o = oracle(c, bos);
  ami.construct(parms, c.R0, R, P, S);
  double want = orc::valueReal(o, pt.x, pt.E, pt.beta) * pt.pf;
  cd got = ami.evaluate(parms, R, P, S, pt.v);
  sym_observe("re", got.real()); sym_observe("want", want);
  sym_check_eq(got.real(), want, "array evaluation equals the nested Matsubara sum");
  sym_check_eq(got.imag(), 0.0, "array evaluation of a real point is real");
}
