// C02: construct (terms) + evaluate equals the nested Matsubara sum; every term contributes sign * prod G * prod f.
#include "common.hpp"
extern "C" void harness() {
  Case c = anyCase(); int bos = sym_param("bos", 0);
  Point pt = realPoint(c, true);
  AmiBase ami; ami.precision_cutoff = -1;
  AmiBase::ami_parms parms = mkParms(c.nint, bos ? AmiBase::Pi_phuu : AmiBase::Sigma);
  AmiBase::terms T;
  orc::Sum o = oracle(c, bos);
  if (sym_param("viaint", 0)) ami.construct(c.nint, c.R0, T); else ami.construct(parms, c.R0, T);
  double want = orc::valueReal(o, pt.x, pt.E, pt.beta) * pt.pf;
  cd got = ami.evaluate(parms, T, pt.v);
  sym_observe("re", got.real()); sym_observe("want", want);
  sym_check_eq(got.real(), want, "term evaluation equals the nested Matsubara sum");
  sym_check_eq(got.imag(), 0.0, "term evaluation of a real point is real");
  if (sym_param("spr", 0)) {
    AmiBase::R_t R; AmiBase::P_t P; AmiBase::S_t S; ami.construct(parms, c.R0, R, P, S);
    sym_check_eq(got.real(), ami.evaluate(parms, R, P, S, pt.v).real(), "term and array evaluation agree");
  }
}
