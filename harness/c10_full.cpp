// C10: without regulator and switches nothing is dropped, through every evaluator, and switches off means no effect;
// with drop_der the result is the sum without the contributions that carry a derivative.
#include "common.hpp"
extern "C" void harness() {
  Case c = topo(sym_param("topo", 2)); Point pt = realPoint(c, true);
  double reg = symR("reg"); int dd = sym_param("dd", 0);
  orc::Sum o = oracle(c, false); double want = 0;
  for (size_t t = 0; t < o.size(); t++) {
    double v = o[t].c * pt.pf; bool dropped = false;
    for (size_t j = 0; j < o[t].g.size(); j++) { double d = 0; for (size_t q = 0; q < pt.x.size(); q++) if (o[t].g[j].a[q]) d += o[t].g[j].a[q] * pt.x[q]; for (size_t q = 0; q < pt.E.size(); q++) if (o[t].g[j].e[q]) d += o[t].g[j].e[q] * pt.E[q]; sym_nonzero(d); v *= 1.0 / d; }
    for (size_t j = 0; j < o[t].f.size(); j++) {
      double e = 0; for (size_t q = 0; q < pt.E.size(); q++) if (o[t].f[j].e[q]) e += o[t].f[j].e[q] * pt.E[q];
      sym_nonzero(e); double r = sym_split_bool(e > 0) ? e + reg : e - reg; if (o[t].f[j].odd) sym_nonzero(r);
      if (o[t].f[j].der && dd) dropped = true; v *= orc::statReal(o[t].f[j].der, o[t].f[j].odd, pt.beta, r);
    }
    if (!dropped) want += v;
  }
  AmiBase ami; ami.precision_cutoff = -1; ami.drop_der = dd;
  AmiBase::ami_parms parms = mkParms(c.nint, AmiBase::Sigma); parms.E_REG_ = reg;
  AmiBase::R_t R; AmiBase::P_t P; AmiBase::S_t S; AmiBase::terms T; ami.construct(parms, c.R0, R, P, S); ami.construct(parms, c.R0, T);
  cd a = ami.evaluate(parms, R, P, S, pt.v), b = ami.evaluate(parms, T, pt.v);
  sym_check_eq(a.real(), want, "array evaluation regulates every statistical factor and drops only derivatives"); sym_check_eq(b.real(), want, "term evaluation regulates every statistical factor and drops only derivatives");
  AmiBase::g_prod_t ug; AmiBase::R_ref_t rr; AmiBase::ref_eval_t ev; ami.factorize_Rn(R[c.nint], ug, rr, ev);
  cd d = ami.evaluate(parms, R, P, S, pt.v, ug, rr, ev); sym_check_eq(d.real(), want, "factorized evaluation regulates every statistical factor and drops only derivatives");
  ami.factorize_terms(T, ug, rr, ev); cd f = ami.evaluate(parms, T, pt.v, ug, rr, ev); sym_check_eq(f.real(), want, "factorized term evaluation regulates every statistical factor and drops only derivatives");
}
