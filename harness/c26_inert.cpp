// C26: diagnostic and reserved settings (verbose output, interaction and dispersion labels, declared type of the external
// frequency, number of externals, spectral width, species labels) do not change any result.
#include "common.hpp"
struct Res { AmiBase::R_t R; AmiBase::P_t P; AmiBase::S_t S; AmiBase::terms T; AmiBase::g_prod_t ug; AmiBase::R_ref_t rr; AmiBase::ref_eval_t ev; cd v, w, u; bool fv, fw, fu; };
static void run(AmiBase& A, const Case& c, AmiBase::ami_parms parms, AmiBase::ami_vars v, int form, Res& r) {
  if (form == 0) { A.construct(parms, c.R0, r.R, r.P, r.S); A.factorize_Rn(r.R[c.nint], r.ug, r.rr, r.ev); r.v = A.evaluate(parms, r.R, r.P, r.S, v); r.fv = A.overflow_detected; r.w = A.evaluate(parms, r.R, r.P, r.S, v, r.ug, r.rr, r.ev); r.fw = A.overflow_detected; }
  if (form == 1) { A.construct(parms, c.R0, r.T); A.factorize_terms(r.T, r.ug, r.rr, r.ev); r.v = A.evaluate(parms, r.T, v); r.fv = A.overflow_detected; r.w = A.evaluate(parms, r.T, v, r.ug, r.rr, r.ev); r.fw = A.overflow_detected; }
  if (form == 2) { A.construct(parms, c.R0, r.R, r.P, r.S); r.w = r.v = A.evaluate_otf(parms, r.R, r.P, r.S, v); r.fw = r.fv = A.overflow_detected; }
}
static bool noSp(AmiBase::g_prod_t a, AmiBase::g_prod_t b) { for (size_t i = 0; i < a.size(); i++) a[i].species_ = 0; for (size_t i = 0; i < b.size(); i++) b[i].species_ = 0; return deep::eq(a, b); }
extern "C" void harness() {
  Case c = anyCase(); int bos = sym_param("bos", 0), form = sym_param("form", 0), verb = sym_param("verbose", 1), sp = sym_param("species", 1), flag = sym_param("flag", 0);
  Point pt = realPoint(c, true); { orc::Sum o = oracle(c, bos); orc::valueReal(o, pt.x, pt.E, pt.beta); }   // no line is singular
  AmiBase A, B; if (flag) { double q = symR("cut"); A.precision_cutoff = B.precision_cutoff = q; } else A.precision_cutoff = B.precision_cutoff = -1;
  AmiBase::ami_parms p = mkParms(c.nint, bos ? AmiBase::Pi_phuu : AmiBase::Sigma), q = p; p.E_REG_ = q.E_REG_ = sym_param("reg", 0) ? symR("reg") : 0.0;
  if (sym_param("types", 0)) p.TYPE_ = q.TYPE_ = (AmiBase::graph_type)symI("type", 0, 12);
  if (sym_param("drops", 0)) { A.drop_der = B.drop_der = sym_split_bool(symI("dd", 0, 1)); A.drop_bosonic_diverge = B.drop_bosonic_diverge = sym_split_bool(symI("db", 0, 1)); A.drop_matsubara_poles = B.drop_matsubara_poles = sym_split_bool(symI("dm", 0, 1)); A.bosonic_external = B.bosonic_external = sym_split_bool(symI("be", 0, 1)); }
  B.verbose = verb; B.zero_external_w = symI("zw", 0, 1); B.ext_freq_type = (AmiBase::ext_type)symI("ext", 0, 1);
  q.N_EXT_ = symI("next", 0, 1000); q.int_type_ = (AmiBase::int_type)symI("int", 0, 1); q.dispersion_ = (AmiBase::disp_type)symI("disp", 0, 2);
  AmiBase::ami_vars v = pt.v; v.gamma_ = symR("gamma");
  Case d = c; if (sp) for (size_t i = 0; i < d.R0.size(); i++) d.R0[i].species_ = symI(nm("s", i), -1000, 1000);
  Res a, b; run(A, c, p, pt.v, form, a); run(B, d, q, v, form, b);
  sym_observe("re", a.v.real());
  sym_check_eq(b.v.real(), a.v.real(), "reserved settings do not change the value"); sym_check_eq(b.v.imag(), a.v.imag(), "reserved settings do not change the value (imaginary part)");
  sym_check_eq(b.w.real(), a.w.real(), "reserved settings do not change the factorized value"); sym_check_eq(b.w.imag(), a.w.imag(), "reserved settings do not change the factorized value (imaginary part)");
  sym_check((a.fv == b.fv) & (sp | (a.fw == b.fw)), "reserved settings do not change the overflow flag");
  sym_check(deep::eq(a.P, b.P) & deep::eq(a.S, b.S) & (a.R.size() == b.R.size()) & (a.T.size() == b.T.size()), "reserved settings do not change the tables");
  for (size_t i = 0; i < a.R.size() && i < b.R.size(); i++) { sym_check(a.R[i].size() == b.R[i].size(), "reserved settings do not change the tables"); for (size_t j = 0; j < a.R[i].size() && j < b.R[i].size(); j++) sym_check(noSp(a.R[i][j], b.R[i][j]), "reserved settings do not change the tables"); }
  for (size_t i = 0; i < a.T.size() && i < b.T.size(); i++) sym_check((a.T[i].sign == b.T[i].sign) & deep::eq(a.T[i].p_list, b.T[i].p_list) & noSp(a.T[i].g_list, b.T[i].g_list), "reserved settings do not change the tables");
  if (!sp) sym_check(deep::eq(a.ug, b.ug) & deep::eq(a.rr, b.rr) & deep::eq(a.ev, b.ev), "reserved settings do not change the factorized tables");
}
