// C25: summing step by step, in any order of the frequency indices, gives the same result as the one-call construction;
// a construction can be stopped after fewer summations and continued.
#include "common.hpp"
static void order(int k, int n, iv& p) { std::vector<char> used(n, 0); int f = 1; for (int i = 2; i < n; i++) f *= i; for (int i = n - 1; i >= 0; i--) { int q = k / f; k %= f; if (i) f /= i; for (int j = 0; j < n; j++) if (!used[j] && q-- == 0) { used[j] = 1; p.push_back(j); break; } } }
extern "C" void harness() {
  Case c = anyCase(); int bos = sym_param("bos", 0), form = sym_param("form", 0), perm = sym_param("perm", 0), steps = sym_param("steps", -1), what = sym_param("what", 0);
  AmiBase ami; ami.precision_cutoff = -1;
  if (what == 1) {   // stop and continue
    AmiBase::ami_parms all = mkParms(c.nint, AmiBase::Sigma), few = mkParms(steps, AmiBase::Sigma); oracle(c, bos);
    if (form == 0) {
      AmiBase::R_t R, R1; AmiBase::P_t P, P1; AmiBase::S_t S, S1; ami.construct(all, c.R0, R, P, S); ami.construct(few, c.R0, R1, P1, S1);
      sym_check((int)R1.size() == steps + 1 && (int)P1.size() == steps && (int)S1.size() == steps, "a construction with fewer summations stops there");
      for (int k = steps; k < c.nint; k++) ami.update_gprod_general(k, k, R1, P1, S1);
      sym_check(deep::eq(R, R1) & deep::eq(P, P1) & deep::eq(S, S1), "a stopped construction continues to the same arrays");
    } else {
      AmiBase::terms T, U, N; ami.construct(all, c.R0, T); ami.construct(few, c.R0, U);
      for (int k = steps; k < c.nint; k++) { ami.integrate_step(k, U, N); U = N; }
      sym_check(deep::eq(T, U), "a stopped construction continues to the same terms");
      sym_observe("terms", T.size());
    }
    return;
  }
  if (steps >= 0) c.nint = steps;
  iv p; order(perm, c.nint, p);
  Point pt = realPoint(c, true);
  AmiBase::ami_parms parms = mkParms(c.nint, bos ? AmiBase::Pi_phuu : AmiBase::Sigma);
  orc::Sum o = oracle(c, bos);
  double other; { orc::Sum s = orc::fromProd(c.R0), q; bool contour = false; for (int k = 0; k < c.nint; k++) { orc::sumOne(s, p[k], bos, q, contour); s = q; sym_assume(!contour); } other = orc::valueReal(s, pt.x, pt.E, pt.beta) * pt.pf; }
  double want = orc::valueReal(o, pt.x, pt.E, pt.beta) * pt.pf; cd got, fac;
  if (sym_param("n", 0)) want = other;   // sums that converge only conditionally depend on the order: the reference is the nested sum in the same order

  AmiBase::g_prod_t ug; AmiBase::R_ref_t rr; AmiBase::ref_eval_t ev;
  if (form == 0) {
    AmiBase::R_t R; AmiBase::P_t P; AmiBase::S_t S; R.push_back(AmiBase::Ri_t(1, c.R0));
    for (int k = 0; k < c.nint; k++) ami.update_gprod_general(p[k], k, R, P, S);
    sym_check((int)R.size() == c.nint + 1 && (int)P.size() == c.nint && (int)S.size() == c.nint, "each step appends one layer"); if ((int)R.size() != c.nint + 1 || (int)P.size() != c.nint || (int)S.size() != c.nint) return;
    sym_check(R[0].size() == 1 && deep::eq(R[0][0], c.R0), "a step leaves the earlier layers as they were");
    got = ami.evaluate(parms, R, P, S, pt.v); ami.factorize_Rn(R[c.nint], ug, rr, ev); fac = ami.evaluate(parms, R, P, S, pt.v, ug, rr, ev);
  } else {
    AmiBase::terms T(1, AmiBase::term(1.0, AmiBase::pole_array_t(), c.R0)), N;
    for (int k = 0; k < c.nint; k++) { ami.integrate_step(p[k], T, N); T = N; }
    got = ami.evaluate(parms, T, pt.v); ami.factorize_terms(T, ug, rr, ev); fac = ami.evaluate(parms, T, pt.v, ug, rr, ev);
  }
  sym_observe("re", got.real()); sym_observe("want", want);
  sym_check_eq(got.real(), want, "summing step by step in another order gives the nested Matsubara sum");
  sym_check_eq(got.imag(), 0.0, "real at a real point");
  sym_check_eq(fac.real(), want, "its factorized form gives the nested Matsubara sum");
}
