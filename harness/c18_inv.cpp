// C18: reordering the Green's functions, flipping one of them together with the prefactor, permuting the internal
// frequencies and relabelling the energies leave the result unchanged.
#include "common.hpp"
static double value(AmiBase& ami, const Case& c, AmiBase::ami_parms parms, AmiBase::ami_vars v, int what, double* im) {
  AmiBase::R_t R; AmiBase::P_t P; AmiBase::S_t S; AmiBase::terms T; AmiBase::g_prod_t ug; AmiBase::R_ref_t rr; AmiBase::ref_eval_t ev; cd r;
  if (what == 0 || what == 2) ami.construct(parms, c.R0, R, P, S); else ami.construct(parms, c.R0, T);
  if (what == 2) ami.factorize_Rn(R[c.nint], ug, rr, ev);
  if (what == 3) ami.factorize_terms(T, ug, rr, ev);
  if (what == 0) r = ami.evaluate(parms, R, P, S, v); if (what == 1) r = ami.evaluate(parms, T, v);
  if (what == 2) r = ami.evaluate(parms, R, P, S, v, ug, rr, ev); if (what == 3) r = ami.evaluate(parms, T, v, ug, rr, ev);
  *im = r.imag(); return r.real();
}
extern "C" void harness() {
  int what = sym_param("what", 0), kind = sym_param("kind", 0), a = sym_param("a", 0), b = sym_param("b", 1), bos = sym_param("bos", 0), n = sym_param("n", 0);
  Case c;
  if (n == 0) c = topo(sym_param("topo", 0));
  else { c.nint = 1; c.nfreq = sym_param("nf", 2); c.neps = sym_param("ne", 2);
    for (int i = 0; i < n; i++) { iv al, e; for (int k = 0; k < c.nfreq; k++) { int q = symI(nm("a", i, k), -1, 1); al.push_back(k < c.nint ? sym_split(q) : q); } for (int k = 0; k < c.neps; k++) e.push_back(symI(nm("q", i, k), -1, 1)); c.R0.push_back(AmiBase::g_struct(e, al)); } }
  Point pt = realPoint(c, true);
  { orc::Sum o = oracle(c, bos); orc::valueReal(o, pt.x, pt.E, pt.beta); }  // assumes away what is outside the claim
  AmiBase ami; ami.precision_cutoff = -1; double im0, im1;
  AmiBase::ami_parms parms = mkParms(c.nint, bos ? AmiBase::Pi_phuu : AmiBase::Sigma);
  Case d = c; AmiBase::ami_vars v = pt.v; int m = (int)c.R0.size();
  if (kind == 0) for (int i = 0; i < m; i++) d.R0[i] = c.R0[(i + a) % m];                       // rotate
  if (kind == 1) for (int i = 0; i < m; i++) d.R0[i] = c.R0[m - 1 - i];                         // reverse
  if (kind == 2) { a %= m; b %= m; d.R0[a] = c.R0[b]; d.R0[b] = c.R0[a]; }                      // swap two
  if (kind == 3) { a %= m; for (size_t k = 0; k < d.R0[a].alpha_.size(); k++) d.R0[a].alpha_[k] *= -1; for (size_t k = 0; k < d.R0[a].eps_.size(); k++) d.R0[a].eps_[k] *= -1; v.prefactor *= -1; }
  if (kind == 4) for (int i = 0; i < m; i++) std::swap(d.R0[i].alpha_[a], d.R0[i].alpha_[b]);   // another summation order
  if (kind == 5) { for (int i = 0; i < m; i++) std::swap(d.R0[i].eps_[a], d.R0[i].eps_[b]); std::swap(v.energy_[a], v.energy_[b]); }
  if (kind == 6) { for (int i = 0; i < m; i++) { iv e = d.R0[i].eps_; for (size_t k = 0; k < e.size(); k++) d.R0[i].eps_[k] = e[(k + 1) % e.size()]; } AmiBase::ami_vars u = v; for (int k = 0; k < c.neps; k++) v.energy_[k] = u.energy_[(k + 1) % c.neps]; }
  if (kind == 7) for (int i = 0; i < m; i++) for (int k = 0; k < c.nint; k++) d.R0[i].alpha_[k] = c.R0[i].alpha_[(k + 1) % c.nint];   // cyclic summation order
  if (kind == 4 || kind == 7) oracle(d, bos);
  double x = value(ami, c, parms, pt.v, what, &im0), y = value(ami, d, parms, v, what, &im1);
  sym_observe("x", x); sym_observe("y", y);
  sym_check_eq(y, x, kind <= 2 ? "the order of the Green's functions does not matter" : kind == 3 ? "flipping a Green's function together with the prefactor does not matter" : kind == 4 || kind == 7 ? "the order of the summations does not matter" : "the labels of the energies do not matter");
  sym_check_eq(im0, 0.0, "real at a real point"); sym_check_eq(im1, 0.0, "real at a real point (transformed)");
}
