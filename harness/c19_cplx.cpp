// C19: complex energies and frequencies are handled exactly; conjugating the external frequencies conjugates the result.
#include "common.hpp"
static AmiBase* A;
static cd lin(const iv& a, const std::vector<cd>& x) { cd d(0, 0); for (size_t k = 0; k < x.size() && k < a.size(); k++) d += cd(a[k] * x[k].real(), a[k] * x[k].imag()); return d; }
static cd inv(cd d) { double n = d.real() * d.real() + d.imag() * d.imag(); sym_nonzero(n); return cd(d.real() / n, -d.imag() / n); }
static cd value(const orc::Sum& s, const std::vector<cd>& x, const std::vector<cd>& E, double beta, int uf, bool joint) {
  cd tot(0, 0);
  for (size_t t = 0; t < s.size(); t++) {
    cd v(s[t].c, 0);
    if (joint) { cd d(1, 0); for (size_t j = 0; j < s[t].g.size(); j++) d = orc::cmul(d, lin(s[t].g[j].a, x) + lin(s[t].g[j].e, E)); v = orc::cmul(v, inv(d)); }
    else for (size_t j = 0; j < s[t].g.size(); j++) v = orc::cmul(v, inv(lin(s[t].g[j].a, x) + lin(s[t].g[j].e, E)));
    for (size_t j = 0; j < s[t].f.size(); j++) {
      cd e = lin(s[t].f[j].e, E); cd w; if (s[t].f[j].odd) sym_nonzero(e.real() * e.real() + e.imag() * e.imag());
      if (uf) w = A->fermi_bose(s[t].f[j].der, s[t].f[j].odd ? -1.0 : 1.0, beta, e); else w = orc::statCplx(s[t].f[j].der, s[t].f[j].odd, beta, e);
      v = orc::cmul(v, w);
    }
    tot += v;
  }
  return tot;
}
static cd run(AmiBase& ami, const Case& c, AmiBase::ami_parms parms, AmiBase::ami_vars v, int form) {
  AmiBase::R_t R; AmiBase::P_t P; AmiBase::S_t S; AmiBase::terms T; AmiBase::g_prod_t ug; AmiBase::R_ref_t rr; AmiBase::ref_eval_t ev;
  if (form == 0 || form == 2 || form == 4) ami.construct(parms, c.R0, R, P, S); else ami.construct(parms, c.R0, T);
  if (form == 2) ami.factorize_Rn(R[c.nint], ug, rr, ev);
  if (form == 3) ami.factorize_terms(T, ug, rr, ev);
  if (form == 4) return ami.evaluate_otf(parms, R, P, S, v);
  if (form == 0) return ami.evaluate(parms, R, P, S, v); if (form == 1) return ami.evaluate(parms, T, v);
  if (form == 2) return ami.evaluate(parms, R, P, S, v, ug, rr, ev); return ami.evaluate(parms, T, v, ug, rr, ev);
}
extern "C" void harness() {
  int what = sym_param("what", 0), form = sym_param("form", 0), bos = sym_param("bos", 0), ce = sym_param("ce", 1), cf = sym_param("cf", 1), uf = sym_param("opaque", 1);
  AmiBase ami; ami.precision_cutoff = -1; A = &ami;
  if (what == 0) {      // building blocks on free coefficients
    int n = sym_param("n", 2), nf = sym_param("nf", 3), ne = sym_param("ne", 2), am = sym_param("am", 2);
    AmiBase::ami_vars v; for (int k = 0; k < nf; k++) v.frequency_.push_back(cd(symR(nm("w", k)), symR(nm("v", k)))); for (int k = 0; k < ne; k++) v.energy_.push_back(cd(symR(nm("e", k)), symR(nm("d", k)))); v.BETA_ = symP("beta"); v.prefactor = symR("pf");
    AmiBase::ami_parms parms = mkParms(1, AmiBase::Sigma); parms.E_REG_ = symR("reg"); cd want(v.prefactor, 0); AmiBase::g_prod_t g;
    for (int i = 0; i < n; i++) {
      iv a, q; for (int k = 0; k < nf; k++) a.push_back(symI(nm("a", i, k), -am, am)); for (int k = 0; k < ne; k++) q.push_back(symI(nm("q", i, k), -am, am));
      AmiBase::g_struct G(q, a); g.push_back(G); cd e = lin(q, v.energy_); want = orc::cmul(want, inv(lin(a, v.frequency_) + e));
      cd eg = ami.get_energy_from_g(G, v); sym_check_eq(eg.real(), e.real(), "energy of a line (real part)"); sym_check_eq(eg.imag(), e.imag(), "energy of a line (imaginary part)");
      AmiBase::pole_struct P(q, a); P.index_ = 0; P.der_ = 0; P.multiplicity_ = 1; P.which_g_.push_back(0);
      cd ep = ami.get_energy_from_pole(P, v); sym_check_eq(ep.real(), e.real(), "energy of a pole (real part)"); sym_check_eq(ep.imag(), e.imag(), "energy of a pole (imaginary part)");
    }
    cd r = ami.eval_gprod(parms, g, v); sym_observe("re", r.real()); sym_observe("im", r.imag());
    sym_check_eq(r.real(), want.real(), "a product of Green's functions is exact at complex arguments"); sym_check_eq(r.imag(), want.imag(), "a product of Green's functions is exact at complex arguments (imaginary part)");
    return;
  }
  Case c; int n = sym_param("n", 0);
  if (n == 0) c = topo(sym_param("topo", 0));
  else { c.nint = sym_param("nint", 1); c.nfreq = sym_param("nf", 2); c.neps = sym_param("ne", 1);
    for (int i = 0; i < n; i++) { iv al, e; for (int k = 0; k < c.nfreq; k++) { int q = symI(nm("a", i, k), -1, 1); al.push_back(sym_split(q)); } for (int k = 0; k < c.neps; k++) e.push_back(sym_split(symI(nm("q", i, k), -1, 1))); c.R0.push_back(AmiBase::g_struct(e, al)); } }
  orc::Sum o = oracle(c, bos);
  std::vector<cd> x, E; AmiBase::ami_vars v; double beta = symP("beta"), pf = symR("pf");
  for (int k = 0; k < c.nfreq; k++) x.push_back(k < c.nint ? cd(0, 0) : cd(symR(nm("w", k - c.nint)), cf ? symR(nm("v", k - c.nint)) : 0.0));
  for (int k = 0; k < c.neps; k++) E.push_back(cd(symR(nm("e", k)), ce ? symR(nm("d", k)) : 0.0));
  v.frequency_ = x; v.energy_ = E; v.BETA_ = beta; v.prefactor = pf;
  if (form == 4) for (size_t k = 0; k < E.size(); k++) {   // generic energies (coincidences: C12); one of the two components may still coincide
    sym_nonzero(std::norm(E[k])); for (size_t l = 0; l < k; l++) { sym_nonzero(std::norm(E[k] - E[l])); sym_nonzero(std::norm(E[k] + E[l]));
      for (size_t m = 0; m < l; m++) { sym_nonzero(std::norm(E[k] + E[l] - E[m])); sym_nonzero(std::norm(E[k] - E[l] + E[m])); sym_nonzero(std::norm(E[k] - E[l] - E[m])); sym_nonzero(std::norm(E[k] + E[l] + E[m])); } }
  }
  AmiBase::ami_parms parms = mkParms(c.nint, bos ? AmiBase::Pi_phuu : AmiBase::Sigma);
  if (what == 1) {
    cd w = value(o, x, E, beta, uf, form < 2); cd r = run(ami, c, parms, v, form); sym_observe("re", r.real()); sym_observe("im", r.imag());
    sym_check_eq(r.real(), pf * w.real(), "the result is exact at complex arguments"); sym_check_eq(r.imag(), pf * w.imag(), "the result is exact at complex arguments (imaginary part)");
  } else {
    value(o, x, E, beta, 1, form < 2);
    AmiBase::ami_vars u = v; for (int k = 0; k < c.nfreq; k++) u.frequency_[k] = cd(x[k].real(), -x[k].imag());
    cd r = run(ami, c, parms, v, form), q = run(ami, c, parms, u, form); sym_observe("re", q.real());
    sym_check_eq(q.real(), r.real(), "conjugate frequencies give the conjugate result"); sym_check_eq(q.imag(), -r.imag(), "conjugate frequencies give the conjugate result (imaginary part)");
  }
}
