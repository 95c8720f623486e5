// C11: results do not depend on what the object and the output containers were used for before, and inputs stay as
// they were.  A fresh object with fresh containers is the reference.
#include "common.hpp"
static iv symV(const std::string& n, int len, int lo, int hi) { iv r; for (int i = 0; i < len; i++) r.push_back(symI(nm1(n.c_str(), i), lo, hi)); return r; }
static AmiBase::g_struct junkG(int i) { AmiBase::g_struct g(symV(nm("je", i), 2, -1, 1), symV(nm("ja", i), 2, -1, 1)); g.species_ = symI(nm("js", i), 0, 1); return g; }
static AmiBase::pole_struct junkP(int i) { AmiBase::pole_struct p; p.eps_ = symV(nm("ke", i), 2, -1, 1); p.alpha_ = symV(nm("ka", i), 2, -1, 1); p.index_ = 0; p.which_g_.push_back(0); return p; }
struct Out { AmiBase::R_t R; AmiBase::P_t P; AmiBase::S_t S; AmiBase::terms T; AmiBase::g_prod_t ug; AmiBase::R_ref_t rr; AmiBase::ref_eval_t ev; };
static void junk(Out& o) {
  AmiBase::g_prod_t p; p.push_back(junkG(0)); p.push_back(junkG(1)); AmiBase::Ri_t r; r.push_back(p); r.push_back(p); o.R.push_back(r); o.R.push_back(r); o.R.push_back(r);
  AmiBase::pole_array_t a; a.push_back(junkP(0)); AmiBase::Pi_t pi; pi.push_back(a); o.P.push_back(pi); o.P.push_back(pi); o.P.push_back(pi);
  AmiBase::sign_t s; s.push_back(symR("jsg")); AmiBase::Si_t si; si.push_back(s); o.S.push_back(si); o.S.push_back(si);
  AmiBase::term t; t.sign = symR("jts"); t.p_list = a; t.g_list = p; o.T.push_back(t); o.T.push_back(t);
  o.ug = p; AmiBase::ref_v_t v; v.push_back(std::make_pair(symI("jx", 0, 1), 1)); o.rr.push_back(v); o.rr.push_back(v); o.ev.push_back(v); o.ev.push_back(v);
}
static bool same(const Out& a, const Out& b) { return deep::eq(a.R, b.R) & deep::eq(a.P, b.P) & deep::eq(a.S, b.S) & deep::eq(a.T, b.T); }
static bool sameF(const Out& a, const Out& b) { return deep::eq(a.ug, b.ug) & deep::eq(a.rr, b.rr) & deep::eq(a.ev, b.ev); }
static void build(AmiBase& A, const AmiBase::ami_parms& parms0, const Case& c, Out& o, int what, bool viaint) {
  AmiBase::ami_parms parms = parms0; AmiBase::g_prod_t R0 = c.R0;
  if (what == 0) A.construct(parms, R0, o.R, o.P, o.S); else if (viaint) A.construct(c.nint, R0, o.T); else A.construct(parms, R0, o.T);
  sym_check(deep::eq(parms, parms0), "construction leaves the parameters as they were");
  sym_check(deep::eq(R0, c.R0), "construction leaves the integrand as it was");
  Out k; k.R = o.R; k.T = o.T;
  if (what == 0) A.factorize_Rn(o.R.back(), o.ug, o.rr, o.ev); else A.factorize_terms(o.T, o.ug, o.rr, o.ev);
  sym_check(deep::eq(k.R, o.R) & deep::eq(k.T, o.T), "factorization leaves the constructed tables as they were");
}
static void checkEval(AmiBase& F, AmiBase& D, const AmiBase::ami_parms& parms0, Out& f, Out& d, AmiBase::ami_vars& v, int what, bool otf) {
  AmiBase::ami_parms parms = parms0; AmiBase::ami_vars v1 = v; Out k = d; cd a, b;
  for (int e = 0; e < (what == 0 && otf ? 3 : 2); e++) {
    if (what == 0 && e == 0) { a = F.evaluate(parms, f.R, f.P, f.S, v1); b = D.evaluate(parms, d.R, d.P, d.S, v1); }
    if (what == 0 && e == 1) { a = F.evaluate(parms, f.R, f.P, f.S, v1, f.ug, f.rr, f.ev); b = D.evaluate(parms, d.R, d.P, d.S, v1, d.ug, d.rr, d.ev); }
    if (what == 0 && e == 2) { a = F.evaluate_otf(parms, f.R, f.P, f.S, v1); b = D.evaluate_otf(parms, d.R, d.P, d.S, v1); }
    if (what == 1 && e == 0) { a = F.evaluate(parms, f.T, v1); b = D.evaluate(parms, d.T, v1); }
    if (what == 1 && e == 1) { a = F.evaluate(parms, f.T, v1, f.ug, f.rr, f.ev); b = D.evaluate(parms, d.T, v1, d.ug, d.rr, d.ev); }
    if (e == 0) sym_observe("re", a.real());
    sym_check_eq(a.real(), b.real(), "the value does not depend on earlier uses");
    sym_check_eq(a.imag(), b.imag(), "the value does not depend on earlier uses (imaginary part)");
    sym_check(F.overflow_detected == D.overflow_detected, "the overflow flag does not depend on earlier uses");
    sym_check(deep::eq(v1, v), "evaluation leaves the external variables as they were");
    sym_check(deep::eq(parms, parms0), "evaluation leaves the parameters as they were");
    sym_check(same(k, d) & sameF(k, d), "evaluation leaves the constructed tables as they were");
  }
}
extern "C" void harness() {
  int what = sym_param("what", 0), n = sym_param("n", 0), tA = sym_param("topo", 1), tB = sym_param("before", 4), viaint = sym_param("viaint", 0), ev = sym_param("eval", 1);
  Case c; 
  if (n == 0) c = topo(tA);
  else { c.nint = sym_param("nint", 1); c.nfreq = sym_param("nf", 2); c.neps = sym_param("ne", 1);
    for (int i = 0; i < n; i++) { iv a = symV(nm("a", i), c.nfreq, -1, 1), e = symV(nm("q", i), c.neps, -1, 1); c.R0.push_back(AmiBase::g_struct(e, a)); c.R0.back().species_ = i; }
    if (sym_param("orc", 1)) oracle(c, false); }
  AmiBase::ami_parms parms = mkParms(c.nint, AmiBase::Sigma);
  AmiBase F, D; F.precision_cutoff = -1; D.precision_cutoff = -1;
  Out f, d; junk(d);
  D.overflow_detected = symI("flag", 0, 1);
  if (tB >= 0) {   // a different problem through the same object and containers
    Case b = topo(tB); AmiBase::ami_parms pb = mkParms(b.nint, AmiBase::Pi_phuu); build(D, pb, b, d, what, viaint);
    AmiBase::ami_vars vb; vb.BETA_ = symP("betab"); vb.prefactor = symR("pfb"); for (int k = 0; k < b.nfreq; k++) vb.frequency_.push_back(cd(k < b.nint ? 0.0 : symR(nm("wb", k)), 0)); for (int k = 0; k < b.neps; k++) vb.energy_.push_back(cd(symR(nm("eb", k)), 0));
    if (ev) { if (what == 0) D.evaluate(pb, d.R, d.P, d.S, vb); else D.evaluate(pb, d.T, vb); }
  }
  build(F, parms, c, f, what, viaint); build(D, parms, c, d, what, viaint);
  sym_check((what == 0 ? deep::eq(f.R, d.R) & deep::eq(f.P, d.P) & deep::eq(f.S, d.S) : deep::eq(f.T, d.T)), "construction does not depend on earlier uses");
  sym_check(sameF(f, d), "factorization does not depend on earlier uses");
  if (!ev) return;
  AmiBase::ami_vars v; v.BETA_ = symP("beta"); v.prefactor = symR("pf");
  for (int k = 0; k < c.nfreq; k++) v.frequency_.push_back(cd(k < c.nint ? 0.0 : symR(nm("w", k)), 0));
  for (int k = 0; k < c.neps; k++) v.energy_.push_back(cd(symR(nm("e", k)), 0));
  checkEval(F, D, parms, f, d, v, what, sym_param("otf", 0));
  AmiBase E; E.precision_cutoff = -1; Out g = f; checkEval(F, E, parms, f, g, v, what, 0);   // the used object again, against a new one
}
