// C21: the library built with BOOST_MP computes the same function and applies the same overflow rule.  This file is
// compiled twice: with the default build (driver) and with the multiprecision build (mp_eval, class renamed AmiBaseMP).
#include "ami_base.hpp"
#include "sym.h"
typedef std::vector<int> iv;
struct Pt { int nint, ng, nf, ne; const int *al, *ep; const double *xr, *xi, *er, *ei; double beta, pf, reg, cutoff; int bos, drop; };
#ifdef BOOST_MP
#define EVAL mp_eval
#else
#define EVAL plain_eval
#include "common.hpp"
#endif
extern "C" __attribute__((visibility("default"))) int EVAL(const Pt* p, int what, int stale, double* re, double* im) {
  AmiBase ami; AmiBase::g_prod_t R0;
  for (int i = 0; i < p->ng; i++) R0.push_back(AmiBase::g_struct(iv(p->ep + i * p->ne, p->ep + (i + 1) * p->ne), iv(p->al + i * p->nf, p->al + (i + 1) * p->nf)));
  AmiBase::ami_parms parms(p->nint, p->reg, p->bos ? AmiBase::Pi_phuu : AmiBase::Sigma); parms.N_EXT_ = 1; parms.tol_ = 1e-12; parms.int_type_ = AmiBase::hubbard; parms.dispersion_ = AmiBase::tb;
  AmiBase::energy_t E; AmiBase::frequency_t x; for (int k = 0; k < p->ne; k++) E.push_back(std::complex<double>(p->er[k], p->ei[k])); for (int k = 0; k < p->nf; k++) x.push_back(std::complex<double>(p->xr[k], p->xi[k]));
  AmiBase::ami_vars v(E, x, p->beta, p->pf); ami.precision_cutoff = p->cutoff; ami.drop_matsubara_poles = p->drop;
  AmiBase::R_t R; AmiBase::P_t P; AmiBase::S_t S; AmiBase::terms T; AmiBase::g_prod_t ug; AmiBase::R_ref_t rr; AmiBase::ref_eval_t ev; std::complex<double> r;
  if (what == 0 || what == 2) ami.construct(parms, R0, R, P, S); else ami.construct(parms, R0, T);
  if (what == 2) ami.factorize_Rn(R[p->nint], ug, rr, ev);
  if (what == 3) ami.factorize_terms(T, ug, rr, ev);
  ami.overflow_detected = stale != 0;
  if (what == 0) r = ami.evaluate(parms, R, P, S, v); if (what == 1) r = ami.evaluate(parms, T, v);
  if (what == 2) r = ami.evaluate(parms, R, P, S, v, ug, rr, ev); if (what == 3) r = ami.evaluate(parms, T, v, ug, rr, ev);
  if (what == 4) { AmiBase::g_prod_t g = R0; r = ami.eval_gprod(parms, g, v); }
  *re = r.real(); *im = r.imag(); return ami.overflow_detected;
}
#ifndef BOOST_MP
extern "C" int mp_eval(const Pt* p, int what, int stale, double* re, double* im);
extern "C" void harness() {
  int what = sym_param("what", 0), n = sym_param("n", 0), bos = sym_param("bos", 0), cx = sym_param("cx", 0), flag = sym_param("flag", 0);
  Case c;
  if (n == 0) c = topo(sym_param("topo", 0));
  else { c.nint = sym_param("nint", 1); c.nfreq = sym_param("nf", 2); c.neps = sym_param("ne", 1);
    for (int i = 0; i < n; i++) { iv al, e; for (int k = 0; k < c.nfreq; k++) { int q = symI(nm("a", i, k), -1, 1); al.push_back(k < c.nint ? sym_split(q) : q); } for (int k = 0; k < c.neps; k++) e.push_back(symI(nm("q", i, k), -1, 1)); c.R0.push_back(AmiBase::g_struct(e, al)); } }
  Point pt = realPoint(c, true); orc::Sum o = oracle(c, bos);
  std::vector<double> xr, xi, er, ei; iv al, ep;
  for (int k = 0; k < c.nfreq; k++) { xr.push_back(pt.x[k]); xi.push_back(cx && k >= c.nint ? symR(nm("v", k - c.nint)) : 0.0); }
  for (int k = 0; k < c.neps; k++) { er.push_back(pt.E[k]); ei.push_back(sym_param("ce", 0) ? symR(nm("g", k)) : 0.0); }
  if (cx) { for (int k = c.nint; k < c.nfreq; k++) sym_assume(xi[k] != 0); } 
  if (sym_param("ce", 0)) { std::vector<cd> X, Y; for (int k = 0; k < c.nfreq; k++) X.push_back(cd(xr[k], xi[k])); for (int k = 0; k < c.neps; k++) Y.push_back(cd(er[k], ei[k])); orc::valueCplx(o, X, Y, pt.beta); } else orc::valueReal(o, pt.x, pt.E, pt.beta);
  for (size_t i = 0; i < c.R0.size(); i++) { for (int k = 0; k < c.nfreq; k++) al.push_back(c.R0[i].alpha_[k]); for (int k = 0; k < c.neps; k++) ep.push_back(c.R0[i].eps_[k]); }
  Pt p; p.nint = c.nint; p.ng = (int)c.R0.size(); p.nf = c.nfreq; p.ne = c.neps; p.al = al.data(); p.ep = ep.data(); p.xr = xr.data(); p.xi = xi.data(); p.er = er.data(); p.ei = ei.data();
  p.beta = pt.beta; p.pf = pt.pf; p.reg = sym_param("reg", 0) ? symR("reg") : 0.0; p.cutoff = flag ? symP("cut") : -1.0; p.bos = bos; p.drop = sym_param("drop", 1);
  double a, b, x, y; int stale = flag ? symI("stale", 0, 1) : 0;
  int f0 = plain_eval(&p, what, stale, &a, &b), f1 = mp_eval(&p, what, stale, &x, &y);
  sym_observe("re", x); sym_observe("im", y); if (flag) sym_observe("f", f1);
  sym_check_eq(x, a, "real part of the multiprecision build"); sym_check_eq(y, b, "imaginary part of the multiprecision build");
  sym_check(f0 == f1, "overflow rule of the multiprecision build");
  if (flag) { if (f1) sym_reach("flag set"); else sym_reach("flag clear"); }
}
#endif
