// C15: differentiating a factorized expression gives the factorized form of its exact derivative with respect to the
// last frequency.  mode 0: free symbolic tables (terms), 1: free tables evaluated through the arrays, 2/3: tables made
// by construction and factorization of a diagram (arrays / terms), compared with the derivative of the exact sum.
#include "common.hpp"
static bool depends(const AmiBase::g_prod_t& ug, const AmiBase::ref_v_t& r) { bool d = false; for (size_t i = 0; i < r.size(); i++) d = d | (ug[r[i].first].alpha_.back() != 0); return d; }
extern "C" void harness() {
  int mode = sym_param("mode", 0);
  AmiBase ami; ami.precision_cutoff = -1;
  AmiBase::g_prod_t ug; AmiBase::R_ref_t rr; AmiBase::ref_eval_t ev; AmiBase::terms T; AmiBase::R_t R; AmiBase::P_t P; AmiBase::S_t S;
  if (mode <= 1) {
    // digits of `pat` (from the left) are factor positions, 9 separates products, e.g. 010920 = {0,1,0},{2,0}
    int ng = sym_param("ng", 3), nf = sym_param("nf", 2), ne = sym_param("ne", 1), am = sym_param("am", 1), pat = sym_param("pat", 1010), evn = sym_param("ev", 1);
    AmiBase::ami_parms parms = mkParms(1, AmiBase::Sigma); AmiBase::ami_vars v;
    std::vector<double> x, E, g(ng), a(ng);
    for (int k = 0; k < nf; k++) { x.push_back(symR(nm("w", k))); v.frequency_.push_back(cd(x[k], 0)); }
    for (int k = 0; k < ne; k++) { E.push_back(symR(nm("e", k))); v.energy_.push_back(cd(E[k], 0)); }
    v.BETA_ = symP("beta"); v.prefactor = symR("pf");
    for (int i = 0; i < ng; i++) {
      AmiBase::g_struct G; double d = 0;
      for (int k = 0; k < nf; k++) { int q = symI(nm("a", i, k), k + 1 == nf ? -am : -1, k + 1 == nf ? am : 1); G.alpha_.push_back(q); d += q * x[k]; if (k + 1 == nf) a[i] = q; }
      for (int k = 0; k < ne; k++) { int q = symI(nm("q", i, k), -1, 1); G.eps_.push_back(q); d += q * E[k]; }
      sym_nonzero(d); g[i] = 1.0 / d; ug.push_back(G);
    }
    iv dig; for (int p = pat; p; p /= 10) dig.insert(dig.begin(), p % 10);
    std::vector<iv> prods; iv cur; for (size_t i = 1; i < dig.size(); i++) { if (dig[i] == 9) { prods.push_back(cur); cur.clear(); } else cur.push_back(dig[i]); } prods.push_back(cur);   // the first digit only keeps leading zeros
    double want = 0; int nt = 0; iv dep;
    R.resize(2); P.resize(1); S.resize(1); P[0].resize(1); S[0].resize(1);
    for (size_t i = 0; i < prods.size(); i++) {
      AmiBase::ref_v_t r, e; double val = 1, der = 0, co = 0; int last = 0;
      for (size_t j = 0; j < prods[i].size(); j++) { r.push_back(std::make_pair(prods[i][j], 1)); val *= g[prods[i][j]]; der += -a[prods[i][j]] * g[prods[i][j]]; }
      for (int j = 0; j < evn; j++) {
        AmiBase::term t; t.sign = symR(nm("s", i, j)); int sg = symI(nm("h", i, j), 0, 1) * 2 - 1; double f = 1;
        if (mode == 1) { AmiBase::pole_struct q; q.alpha_ = iv(nf, 0); q.alpha_[0] = (i + j) % 2; q.eps_ = iv(ne, 0); q.eps_[0] = 1; q.index_ = 0; q.der_ = 0; q.multiplicity_ = 1; q.which_g_.push_back(0); P[0][0].push_back(q); S[0][0].push_back(t.sign); f = ami.fermi_pole(parms, q, v).real(); }
        for (size_t k = 0; k < prods[i].size(); k++) t.g_list.push_back(ug[prods[i][k]]);
        R[1].push_back(t.g_list); T.push_back(t); e.push_back(std::make_pair(nt++, sg)); co += sg * t.sign * f;
      }
      rr.push_back(r); ev.push_back(e); want += co * val * der;
    }
    R[0].push_back(R[1][0]);
    bool any = false; for (size_t i = 0; i < rr.size(); i++) any = any | depends(ug, rr[i]);
    AmiBase::g_prod_t ug0 = ug;
    ami.derivative_opt(ug, rr, ev);
    sym_check(rr.size() == ev.size(), "every differentiated product has its list of contributions");
    if (!any) { sym_check(rr.size() == 0, "products that do not depend on the frequency disappear"); sym_reach("constant"); return; }
    for (size_t i = 0; i < rr.size(); i++) sym_check(depends(ug, rr[i]), "products that do not depend on the frequency disappear");
    cd got = mode == 0 ? ami.evaluate(parms, T, v, ug, rr, ev) : ami.evaluate(parms, R, P, S, v, ug, rr, ev);
    sym_observe("re", got.real());
    sym_check_eq(got.real(), want * v.prefactor, "the differentiated tables evaluate to the exact derivative");
    sym_check_eq(got.imag(), 0.0, "the derivative at a real point is real");
    sym_reach("differentiated");
    return;
  }
  Case c = anyCase(); int bos = sym_param("bos", 0), twice = sym_param("twice", 0);
  Point pt = realPoint(c, true);
  AmiBase::ami_parms parms = mkParms(c.nint, bos ? AmiBase::Pi_phuu : AmiBase::Sigma);
  orc::Sum o = oracle(c, bos), od; int last = c.nfreq - 1;
  for (int q = 0; q <= twice; q++) { od.clear(); for (size_t t = 0; t < o.size(); t++) for (size_t j = 0; j < o[t].g.size(); j++) if (o[t].g[j].a[last]) { orc::Term n = o[t]; n.c *= -o[t].g[j].a[last]; n.g.push_back(o[t].g[j]); od.push_back(n); } o = od; }
  if (mode == 2) { ami.construct(parms, c.R0, R, P, S); ami.factorize_Rn(R.back(), ug, rr, ev); } else { ami.construct(parms, c.R0, T); ami.factorize_terms(T, ug, rr, ev); }
  for (int q = 0; q <= twice; q++) {
    bool any = false; for (size_t i = 0; i < rr.size(); i++) any = any | depends(ug, rr[i]);
    ami.derivative_opt(ug, rr, ev);
    if (!any) { sym_check(rr.size() == 0, "products that do not depend on the frequency disappear"); sym_reach("constant"); return; }
  }
  cd got = mode == 2 ? ami.evaluate(parms, R, P, S, pt.v, ug, rr, ev) : ami.evaluate(parms, T, pt.v, ug, rr, ev);
  sym_observe("re", got.real());
  sym_check_eq(got.real(), orc::valueReal(od, pt.x, pt.E, pt.beta) * pt.pf, "the differentiated result is the derivative of the exact sum");
  sym_check_eq(got.imag(), 0.0, "the derivative at a real point is real");
  sym_reach("differentiated");
}
