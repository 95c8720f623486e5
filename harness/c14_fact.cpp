// C14: factorization of a list of products is faithful and non-redundant, for symbolic coefficients.
#include "common.hpp"
static bool same(const AmiBase::g_struct& p, const AmiBase::g_struct& q, int s) {
  bool r = p.species_ == q.species_; if (p.alpha_.size() != q.alpha_.size() || p.eps_.size() != q.eps_.size()) return false;
  for (size_t k = 0; k < p.alpha_.size(); k++) r = r & (p.alpha_[k] == s * q.alpha_[k]);
  for (size_t k = 0; k < p.eps_.size(); k++) r = r & (p.eps_[k] == s * q.eps_[k]);
  return r;
}
extern "C" void harness() {
  int pat = sym_param("pat", 22), nf = sym_param("nf", 1), ne = sym_param("ne", 1), am = sym_param("am", 1), em = sym_param("em", 1), viaT = sym_param("terms", 0);
  std::vector<int> len; for (int q = pat; q; q /= 10) len.insert(len.begin(), q % 10 == 9 ? 0 : q % 10);   // digit 9: an empty product
  int np = (int)len.size(); AmiBase ami; AmiBase::Ri_t Rn; AmiBase::terms T; int tp = sym_param("topo", -1);
  if (tp >= 0) {   // the products left over by a fixed diagram, lines of several species
    Case c = topo(tp); AmiBase::R_t R; AmiBase::P_t P; AmiBase::S_t S; for (size_t i = 0; i < c.R0.size(); i++) c.R0[i].species_ = (int)i % sym_param("nsp", 1);
    AmiBase::ami_parms parms = mkParms(c.nint, AmiBase::Sigma); ami.construct(parms, c.R0, R, P, S); Rn = R.back(); np = (int)Rn.size(); len.clear();
    if (sym_param("rev", 0)) for (int p = 0; p < np; p++) if (p % 2) Rn[p] = AmiBase::g_prod_t(Rn[p].rbegin(), Rn[p].rend());
    for (int p = 0; p < np; p++) { len.push_back((int)Rn[p].size()); AmiBase::term t; t.g_list = Rn[p]; t.sign = 1; T.push_back(t); }
  } else for (int p = 0; p < np; p++) {
    AmiBase::g_prod_t g;
    for (int j = 0; j < len[p]; j++) {
      iv a, e; for (int k = 0; k < nf; k++) a.push_back(symI(nm("a", 10 * p + j, k), -am, am)); for (int k = 0; k < ne; k++) e.push_back(symI(nm("q", 10 * p + j, k), -em, em));
      if (sym_param("long", 0)) { e.insert(e.begin(), 30, 0); e[7] = symI(nm("z", 10 * p + j), -1, 1); e[20] = e[7]; }
      AmiBase::g_struct G(e, a); G.species_ = sym_param("sp", 0) ? symI(nm("sp", 10 * p + j), 0, 1) : 0; g.push_back(G);
    }
    Rn.push_back(g); AmiBase::term t; t.g_list = g; t.sign = 1; T.push_back(t);
  }
  AmiBase::g_prod_t ug; AmiBase::R_ref_t rr; AmiBase::ref_eval_t ev;
  if (sym_param("dirty", 0)) { ug.push_back(AmiBase::g_struct(iv(3, 1), iv(2, 1))); rr.push_back(AmiBase::ref_v_t(2, std::make_pair(0, -1))); ev.push_back(AmiBase::ref_v_t(1, std::make_pair(5, -1))); }
  AmiBase::Ri_t keep = Rn;
  if (viaT) ami.factorize_terms(T, ug, rr, ev); else ami.factorize_Rn(Rn, ug, rr, ev);
  int nu = (int)ug.size(), nr = (int)rr.size();
  sym_check((int)ev.size() == nr, "one list of originals per unique product");
  for (int u = 0; u < nu; u++) for (int w = 0; w < u; w++) sym_check(!(same(ug[u], ug[w], 1) | same(ug[u], ug[w], -1)), "no two unique Green's functions are equal up to sign");
  std::vector<std::vector<int>> cnt(nr, std::vector<int>(nu, 0));
  for (int r = 0; r < nr; r++) for (size_t k = 0; k < rr[r].size(); k++) {
    sym_check(rr[r][k].first >= 0 && rr[r][k].first < nu, "unique products refer to unique Green's functions"); int f = sym_split(rr[r][k].first); cnt[r][f]++;
  }
  for (int r = 0; r < nr; r++) for (int q = 0; q < r; q++) sym_check(cnt[r] != cnt[q], "no two unique products contain the same factors");
  std::vector<int> seen(np, 0);
  for (int r = 0; r < (int)ev.size() && r < nr; r++) for (size_t k = 0; k < ev[r].size(); k++) {
    int p = sym_split(ev[r][k].first); sym_check(p >= 0 && p < np, "originals are positions in the list"); if (p < 0 || p >= np) return; seen[p]++;
    bool ok = true; int sg = 1; sym_check((int)rr[r].size() == len[p], "an original product is represented by a unique product of the same length");
    std::vector<int> c(nu, 0);
    for (int j = 0; j < len[p]; j++) for (int u = 0; u < nu; u++) { bool pl = same(keep[p][j], ug[u], 1), mi = same(keep[p][j], ug[u], -1); c[u] += pl | mi; sg *= ((mi & !pl) ? -1 : 1); }
    for (int u = 0; u < nu; u++) ok = ok & (c[u] == cnt[r][u]);
    sym_check(ok, "an original product is made of the same Green's functions as its unique product"); sym_check(ev[r][k].second == sg, "the recorded sign is the overall sign");
  }
  for (int p = 0; p < np; p++) sym_check(seen[p] == 1, "every original product is represented exactly once");
  for (int p = 0; p < np; p++) { bool in = viaT ? T[p].g_list.size() == keep[p].size() : Rn[p].size() == keep[p].size(); sym_check(in, "the list is not modified"); if (!in) return; for (int j = 0; j < len[p]; j++) sym_check(same(viaT ? T[p].g_list[j] : Rn[p][j], keep[p][j], 1), "the list is not modified"); }
  sym_observe("unique", nu); sym_observe("prods", nr);
}
