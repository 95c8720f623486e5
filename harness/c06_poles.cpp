// C06: the pole search is complete, distinct and correctly counted, for every product of n lines.
#include "common.hpp"
extern "C" void harness() {
  int n = sym_param("n", 3), nf = sym_param("nf", 2), ne = sym_param("ne", 2), em = sym_param("em", 1);
  AmiBase ami; ami.drop_matsubara_poles = sym_param("drop", 1);
  AmiBase::g_prod_t R;
  int tp = sym_param("topo", -1);   // the lines of a fixed diagram
  if (tp >= 0) { Case c = topo(tp); R = c.R0; n = (int)R.size(); nf = c.nfreq; ne = c.neps; for (int i = 0; i < n; i++) R[i].species_ = i; }
  else for (int i = 0; i < n; i++) {
    iv a, e;
    for (int k = 0; k < nf; k++) a.push_back(symI(nm("a", i, k), -1, 1));
    for (int k = 0; k < ne; k++) e.push_back(symI(nm("q", i, k), -em, em));
    R.push_back(AmiBase::g_struct(e, a)); R[i].species_ = i;
  }
  int idx = sym_param("idx", 0);
  AmiBase::pole_array_t P = ami.find_poles(idx, R);
  if (idx < 0 || idx >= nf) { sym_check(P.size() == 0, "an index outside the frequency list returns no pole"); sym_reach("outside"); return; }
  int np = (int)P.size();
  std::vector<int> owner(n, 0);
  for (int p = 0; p < np; p++) {
    sym_check(P[p].index_ == idx, "a pole records the frequency it belongs to");
    sym_check(P[p].der_ == 0, "a new pole carries no derivative");
    sym_check((int)P[p].alpha_.size() == nf && (int)P[p].eps_.size() == ne, "a pole has one coefficient per frequency and energy");
    sym_check(P[p].which_g_.size() > 0 && P[p].multiplicity_ == (int)P[p].which_g_.size(), "the multiplicity is the number of lines");
    for (size_t w = 0; w < P[p].which_g_.size(); w++) {
      int g = P[p].which_g_[w]; sym_check(g >= 0 && g < n, "a pole lists positions in the product");
      g = sym_split(g);
      if (w) sym_check(P[p].which_g_[w - 1] < g, "the positions are in order");
      owner[g]++; int a = R[g].alpha_[idx];
      sym_check(a != 0, "a line of a pole depends on the frequency");
      bool ok = P[p].alpha_[idx] == 0;
      for (int k = 0; k < nf; k++) if (k != idx) ok = ok & (R[g].alpha_[k] + a * P[p].alpha_[k] == 0);
      for (int k = 0; k < ne; k++) ok = ok & (R[g].eps_[k] + a * P[p].eps_[k] == 0);
      sym_check(ok, "the pole makes the denominator of its line vanish identically");
    }
    for (int q = 0; q < p; q++) {
      bool same = true;
      for (int k = 0; k < nf; k++) same = same & (P[p].alpha_[k] == P[q].alpha_[k]);
      for (int k = 0; k < ne; k++) same = same & (P[p].eps_[k] == P[q].eps_[k]);
      sym_check(!same, "two poles are distinct");
    }
  }
  for (int i = 0; i < n; i++) {
    bool zero = true; int cnt = 0;
    for (int k = 0; k < ne; k++) zero = zero & (R[i].eps_[k] == 0);
    for (int k = 0; k < nf; k++) if (k != idx) cnt += R[i].alpha_[k] != 0;
    bool dropped = zero & ((cnt & 1) == 1) & ami.drop_matsubara_poles;
    bool want = (R[i].alpha_[idx] != 0) & !dropped;
    sym_check(owner[i] == (want ? 1 : 0), "every line that depends on the frequency belongs to exactly one pole");
  }
  if (np == n) sym_reach("all distinct");
  if (np == 1) sym_reach("one pole");
}
