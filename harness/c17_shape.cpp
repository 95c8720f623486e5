// C17: the constructed tables are structurally coherent (fixed diagrams, or one to two summations over symbolic lines).
#include "common.hpp"
static bool updated(const AmiBase::g_struct& g, const AmiBase::g_struct& p, const AmiBase::pole_struct& z, int k) {
  int a = p.alpha_[k]; bool ok = (g.species_ == p.species_) & (g.alpha_.size() == p.alpha_.size()) & (g.eps_.size() == p.eps_.size()); if (g.alpha_.size() != p.alpha_.size() || g.eps_.size() != p.eps_.size()) return false;
  for (size_t q = 0; q < g.alpha_.size(); q++) ok = ok & (g.alpha_[q] == ((int)q == k ? 0 : p.alpha_[q] + a * z.alpha_[q]));
  for (size_t q = 0; q < g.eps_.size(); q++) ok = ok & (g.eps_[q] == p.eps_[q] + a * z.eps_[q]);
  return ok;
}
extern "C" void harness() {
  Case c; int n = sym_param("n", 0), terms = sym_param("terms", 0);
  if (!n) c = topo(sym_param("topo", 0));
  else {
    c.nint = sym_param("nint", 1); c.nfreq = sym_param("nf", 2); c.neps = sym_param("ne", 2); int em = sym_param("em", 1);
    for (int i = 0; i < n; i++) { iv a, e; for (int k = 0; k < c.nfreq; k++) a.push_back(symI(nm("a", i, k), -1, 1)); for (int k = 0; k < c.neps; k++) e.push_back(symI(nm("q", i, k), -em, em)); c.R0.push_back(AmiBase::g_struct(e, a)); }
    int same = sym_param("same", 0); for (int i = n - same; i < n; i++) { c.R0[i].alpha_ = c.R0[0].alpha_; c.R0[i].eps_ = c.R0[0].eps_; }
    if (same) sym_assume(c.R0[0].alpha_[0] == 1);
  }
  for (size_t i = 0; i < c.R0.size(); i++) c.R0[i].species_ = 10 + (int)i;
  AmiBase ami; AmiBase::ami_parms parms = mkParms(c.nint, AmiBase::Sigma);
  if (n) { bool contour = false; orc::Sum s = orc::fromProd(c.R0), o; for (int k = 0; k + 1 < c.nint; k++) { orc::sumOne(s, k, false, o, contour); s = o; sym_assume(!contour); } }
  if (!terms) {
    AmiBase::R_t R; AmiBase::P_t P; AmiBase::S_t S; ami.construct(parms, c.R0, R, P, S);
    sym_check((int)P.size() == c.nint && (int)S.size() == c.nint && (int)R.size() == c.nint + 1, "one S and P layer and one more R layer per summation");
    sym_check(R[0].size() == 1 && deep::eq(R[0][0], c.R0), "the first layer is the integrand");
    for (int k = 0; k < c.nint; k++) {
      sym_check(P[k].size() == R[k].size() && S[k].size() == R[k].size(), "one group per product of the previous layer"); if (P[k].size() != R[k].size() || S[k].size() != R[k].size()) return;
      size_t pos = 0;
      for (size_t g = 0; g < P[k].size(); g++) {
        sym_check(P[k][g].size() == S[k][g].size(), "S and P groups have equal size");
        for (size_t j = 0; j < P[k][g].size(); j++, pos++) {
          const AmiBase::pole_struct& z = P[k][g][j];
          sym_check(z.index_ == k, "every pole names the summed frequency");
          bool free = z.alpha_.size() == (size_t)c.nfreq; for (int q = 0; q <= k && q < (int)z.alpha_.size(); q++) free = free & (z.alpha_[q] == 0); sym_check(free, "a pole does not depend on summed frequencies");
          sym_check(z.der_ >= 0 && z.der_ < z.multiplicity_, "fewer derivatives than the multiplicity");
          sym_check(pos < R[k + 1].size(), "one product in the next layer per S/P entry"); if (pos >= R[k + 1].size()) return;
          const AmiBase::g_prod_t& prod = R[k + 1][pos]; const AmiBase::g_prod_t& par = R[k][g];
          std::vector<char> isPole(par.size(), 0); for (size_t w = 0; w < z.which_g_.size(); w++) { int i = sym_split(z.which_g_[w]); if (i >= 0 && i < (int)par.size()) isPole[i] = 1; }
          std::vector<int> copies(par.size(), 0);
          for (size_t l = 0; l < prod.size(); l++) {
            for (int q = 0; q <= k; q++) sym_check(prod[l].alpha_[q] == 0, "no later product depends on a summed frequency");
            int sp = sym_split(prod[l].species_) - 10; bool known = sp >= 0 && sp < (int)c.R0.size(); sym_check(known, "a surviving line keeps its species label"); if (!known) return;
            bool found = false; for (size_t i = 0; i < par.size(); i++) if (!isPole[i] && par[i].species_ == prod[l].species_) { found = true; copies[i]++; sym_check(updated(prod[l], par[i], z, k), "a surviving line is its original with the pole substituted"); break; }
            sym_check(found, "a surviving line comes from the product its entry belongs to");
          }
          int last = -1; for (size_t i = 0; i < par.size(); i++) if (!isPole[i]) { bool dup = false; for (size_t q = 0; q < i; q++) if (!isPole[q] && par[q].species_ == par[i].species_) dup = true; if (!dup) sym_check(copies[i] >= 1, "every line that is not a pole survives"); last = i; }
          (void)last; sym_check((int)prod.size() == (int)par.size() - (int)z.which_g_.size() + z.multiplicity_ - 1 - z.der_, "a derivative adds one line unless it acts on the factor");
        }
      }
      sym_check(pos == R[k + 1].size(), "one product in the next layer per S/P entry");
    }
  } else {
    AmiBase::terms T; ami.construct(parms, c.R0, T);
    for (size_t t = 0; t < T.size(); t++) {
      sym_check((int)T[t].p_list.size() == c.nint, "a term has one factor per summation"); 
      std::vector<int> seen(c.nint, 0);
      for (size_t p = 0; p < T[t].p_list.size(); p++) { int i = sym_split(T[t].p_list[p].index_); sym_check(i >= 0 && i < c.nint, "every pole names a summed frequency"); if (i < 0 || i >= c.nint) return; seen[i]++; for (int q = 0; q <= i; q++) sym_check(T[t].p_list[p].alpha_[q] == 0, "a pole does not depend on summed frequencies"); }
      for (int i = 0; i < c.nint; i++) sym_check(seen[i] == 1, "each summation contributes one factor");
      for (size_t g = 0; g < T[t].g_list.size(); g++) { for (int q = 0; q < c.nint; q++) sym_check(T[t].g_list[g].alpha_[q] == 0, "no product of a term depends on a summed frequency"); int sp = sym_split(T[t].g_list[g].species_) - 10; sym_check(sp >= 0 && sp < (int)c.R0.size(), "a surviving line keeps its species label"); }
    }
    sym_observe("terms", T.size());
  }
}
