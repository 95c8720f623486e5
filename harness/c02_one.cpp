// C02: one term of free form (any sign, any Green's functions, any factors) and a list of them.
#include "common.hpp"
extern "C" void harness() {
  int ng = sym_param("ng", 2), np = sym_param("np", 2), nt = sym_param("nt", 2), nf = 2, ne = sym_param("ne", 2), maxder = sym_param("der", 2);
  AmiBase ami; ami.precision_cutoff = -1;
  AmiBase::ami_parms parms = mkParms(1, AmiBase::Sigma);
  std::vector<double> x, E; AmiBase::ami_vars v;
  for (int i = 0; i < nf; i++) { x.push_back(symR(nm("w", i))); v.frequency_.push_back(x[i]); }
  for (int i = 0; i < ne; i++) { E.push_back(symR(nm("e", i))); v.energy_.push_back(E[i]); }
  v.BETA_ = symP("beta"); v.prefactor = symR("pf");
  AmiBase::terms T; double tot = 0;
  for (int t = 0; t < nt; t++) {
    AmiBase::term tm; tm.sign = symR(nm("s", t)); double want = tm.sign * v.prefactor;
    for (int g = 0; g < ng; g++) {
      AmiBase::g_struct G; double d = 0;
      for (int i = 0; i < nf; i++) { int a = symI(nm("a", 10 * t + g, i), -1, 1); G.alpha_.push_back(a); d += a * x[i]; }
      for (int i = 0; i < ne; i++) { int a = symI(nm("q", 10 * t + g, i), -2, 2); G.eps_.push_back(a); d += a * E[i]; }
      sym_nonzero(d); want *= 1.0 / d; tm.g_list.push_back(G);
    }
    for (int p = 0; p < np; p++) {
      AmiBase::pole_struct P; double d = 0; int odd = 0;
      for (int i = 0; i < nf; i++) { int a = sym_split(symI(nm("pa", 10 * t + p, i), 0, 1)); P.alpha_.push_back(a); odd ^= a; }
      for (int i = 0; i < ne; i++) { int a = symI(nm("pq", 10 * t + p, i), -2, 2); P.eps_.push_back(a); d += a * E[i]; }
      P.der_ = sym_split(symI(nm("d", 10 * t + p), 0, maxder)); P.index_ = 0; P.which_g_.push_back(0); P.multiplicity_ = 1 + P.der_;
      if (odd) sym_nonzero(d);
      want *= orc::statReal(P.der_, odd, v.BETA_, d); tm.p_list.push_back(P);
    }
    T.push_back(tm); tot += want;
    cd one = ami.evaluate_term(parms, tm, v);
    sym_check_eq(one.real(), want, "a term is its sign times its Green's functions times its factors");
    sym_check_eq(one.imag(), 0.0, "a term at a real point is real");
  }
  cd got = ami.evaluate(parms, T, v);
  sym_observe("re", got.real());
  sym_check_eq(got.real(), tot, "a list of terms is the sum of its terms");
}
