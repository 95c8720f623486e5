// C08: the statistical function is the exact m-th derivative of 1/(sigma exp(beta E)+1).
#include "common.hpp"
extern "C" void harness() {
  AmiBase ami; ami.precision_cutoff = -1;
  int what = sym_param("what", 0), m = sym_param("m", 0);
  if (what == 0) {        // real energies
    int odd = sym_split(symI("odd", 0, 1)); double beta = symP("beta"), E = symR("e"); if (odd) sym_nonzero(E);
    cd g = ami.fermi_bose(m, odd ? -1.0 : 1.0, beta, cd(E, 0)); sym_observe("re", g.real());
    sym_check_eq(g.real(), orc::statReal(m, odd, beta, E), "the derivative of the statistical function is exact at real energies");
    sym_check_eq(g.imag(), 0.0, "the statistical function is real at real energies");
  } else if (what == 1) { // complex energies
    int odd = sym_split(symI("odd", 0, 1)); double beta = symP("beta"); cd E(symR("er"), symR("ei"));
    cd g = ami.fermi_bose(m, odd ? -1.0 : 1.0, beta, E), w = orc::statCplx(m, odd, beta, E); sym_observe("re", g.real()); sym_observe("im", g.imag());
    sym_check_eq(g.real(), w.real(), "the derivative of the statistical function is exact at complex energies");
    sym_check_eq(g.imag(), w.imag(), "the derivative of the statistical function is exact at complex energies (imaginary part)");
  } else if (what == 2) { // derivative coefficients: k! times the Stirling number of the second kind
    int R = sym_param("max", 9); int r = sym_split(symI("r", 1, R)), k = sym_split(symI("k", 0, R)); sym_assume(k <= r);
    std::vector<std::vector<long long>> S(R + 1, std::vector<long long>(R + 2, 0)); S[0][0] = 1;
    for (int i = 1; i <= R; i++) for (int j = 1; j <= i; j++) S[i][j] = j * (S[i - 1][j] + S[i - 1][j - 1]);
    sym_check_eq(ami.frk(r, k), double(S[r][k]), "the derivative coefficients are exact");
  } else if (what == 3) {
    int N = sym_param("max", 20); int n = sym_split(symI("n", 0, N)), k = sym_split(symI("k", 0, N)); sym_assume(k <= n);
    std::vector<std::vector<long long>> C(N + 1, std::vector<long long>(N + 1, 0)); for (int i = 0; i <= N; i++) { C[i][0] = 1; for (int j = 1; j <= i; j++) C[i][j] = C[i - 1][j - 1] + (j < i ? C[i - 1][j] : 0); }
    sym_check(ami.binomialCoeff(n, k) == C[n][k], "binomial coefficients are exact");
  } else {
    int n = sym_split(symI("n", 0, 12)); long long f = 1; for (int i = 2; i <= n; i++) f *= i;
    sym_check(ami.factorial(n) == f, "factorials are exact");
  }
}
