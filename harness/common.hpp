// Shared pieces of the harnesses: symbolic inputs and the independent oracle.
#pragma once
#include "ami_base.hpp"
#include "sym.h"
#include <complex>
#include <string>
#include <vector>
typedef std::complex<double> cd;
typedef std::vector<int> iv;
inline std::string nm(const char* p, int i) { std::string s(p); if (i >= 100) { s += char(48 + i / 100); i %= 100; if (i < 10) s += char(48); } if (i >= 10) s += char('0' + i / 10); s += char('0' + i % 10); return s; }
inline std::string nm1(const char* p, int i) { std::string s = nm(p, i); s += char(95); return s; }
inline std::string nm(const char* p, int i, int j) { return nm(nm1(p, i).c_str(), j); }
inline int symI(const std::string& n, int lo, int hi) { return sym_int(n.c_str(), lo, hi); }
inline double symR(const std::string& n) { return sym_real(n.c_str()); }
inline double symP(const std::string& n) { return sym_pos(n.c_str()); }

// ---------------------------------------------------------------- oracle
// One Green's function is 1/(sum_k a_k x_k + sum_k e_k E_k).  A factor is the der-th energy derivative of
// 1/(sigma exp(beta E)+1).  The oracle sums one frequency after the other with the residue theorem, taking all
// derivatives with the Leibniz rule in closed form (no recursion over derivatives).
namespace orc {
struct Lin { iv a, e; int sp; };
struct Fac { iv e; int odd; int der; int idx; };
struct Term { double c; std::vector<Lin> g; std::vector<Fac> f; };
typedef std::vector<Term> Sum;
inline double fact(int n) { double r = 1; for (int i = 2; i <= n; i++) r *= i; return r; }
inline bool allZero(const iv& v) { for (size_t i = 0; i < v.size(); i++) if (v[i] != 0) return false; return true; }
// contour is set where the sum is not a sum of isolated residues (a pole on the summation frequencies) or a
// coefficient leaves {-1,0,1}; such integrands are outside the claim.  bosonicExt: the last frequency is a bosonic one
inline void sumOne(const Sum& in, int k, bool bosonicExt, Sum& out, bool& contour) {
  out.clear();
  for (size_t t = 0; t < in.size(); t++) for (size_t j = 0; j < in[t].g.size(); j++) for (size_t q = 0; q < in[t].g[j].a.size(); q++) if (in[t].g[j].a[q] > 1 || in[t].g[j].a[q] < -1) { contour = true; return; }
  for (size_t t = 0; t < in.size(); t++) {
    const Term& T = in[t];
    int n = (int)T.g.size(); std::vector<char> used(n, 0);
    for (int i = 0; i < n; i++) {
      if (used[i] || T.g[i].a[k] == 0) continue;
      // pole of line i: x_k = - (rest) / a  with a = +-1
      Lin z; int ai = T.g[i].a[k];
      for (size_t q = 0; q < T.g[i].a.size(); q++) z.a.push_back((int)q == k ? 0 : -ai * T.g[i].a[q]);
      for (size_t q = 0; q < T.g[i].e.size(); q++) z.e.push_back(-ai * T.g[i].e[q]);
      std::vector<Lin> oth; std::vector<int> oa; double pre = 1; int M = 0;
      for (int j = 0; j < n; j++) {
        const Lin& L = T.g[j]; int aj = L.a[k];
        Lin R; R.sp = L.sp; for (size_t q = 0; q < L.a.size(); q++) R.a.push_back((int)q == k ? 0 : L.a[q] + aj * z.a[q]);
        for (size_t q = 0; q < L.e.size(); q++) R.e.push_back(L.e[q] + aj * z.e[q]);
        if (aj != 0 && allZero(R.a) && allZero(R.e)) { used[j] = 1; M++; pre *= aj; } else { oth.push_back(R); oa.push_back(aj); }
      }
      int odd = 0; for (size_t q = 0; q < z.a.size(); q++) if (z.a[q] != 0 && !(bosonicExt && q + 1 == z.a.size())) odd++;
      odd &= 1;
      if (allZero(z.e)) { int cnt = 0; for (size_t q = 0; q < z.a.size(); q++) if (z.a[q] != 0) cnt++; if (odd || (cnt & 1)) contour = true; }
      // coefficient of t^(M-1) in f(z+t) * prod 1/(R_j + a_j t)
      int m = (int)oth.size(); std::vector<int> r(m + 1, 0); r[m] = M - 1;   // r[m] is the order of f
      for (;;) {
        Term N; N.c = T.c * pre / fact(r[m]); N.f = T.f; Fac F; F.e = z.e; F.odd = odd; F.der = r[m]; F.idx = k; N.f.push_back(F);
        for (int j = 0; j < m; j++) { for (int q = 0; q < r[j]; q++) N.c *= -oa[j]; for (int q = 0; q <= r[j]; q++) N.g.push_back(oth[j]); }
        if (N.c != 0) out.push_back(N);
        // next composition of M-1 into m+1 parts (only lines that depend on x_k may take derivatives)
        int j = 0; while (j < m && (r[m] == 0 || oa[j] == 0)) { r[m] += r[j]; r[j] = 0; j++; }
        if (j == m) break;
        r[j]++; r[m]--;
      }
    }
  }
}
// derivatives of y = 1/(s exp(beta E)+1): y' = beta (y^2 - y); coefficients of the polynomial in y
inline double statReal(int der, int odd, double beta, double E) {
  double y = 1.0 / ((odd ? -1.0 : 1.0) * std::exp(beta * E) + 1.0);
  std::vector<double> c(2, 0.0); c[1] = 1;
  double b = 1;
  for (int d = 0; d < der; d++) { std::vector<double> n(c.size() + 1, 0.0); for (size_t k = 1; k < c.size(); k++) { n[k + 1] += k * c[k]; n[k] -= k * c[k]; } c = n; b *= beta; }
  double r = 0, p = 1; for (size_t k = 0; k < c.size(); k++) { r += c[k] * p; p *= y; }
  return b * r;
}
inline cd cmul(cd a, cd b) { return cd(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
inline cd cinv(cd a) { if (a.imag() == 0) return cd(1.0 / a.real(), 0); double n = a.real() * a.real() + a.imag() * a.imag(); return cd(a.real() / n, -a.imag() / n); }
inline cd cinvG(cd a) { double n = a.real() * a.real() + a.imag() * a.imag(); return cd(a.real() / n, -a.imag() / n); }
inline cd statCplx(int der, int odd, double beta, cd E) {
  double m = std::exp(beta * E.real()), s = odd ? -1.0 : 1.0;
  cd y = cinvG(cd(s * m * std::cos(beta * E.imag()) + 1.0, s * m * std::sin(beta * E.imag())));
  std::vector<double> c(2, 0.0); c[1] = 1;
  double b = 1;
  for (int d = 0; d < der; d++) { std::vector<double> n(c.size() + 1, 0.0); for (size_t k = 1; k < c.size(); k++) { n[k + 1] += k * c[k]; n[k] -= k * c[k]; } c = n; b *= beta; }
  cd r(0, 0), p(1, 0); for (size_t k = 0; k < c.size(); k++) { r += c[k] * p; p = cmul(p, y); }
  return b * r;
}
inline double valueReal(const Sum& s, const std::vector<double>& x, const std::vector<double>& E, double beta) {
  double tot = 0;
  for (size_t t = 0; t < s.size(); t++) {
    double v = s[t].c;
    for (size_t j = 0; j < s[t].g.size(); j++) { double d = 0; for (size_t q = 0; q < x.size(); q++) if (s[t].g[j].a[q]) d += s[t].g[j].a[q] * x[q]; for (size_t q = 0; q < E.size(); q++) if (s[t].g[j].e[q]) d += s[t].g[j].e[q] * E[q]; sym_nonzero(d); v *= 1.0 / d; }
    for (size_t j = 0; j < s[t].f.size(); j++) { double e = 0; for (size_t q = 0; q < E.size(); q++) if (s[t].f[j].e[q]) e += s[t].f[j].e[q] * E[q]; if (s[t].f[j].odd) sym_nonzero(e); v *= statReal(s[t].f[j].der, s[t].f[j].odd, beta, e); }
    tot += v;
  }
  return tot;
}
inline cd valueCplx(const Sum& s, const std::vector<cd>& x, const std::vector<cd>& E, double beta) {
  cd tot(0, 0);
  for (size_t t = 0; t < s.size(); t++) {
    cd v(s[t].c, 0);
    for (size_t j = 0; j < s[t].g.size(); j++) { cd d(0, 0); for (size_t q = 0; q < x.size(); q++) if (s[t].g[j].a[q]) d += double(s[t].g[j].a[q]) * x[q]; for (size_t q = 0; q < E.size(); q++) if (s[t].g[j].e[q]) d += double(s[t].g[j].e[q]) * E[q]; v = cmul(v, cinv(d)); }
    for (size_t j = 0; j < s[t].f.size(); j++) { cd e(0, 0); for (size_t q = 0; q < E.size(); q++) if (s[t].f[j].e[q]) e += double(s[t].f[j].e[q]) * E[q]; v = cmul(v, e.imag() == 0 ? cd(statReal(s[t].f[j].der, s[t].f[j].odd, beta, e.real()), 0) : statCplx(s[t].f[j].der, s[t].f[j].odd, beta, e)); }
    tot += v;
  }
  return tot;
}
inline Sum fromProd(const AmiBase::g_prod_t& R0) { Term t; t.c = 1; for (size_t i = 0; i < R0.size(); i++) { Lin l; l.a = R0[i].alpha_; l.e = R0[i].eps_; l.sp = R0[i].species_; t.g.push_back(l); } return Sum(1, t); }
}

// ---------------------------------------------------------------- integrands
struct Case { AmiBase::g_prod_t R0; int nint, nfreq, neps; };
inline AmiBase::g_struct mkG(const iv& eps, const iv& alpha) { return AmiBase::g_struct(eps, alpha); }
inline Case mkCase(int nint, const std::vector<iv>& alpha, const std::vector<iv>& eps) {
  Case c; c.nint = nint; c.nfreq = (int)alpha[0].size(); c.neps = (int)eps[0].size();
  for (size_t i = 0; i < alpha.size(); i++) c.R0.push_back(mkG(eps[i], alpha[i])); return c;
}
inline std::vector<iv> unitEps(const iv& which, int n) { std::vector<iv> r; for (size_t i = 0; i < which.size(); i++) { iv e(n, 0); e[which[i]] = 1; r.push_back(e); } return r; }
// fixed topologies (concrete coefficients, everything else symbolic)
inline Case topo(int t) {
  switch (t) {
    case 0: return mkCase(1, {{1, 0}, {1, 1}}, unitEps({0, 1}, 2));                                        // bubble
    case 1: return mkCase(2, {{1, 0, 0}, {0, 1, 0}, {1, 1, -1}}, unitEps({0, 1, 2}, 3));                   // second-order self energy
    case 2: return mkCase(1, {{1, 0}, {1, 0}, {-1, 1}}, unitEps({0, 0, 1}, 2));                            // double pole
    case 3: return mkCase(1, {{1, 0}, {1, 0}, {1, 0}, {1, 1}}, unitEps({0, 0, 0, 1}, 2));                  // triple pole
    case 4: return mkCase(2, {{1, 0, 0}, {0, 1, 0}, {1, 1, -1}, {1, 0, 0}}, unitEps({0, 1, 2, 0}, 3));     // self-energy insertion
    case 5: return mkCase(3, {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {1, 1, 0, 0}, {0, 1, 1, -1}}, unitEps({0, 1, 2, 3, 4}, 5));
    case 6: return mkCase(4, {{1, 0, 0, 0, 0}, {0, 1, 0, 0, 0}, {0, 0, 1, 0, 0}, {0, 0, 0, 1, 0}, {-1, 1, 1, 0, 0}, {1, 0, 0, -1, 1}, {1, 0, 0, 0, 0}}, unitEps({0, 1, 2, 3, 4, 5, 0}, 6));
    case 7: return mkCase(2, {{1, 0, 0}, {1, 0, 1}, {0, 1, 0}, {0, 1, 1}}, unitEps({0, 1, 2, 3}, 4));      // two bubbles
    case 8: return mkCase(2, {{1, 0, 1}, {1, 0, 0}, {0, 1, 1}, {0, 1, 0}, {1, -1, 0}}, unitEps({0, 1, 2, 3, 4}, 5));
    case 9: return mkCase(2, {{1, 0, 0, 0}, {0, 1, 0, 0}, {1, 1, 1, 1}, {0, 1, 1, 0}}, unitEps({0, 1, 2, 3}, 4)); // two external frequencies
    case 10: return mkCase(1, {{1, 0}, {1, 0}, {1, 0}, {1, 0}, {1, 0}, {-1, 1}}, unitEps({0, 0, 0, 0, 0, 1}, 2)); // fifth-order pole
    case 11: return mkCase(2, {{1, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 1, 0}, {1, -1, 1}}, unitEps({0, 0, 1, 1, 2}, 3));
    case 12: return mkCase(1, {{1, 0}, {-1, 0}, {1, 1}, {0, 1}}, {{1, 0, 0}, {-1, 0, 0}, {0, 1, 0}, {0, 0, 1}});     // opposite orientation, same pole
    case 13: return mkCase(1, {{1, 0}, {1, 1}, {1, 1}, {-1, 0}}, {{1, 0, 0, 0}, {0, 1, 0, 0}, {1, -1, 0, 2}, {0, 0, 1, -1}});
    case 14: return mkCase(3, {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {1, 1, 1, -1}, {0, 1, 1, 0}, {1, 0, 0, 0}}, unitEps({0, 1, 2, 3, 4, 0}, 5));
    case 15: return mkCase(2, {{1, 1, 0}, {0, 1, 1}, {1, 1, 1}, {1, 0, 0}}, unitEps({0, 1, 2, 3}, 4));
    case 16: return mkCase(0, {{0, 1}, {0, 1}, {1, 1}}, {{1, 0}, {0, 1}, {1, 1}});
    case 18: return mkCase(1, {{1, 0}}, unitEps({0}, 1));                                                  // tadpole: nothing is left
    case 19: return mkCase(2, {{1, 0, 0}, {0, 1, 0}, {0, 1, 0}}, unitEps({0, 1, 1}, 2));                   // tadpoles, one with a double pole
    case 20: return mkCase(2, {{0, 1, 0}, {1, 0, 0}, {1, 1, 1}, {0, 0, 1}, {0, 0, -1}}, unitEps({0, 1, 2, 3, 3}, 4)); // lines that only carry the external frequency
    case 21: return mkCase(1, {{-1, 0}, {-1, 0}, {-1, 0}, {-1, 0}}, unitEps({0, 0, 0, 0}, 1));             // fourth-order pole and nothing else
    case 22: return mkCase(1, {{1, 0}, {1, 1}, {1, 0}}, unitEps({0, 0, 1}, 2));                            // same energy, different external frequency
    case 23: return mkCase(2, {{1, 0, 0, 0}, {1, 0, 1, 0}, {0, 1, 0, 1}, {1, 1, 0, 0}}, unitEps({0, 0, 1, 2}, 3));
    case 24: return mkCase(1, {{-1, 0}, {1, 0}, {1, 0}, {-1, 1}, {1, 1}}, {{-1, 0, 0}, {1, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}}); // triple pole of mixed orientation
    case 25: return mkCase(2, {{1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 1, 1}}, {{1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}}); // double pole only in the second summation
    case 26: return mkCase(2, {{1, 0, 0}, {1, 0, 0}, {1, 0, 0}, {0, 1, 0}, {1, 1, -1}}, unitEps({0, 0, 0, 1, 2}, 3)); // two self-energy insertions
    case 27: return mkCase(1, {{1, 0}, {1, 1}, {-1, 0}, {1, -1}, {1, 0}, {-1, 1}, {1, 0}, {0, 1}, {1, 0}, {1, 1}}, unitEps({0, 1, 2, 3, 4, 5, 6, 7, 8, 9}, 10)); // ten lines
    case 28: return mkCase(1, {{1, 0}, {1, 0}, {-1, 0}, {1, 0}, {1, 0}, {-1, 0}, {-1, 1}}, {{1, 0}, {1, 0}, {-1, 0}, {1, 0}, {1, 0}, {-1, 0}, {0, 1}}); // sixth-order pole
    case 32: return mkCase(1, {{1, 0}, {1, 0}, {-1, 0}, {1, 0}, {1, 0}, {-1, 0}, {1, 0}, {-1, 0}, {0, 1}}, {{1, 0}, {1, 0}, {-1, 0}, {1, 0}, {1, 0}, {-1, 0}, {1, 0}, {-1, 0}, {0, 1}}); // eighth-order pole, one line passes through
    case 29: return mkCase(5, {{1, 0, 0, 0, 0, 0}, {0, 1, 0, 0, 0, 0}, {0, 0, 1, 0, 0, 0}, {0, 0, 0, 1, 0, 0}, {0, 0, 0, 0, 1, 0}, {1, 1, -1, 1, -1, 1}}, unitEps({0, 1, 2, 3, 4, 5}, 6)); // five summations
    case 30: return mkCase(1, {{1, 0, 0, 0, 0, 0, 0}, {1, 1, 0, 0, -1, 0, 0}, {-1, 0, 0, 1, 0, 0, 1}, {0, 0, 1, 0, 0, 1, 0}}, {{1, 0, 0, 0, 0, 0}, {0, 1, 0, 0, 0, -2}, {0, 0, 3, 0, 0, 1}, {0, 0, 0, 1, 1, 0}}); // six external frequencies
    case 31: return mkCase(1, {{1, 0}, {1, 1}, {-1, 0}, {1, -1}, {1, 0}, {1, 0}, {-1, 1}, {1, 0}, {0, 1}, {1, 0}, {1, 1}}, unitEps({0, 1, 2, 3, 4, 4, 5, 6, 7, 8, 9}, 10)); // eleven lines, a double pole
    case 33: return mkCase(2, {{-1, 1, 0}, {-1, 0, 1}, {-1, 0, 0}, {0, -1, 0}, {1, 0, 0}}, {{0, 0, -1, 0, 0}, {0, 0, 1, 0, -1}, {0, 0, 0, 1, 0}, {0, -1, 0, 0, 0}, {1, 0, 0, 0, 0}}); // 10 products
    case 34: return mkCase(2, {{0, 1, 1}, {0, 1, 0}, {0, 1, 1}, {0, -1, -1}, {1, 0, 0}, {0, 1, 0}}, {{0, 0, 0, 1, 0}, {0, 1, 0, 0, 0}, {0, 0, 1, 0, 0}, {0, 0, 0, -1, 0}, {1, 0, 0, 0, 0}, {0, 0, 0, 0, 1}}); // 7 products
    case 35: return mkCase(2, {{1, 1, -1, -1}, {0, -1, 1, 1}, {0, 1, 0, 0}, {1, 0, 0, 0}, {-1, 0, 0, 0}, {1, 0, 0, 0}}, {{0, 0, 0, 1, 0}, {0, 0, 0, 0, -1}, {0, 1, 0, 0, 0}, {1, 0, 0, 0, 0}, {0, 0, 1, 0, 2}, {0, 0, -1, 0, -2}}); // 21 products
    case 36: return mkCase(3, {{1, 0, 0, 0}, {0, 0, 1, 0}, {0, 1, 0, 0}, {-1, 0, 0, 0}, {-1, 0, 1, 0}, {0, 0, -1, 1}}, {{1, 0, 0, 0, 0, 0}, {0, 0, 1, 0, 0, 0}, {0, 1, 0, 0, 0, 0}, {0, 0, 0, -1, 0, 0}, {0, 0, 0, 0, 1, 0}, {0, 0, 0, 0, 0, 1}}); // 10 products
    case 37: return mkCase(3, {{-1, -1, -1, 0}, {0, -1, 0, 0}, {0, 0, -1, 0}, {1, 0, 0, 0}, {1, 0, 1, 0}, {0, 1, 0, -1}, {0, 1, 0, 0}}, {{0, 0, 0, -1, 0, 0}, {0, -1, 0, 0, 0, 0}, {0, 0, -1, 0, 0, 0}, {1, 0, 0, 0, 0, 0}, {0, 0, 0, 0, -1, 0}, {0, 0, 0, 0, 0, 1}, {0, 1, 0, 0, 0, 0}}); // 51 products
    case 38: return mkCase(3, {{0, 0, 1, 0, 0}, {0, 1, 0, 0, 0}, {1, 0, -1, 0, 1}, {-1, 1, 1, 0, -1}, {0, 1, 0, 0, 0}, {1, 0, 0, 0, 0}, {1, 0, 0, -1, 1}}, {{0, 0, 1, 0, 0, 0, 0}, {0, 0, 0, 0, 0, -1, 0}, {0, 0, 0, 1, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 1}, {0, 1, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 1, 0, 0}}); // 46 products
    case 39: return mkCase(4, {{-1, 0, 0, 0, 1}, {0, 0, 1, 0, 0}, {0, 1, 0, 0, 0}, {0, 0, 0, 1, 0}, {1, 0, 0, 0, 0}, {0, -1, 0, 1, 1}}, {{0, 0, 0, 0, -1, 0}, {0, 0, 1, 0, 0, 0}, {0, 1, 0, 0, 0, 0}, {0, 0, 0, 1, 0, 0}, {1, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 1}}); // 8 products
    case 40: return mkCase(4, {{0, 1, 0, 0, 0}, {1, 0, -1, 0, -1}, {0, 0, 1, 0, 0}, {0, 1, 0, 1, 0}, {0, 0, 1, 0, 0}, {1, 0, 0, 0, 0}, {0, 0, 0, 1, 0}}, {{0, 1, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, -1, 1}, {0, 0, 0, 0, -1, 0, 0}, {0, 0, 0, 0, 0, 1, 0}, {0, 0, 1, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 1, 0, 0, 0}}); // 24 products
    case 41: return mkCase(4, {{0, 0, 1, 0, 0, 0}, {-1, 0, 0, 0, 0, 0}, {0, 1, 0, 0, 0, 0}, {0, 1, 0, -1, 1, -1}, {0, 0, 0, -1, 0, 0}, {1, 1, -1, 0, 1, 0}, {0, -1, 0, 0, 0, 0}}, {{0, 0, 1, 0, 0, 0}, {-1, 0, 0, 0, 0, 0}, {0, 1, 0, 0, 0, 0}, {0, 0, 0, 0, 1, 0}, {0, 0, 0, -1, 0, 0}, {0, 0, 0, 0, 0, -1}, {0, -1, 0, 0, 0, 0}}); // 80 products
    case 42: return mkCase(3, {{0, 0, 1, 0}, {0, 0, 1, 0}, {0, -1, 0, 0}, {-1, 0, 0, 0}, {1, 0, 0, -1}, {-1, 0, 0, 1}, {0, 1, 0, 0}, {1, 0, 0, 0}}, {{0, 0, 0, 0, 0, -1}, {0, 0, 1, 0, 0, 0}, {0, -1, 0, 0, 0, 0}, {0, 0, 0, 0, 1, 0}, {0, 0, 0, 1, 0, 0}, {0, 0, 0, -1, 0, 0}, {0, 1, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0}}); // 10 products
    case 43: return mkCase(5, {{-1, 0, 0, 1, -1, 0}, {-1, 0, 0, 0, -1, 1}, {0, 1, 0, 0, 0, 0}, {0, 0, 1, 0, 0, 0}, {-1, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 1, 0}, {0, 0, 0, -1, 0, 0}}, {{0, 0, 0, 0, 0, 1, 0}, {0, 0, 0, 0, 0, 0, 1}, {0, 1, 0, 0, 0, 0, 0}, {0, 0, 1, 0, 0, 0, 0}, {-1, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 1, 0, 0}, {0, 0, 0, -1, 0, 0, 0}}); // 17 products
    case 44: return mkCase(2, {{0, 1, 1, -1, 0}, {0, 1, 1, -1, 0}, {0, 1, 0, -1, 0}, {0, 1, 1, 0, 0}, {0, -1, -1, 1, 1}, {0, -1, 0, 0, 0}, {1, 0, 0, 0, 0}, {0, 1, 1, 0, 0}}, {{0, 0, 0, 0, 1, 0}, {0, 0, 0, 0, 1, 0}, {0, 0, 0, 0, 0, -1}, {0, 0, 2, 1, 0, 0}, {0, 0, 1, 0, 0, 0}, {0, -1, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 0}, {0, 0, 2, 1, 0, 0}}); // 15 products
    default: return mkCase(3, {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {1, -1, 1, 0}, {0, -1, 1, 1}, {0, -1, 0, 0}}, unitEps({0, 1, 2, 3, 4, 1}, 5));
  }
}
// a fixed diagram (topo) or, with n > 0, any product of n lines with frequency coefficients in {-1,0,1}
inline Case anyCase() {
  int n = sym_param("n", 0); if (n == 0) return topo(sym_param("topo", 0));
  Case c; c.nint = sym_param("nint", 1); c.nfreq = sym_param("nf", 2); c.neps = sym_param("ne", 1); int em = sym_param("em", 1), same = sym_param("same", 0);
  for (int i = 0; i < n; i++) {
    if (i >= n - same) { iv a, e; int f = sym_split(symI(nm("f", i), 0, 1)) ? 1 : -1; for (int k = 0; k < c.nfreq; k++) a.push_back(f * c.R0[0].alpha_[k]); for (int k = 0; k < c.neps; k++) e.push_back(f * c.R0[0].eps_[k]); c.R0.push_back(mkG(e, a)); continue; }
    iv al, e; for (int k = 0; k < c.nfreq; k++) { int q = symI(nm("a", i, k), -1, 1); al.push_back(k < c.nint ? sym_split(q) : q); }
    for (int k = 0; k < c.neps; k++) e.push_back(symI(nm("q", i, k), -em, em)); c.R0.push_back(mkG(e, al)); }
  return c;
}
struct Point { std::vector<double> x, E; double beta, pf; AmiBase::ami_vars v; };
inline Point realPoint(const Case& c, bool pf) {
  Point p; for (int k = 0; k < c.nfreq; k++) p.x.push_back(k < c.nint ? 0.0 : symR(nm("w", k - c.nint)));
  for (int k = 0; k < c.neps; k++) p.E.push_back(symR(nm("e", k)));
  p.beta = symP("beta"); p.pf = pf ? symR("pf") : 1.0;
  for (size_t k = 0; k < p.x.size(); k++) p.v.frequency_.push_back(p.x[k]);
  for (size_t k = 0; k < p.E.size(); k++) p.v.energy_.push_back(p.E[k]);
  p.v.BETA_ = p.beta; p.v.prefactor = p.pf; return p;
}
inline orc::Sum oracle(const Case& c, bool bosonicExt) {
  orc::Sum s = orc::fromProd(c.R0), o; bool contour = false;
  for (int k = 0; k < c.nint; k++) { orc::sumOne(s, k, bosonicExt, o, contour); s = o; sym_assume(!contour); }
  return s;
}
inline AmiBase::ami_parms mkParms(int nint, AmiBase::graph_type t) { AmiBase::ami_parms p(nint, 0.0, t); p.N_EXT_ = 1; p.tol_ = 1e-12; p.int_type_ = AmiBase::hubbard; p.dispersion_ = AmiBase::tb; return p; }

// ---------------------------------------------------------------- deep comparison of library data
namespace deep {
inline bool eqv(const iv& a, const iv& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = r & (a[i] == b[i]); return r; }
inline bool eq(const AmiBase::g_struct& a, const AmiBase::g_struct& b) { return eqv(a.alpha_, b.alpha_) & eqv(a.eps_, b.eps_) & (a.species_ == b.species_) & (a.stat_ == b.stat_) & (a.eff_stat_ == b.eff_stat_); }
inline bool eq(const AmiBase::pole_struct& a, const AmiBase::pole_struct& b) { return eqv(a.alpha_, b.alpha_) & eqv(a.eps_, b.eps_) & (a.index_ == b.index_) & (a.multiplicity_ == b.multiplicity_) & (a.der_ == b.der_) & eqv(a.which_g_, b.which_g_); }
inline bool eq(double a, double b) { return a == b; }
inline bool eq(int a, int b) { return a == b; }
inline bool eq(cd a, cd b) { return (a.real() == b.real()) & (a.imag() == b.imag()); }
inline bool eq(const std::pair<int, int>& a, const std::pair<int, int>& b) { return (a.first == b.first) & (a.second == b.second); }
inline bool eq(const AmiBase::term& a, const AmiBase::term& b);
template <class T> inline bool eq(const std::vector<T>& a, const std::vector<T>& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); i++) r = r & eq(a[i], b[i]); return r; }
inline bool eq(const AmiBase::term& a, const AmiBase::term& b) { return (a.sign == b.sign) & eq(a.p_list, b.p_list) & eq(a.g_list, b.g_list); }
inline bool eq(const AmiBase::ami_vars& a, const AmiBase::ami_vars& b) { return eq(a.energy_, b.energy_) & eq(a.frequency_, b.frequency_) & (a.prefactor == b.prefactor) & (a.BETA_ == b.BETA_); }
inline bool eq(const AmiBase::ami_parms& a, const AmiBase::ami_parms& b) { return (a.N_INT_ == b.N_INT_) & (a.N_EXT_ == b.N_EXT_) & (a.E_REG_ == b.E_REG_) & (a.tol_ == b.tol_) & (a.TYPE_ == b.TYPE_) & (a.int_type_ == b.int_type_) & (a.dispersion_ == b.dispersion_); }
}
