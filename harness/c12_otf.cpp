// C12: on-the-fly evaluation at degenerate energies equals the exact sum of the integrand with those energies
// identified symbolically.  Digit k of `cls` names the value of energy k (digits 5-9: the negative of value digit-5).
#include "common.hpp"
static Case otfTopo(int t) {
  switch (t) {
    case 100: return mkCase(1, {{1, 0}, {1, 1}, {1, 0}}, unitEps({0, 1, 2}, 3));                     // bubble with insertion
    case 101: return mkCase(1, {{1, 0}, {-1, 0}, {1, 1}}, unitEps({0, 1, 2}, 3));                    // opposite orientation
    case 102: return mkCase(2, {{1, 0, 0}, {1, -1, 0}, {0, 1, 0}, {0, 1, 1}}, unitEps({0, 1, 2, 3}, 4));
    case 103: return mkCase(3, {{1, 0, 0, 0}, {1, -1, 0, 0}, {0, 0, 1, 0}, {0, 1, 1, 0}, {0, 1, 0, 1}}, unitEps({0, 1, 2, 3, 4}, 5)); // chain of bubbles
    case 104: return mkCase(1, {{1, 0}, {1, 0}, {1, 0}, {1, 1}}, unitEps({0, 1, 2, 3}, 4));          // up to a triple pole
    case 105: return mkCase(2, {{1, 0, 0}, {0, 1, 0}, {1, 1, -1}, {1, 0, 0}}, unitEps({0, 1, 2, 3}, 4)); // self-energy insertion
    case 106: return mkCase(1, {{1, 0}, {1, 0}, {1, 1}, {1, 1}}, unitEps({0, 1, 2, 3}, 4));          // two pairs
    case 107: return mkCase(2, {{1, 0, 0}, {0, 1, 0}, {1, -1, 1}, {0, 1, 0}, {1, 0, 0}}, unitEps({0, 1, 2, 3, 4}, 5));
    case 109: return mkCase(2, {{1, 0, 0}, {1, -1, 0}, {0, 1, 0}, {0, 1, 1}, {0, 1, 0}}, unitEps({0, 1, 2, 3, 4}, 5));
    case 108: return mkCase(1, {{1, 0}, {1, 0}, {0, 1}}, {{1, 0, 1}, {0, 1, 1}, {0, 0, 1}});         // energies in combinations
    default: return topo(t);
  }
}
// energies as combinations of independent values (coincidences that only appear after some summations)
static std::vector<iv> lin(int k) {
  switch (k) {
    case 1: return {{1, 0, 0}, {0, 1, 0}, {1, -1, 0}, {0, 0, 1}};                        // 102: second summation meets a double pole
    case 2: return {{1, 0}, {0, 1}, {1, -1}, {1, -1}};                                   // 102: and a coincidence before
    case 3: return {{1, 0, 0, 0}, {0, 1, 0, 0}, {-1, 1, 1, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}}; // 103: third summation
    case 4: return {{1, 0, 0}, {0, 1, 0}, {-1, 1, 1}, {0, 0, 1}, {1, 0, 0}};             // 103: first and third
    case 5: return {{1, 0, 0}, {0, 1, 0}, {-1, 1, 1}, {0, 0, 1}, {0, 1, 0}};             // 103: first and third
    case 6: return {{1, 0}, {1, 0}, {0, 1}, {0, 1}, {0, 1}};                             // 103: zero difference
    case 7: return {{1, 0, 0}, {0, 1, 0}, {1, -1, 0}, {0, 0, 1}, {1, -1, 0}};            // 109: triple pole after one summation
    default: return {{1, 0}, {0, 1}, {-1, 1}, {1, -1}};                                  // 102: opposite values
  }
}
// complex energies (the Fermi/Bose function is opaque in these runs)
static cd lc(const iv& a, const std::vector<cd>& x) { cd d(0, 0); for (size_t k = 0; k < x.size() && k < a.size(); k++) if (a[k]) d += cd(a[k] * x[k].real(), a[k] * x[k].imag()); return d; }
static cd inv(cd d) { double n = d.real() * d.real() + d.imag() * d.imag(); sym_nonzero(n); return cd(d.real() / n, -d.imag() / n); }
static cd valueOpaque(AmiBase& ami, const orc::Sum& s, const std::vector<cd>& x, const std::vector<cd>& E, double beta) {
  cd tot(0, 0);
  for (size_t t = 0; t < s.size(); t++) {
    cd v(s[t].c, 0); for (size_t j = 0; j < s[t].g.size(); j++) v = orc::cmul(v, inv(lc(s[t].g[j].a, x) + lc(s[t].g[j].e, E)));
    for (size_t j = 0; j < s[t].f.size(); j++) { cd e = lc(s[t].f[j].e, E); if (s[t].f[j].odd) sym_nonzero(std::norm(e)); v = orc::cmul(v, ami.fermi_bose(s[t].f[j].der, s[t].f[j].odd ? -1.0 : 1.0, beta, e)); }
    tot += v;
  }
  return tot;
}
// the two values differ in their imaginary part (cx 1, 2, 4: the real parts may coincide) or in their real part (cx 3, 5)
static void distinct(cd a) { int p = sym_param("cx", 1); sym_nonzero(p == 3 || p == 5 ? a.real() : a.imag()); }
static void cplx(const Case& c, const Case& d, const std::vector<iv>& M, int ns, int bos) {
  std::vector<cd> s, x, E; double beta = symP("beta"), pf = symR("pf"); int part = sym_param("cx", 1);   // 2: all real parts equal, 3: all imaginary parts equal, 4: purely imaginary
  for (int k = 0; k < ns; k++) s.push_back(cd(part == 4 ? 0.0 : part == 2 && k ? s[0].real() : symR(nm("s", k)), part == 3 && k ? s[0].imag() : symR(nm("t", k))));
  for (int k = 0; k < c.nfreq; k++) x.push_back(k < c.nint ? cd(0, 0) : cd(symR(nm("w", k - c.nint)), sym_param("cf", 0) ? symR(nm("v", k - c.nint)) : 0.0));
  for (int k = 0; k < c.neps; k++) E.push_back(lc(M[k], s));
  for (int a = 0; a < ns; a++) { distinct(s[a]); for (int b = 0; b < a; b++) { distinct(s[a] - s[b]); distinct(s[a] + s[b]); for (int e = 0; e < b; e++) { distinct(s[a] + s[b] - s[e]); distinct(s[a] - s[b] + s[e]); distinct(s[a] - s[b] - s[e]); distinct(s[a] + s[b] + s[e]); } } }
  AmiBase ami; ami.precision_cutoff = -1; orc::Sum o = oracle(d, bos); cd want = valueOpaque(ami, o, x, s, beta); want = cd(want.real() * pf, want.imag() * pf);
  AmiBase::ami_vars v; v.energy_ = E; v.frequency_ = x; v.BETA_ = beta; v.prefactor = pf; AmiBase::ami_vars v0 = v;
  AmiBase::ami_parms parms = mkParms(c.nint, bos ? AmiBase::Pi_phuu : AmiBase::Sigma); AmiBase::R_t R; AmiBase::P_t P; AmiBase::S_t S; ami.construct(parms, c.R0, R, P, S);
  cd got = ami.evaluate_otf(parms, R, P, S, v); sym_observe("re", got.real()); sym_observe("want", want.real());
  sym_check_eq(got.real(), want.real(), "on-the-fly evaluation with complex energies is the exact sum (real part)"); sym_check_eq(got.imag(), want.imag(), "on-the-fly evaluation with complex energies is the exact sum (imaginary part)");
  sym_check(deep::eq(v, v0), "on-the-fly evaluation leaves the external variables unchanged");
}
extern "C" void harness() {
  Case c = otfTopo(sym_param("topo", 100)); int cls = sym_param("cls", 0), bos = sym_param("bos", 0);
  std::vector<double> s; std::vector<int> id(c.neps), sg(c.neps); int q = cls;
  for (int k = c.neps - 1; k >= 0; k--) { id[k] = q % 10 % 5; sg[k] = q % 10 >= 5 ? -1 : 1; q /= 10; }
  std::vector<iv> M; int ns = 0; for (int k = 0; k < c.neps; k++) if (id[k] + 1 > ns) ns = id[k] + 1;
  if (sym_param("lin", 0)) { M = lin(sym_param("lin", 0)); ns = (int)M[0].size(); } else for (int k = 0; k < c.neps; k++) { iv r(ns, 0); r[id[k]] = sg[k]; M.push_back(r); }
  if (sym_param("cx", 0)) { Case d = c; for (size_t i = 0; i < d.R0.size(); i++) { iv e(ns, 0); for (int k = 0; k < c.neps; k++) for (int j = 0; j < ns; j++) e[j] += M[k][j] * c.R0[i].eps_[k]; d.R0[i].eps_ = e; } d.neps = ns; cplx(c, d, M, ns, bos); return; }
  for (int k = 0; k < ns; k++) s.push_back(symR(nm("s", k)));
  Point pt; for (int k = 0; k < c.nfreq; k++) pt.x.push_back(k < c.nint ? 0.0 : symR(nm("w", k - c.nint)));
  for (int k = 0; k < c.neps; k++) { double e = 0; for (int j = 0; j < ns; j++) if (M[k][j]) e += M[k][j] * s[j]; pt.E.push_back(e); pt.v.energy_.push_back(pt.E[k]); }
  for (size_t k = 0; k < pt.x.size(); k++) pt.v.frequency_.push_back(pt.x[k]);
  pt.v.BETA_ = symP("beta"); pt.v.prefactor = symR("pf");
  // the identified integrand
  Case d = c; for (size_t i = 0; i < d.R0.size(); i++) { iv e(ns, 0); for (int k = 0; k < c.neps; k++) for (int j = 0; j < ns; j++) e[j] += M[k][j] * c.R0[i].eps_[k]; d.R0[i].eps_ = e; } d.neps = ns;
  int ref = sym_param("ref", 0); double want = 0;   // ref: construction with the energies identified is the reference (integrands with dropped poles)
  if (!ref) { orc::Sum o = oracle(d, bos); want = orc::valueReal(o, pt.x, s, pt.v.BETA_) * pt.v.prefactor; }
  if (sym_param("generic", 1)) {   // the values themselves have no further coincidence
    for (int a = 0; a < ns; a++) { sym_nonzero(s[a]); for (int b = 0; b < a; b++) { sym_nonzero(s[a] - s[b]); sym_nonzero(s[a] + s[b]); for (int e = 0; e < b; e++) { sym_nonzero(s[a] + s[b] - s[e]); sym_nonzero(s[a] - s[b] + s[e]); sym_nonzero(s[a] - s[b] - s[e]); sym_nonzero(s[a] + s[b] + s[e]); } } }
  }
  AmiBase ami; ami.precision_cutoff = -1;
  AmiBase::ami_parms parms = mkParms(c.nint, bos ? AmiBase::Pi_phuu : AmiBase::Sigma);
  AmiBase::R_t R; AmiBase::P_t P; AmiBase::S_t S;
  if (ref) {
    AmiBase b; b.precision_cutoff = -1; AmiBase::ami_vars v = pt.v; v.energy_.clear(); for (int k = 0; k < ns; k++) v.energy_.push_back(s[k]);
    AmiBase::R_t R1; AmiBase::P_t P1; AmiBase::S_t S1; b.construct(parms, d.R0, R1, P1, S1); want = b.evaluate(parms, R1, P1, S1, v).real();
  }
  ami.construct(parms, c.R0, R, P, S);
  AmiBase::R_t R0 = R; AmiBase::P_t P0 = P; AmiBase::S_t S0 = S; AmiBase::ami_vars v0 = pt.v;
  cd got = ami.evaluate_otf(parms, R, P, S, pt.v);
  sym_observe("re", got.real()); sym_observe("want", want);
  sym_check_eq(got.real(), want, "on-the-fly evaluation is the exact sum with equal energies identified");
  sym_check_eq(got.imag(), 0.0, "on-the-fly evaluation at a real point is real");
  sym_check(deep::eq(R, R0) & deep::eq(P, P0) & deep::eq(S, S0), "on-the-fly evaluation leaves the arrays unchanged");
  sym_check(deep::eq(pt.v, v0), "on-the-fly evaluation leaves the external variables unchanged");
}
