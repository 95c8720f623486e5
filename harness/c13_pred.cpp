// C13: the comparison predicates decide exactly what they are named after.
#include "common.hpp"
static iv vec(const char* p, int i, int n, int m) { iv r; for (int k = 0; k < n; k++) r.push_back(symI(nm(p, i, k), -m, m)); return r; }
static bool eq(const iv& a, const iv& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t k = 0; k < a.size(); k++) r = r & (a[k] == b[k]); return r; }
static bool neg(const iv& a, const iv& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t k = 0; k < a.size(); k++) r = r & (a[k] == -b[k]); return r; }
extern "C" void harness() {
  int what = sym_param("what", 0), n1 = sym_param("n1", 3), n2 = sym_param("n2", 3), m1 = sym_param("m1", 2), m2 = sym_param("m2", 2), em = sym_param("em", 4);
  AmiBase ami;
  if (what == 0) {
    AmiBase::pole_struct p(vec("e", 0, m1, em), vec("a", 0, n1, em)), q(vec("e", 1, m2, em), vec("a", 1, n2, em));
    p.index_ = symI("i0", 0, 3); q.index_ = symI("i1", 0, 3); p.der_ = symI("d0", 0, 2); q.der_ = symI("d1", 0, 2); p.multiplicity_ = symI("m0", 1, 3); q.multiplicity_ = symI("mm1", 1, 3);
    bool want = eq(p.eps_, q.eps_) & eq(p.alpha_, q.alpha_);
    sym_check(ami.pole_equiv(p, q) == want, "poles are equal exactly when all coefficients agree");
    sym_check(ami.pole_equiv(q, p) == want, "pole comparison is symmetric"); sym_check(ami.pole_equiv(p, p), "a pole equals itself");
  } else if (what == 1) {
    AmiBase::g_struct p(vec("e", 0, m1, em), vec("a", 0, n1, em)), q(vec("e", 1, m2, em), vec("a", 1, n2, em)); q.pp = symI("pp", -1, 1);
    bool want = eq(p.eps_, q.eps_) & eq(p.alpha_, q.alpha_);
    sym_check(ami.g_equiv(p, q) == want, "Green's functions are equal exactly when all coefficients agree"); sym_check(ami.g_equiv(q, p) == want, "comparison of Green's functions is symmetric");
  } else if (what == 2) {
    AmiBase::g_struct p(vec("e", 0, m1, em), vec("a", 0, n1, em)), q(vec("e", 1, m2, em), vec("a", 1, n2, em)); p.species_ = symI("s0", 0, 2); q.species_ = symI("s1", 0, 2);
    bool plus = (p.species_ == q.species_) & eq(p.eps_, q.eps_) & eq(p.alpha_, q.alpha_), minus = (p.species_ == q.species_) & neg(p.eps_, q.eps_) & neg(p.alpha_, q.alpha_);
    int s = 7; bool got = ami.g_struct_equiv(p, q, s);
    sym_check(got == (plus | minus), "sign-aware equivalence holds exactly for plus or minus the same line of the same species");
    if (got) { bool ok = ((s == 1) & plus) | ((s == -1) & minus); sym_check(ok, "the returned sign relates the two lines"); sym_reach("equivalent"); }
    else sym_reach("different");
  } else {
    // two factorized products: same factors with the same repetitions in any order
    int G = sym_param("G", 2); AmiBase::ref_v_t r, q; int sr = 1, sq = 1; std::vector<int> cr(G + 1, 0), cq(G + 1, 0);
    for (int k = 0; k < n1; k++) { int f = symI(nm("f", 0, k), 0, G), s = symI(nm("s", 0, k), 0, 1) * 2 - 1; r.push_back(std::make_pair(f, s)); sr *= s; for (int g = 0; g <= G; g++) cr[g] += f == g; }
    for (int k = 0; k < n2; k++) { int f = symI(nm("f", 1, k), 0, G), s = symI(nm("s", 1, k), 0, 1) * 2 - 1; q.push_back(std::make_pair(f, s)); sq *= s; for (int g = 0; g <= G; g++) cq[g] += f == g; }
    bool want = n1 == n2; for (int g = 0; g <= G; g++) want = want & (cr[g] == cq[g]);
    int x = 7, y = 7; bool got = ami.pair_v_equiv(r, q, x, y);
    sym_check(got == want, "factorized products are equal exactly when they contain the same factors with the same repetitions");
    if (got) { sym_check((x == sr) & (y == sq), "the two sign products are returned"); sym_reach("same product"); }
  }
}
