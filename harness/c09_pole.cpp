// C09: statistics of a pole follow the parity of its fermionic frequencies (the statistical function itself is
// uninterpreted here, C08 decides it).
#include "common.hpp"
extern "C" void harness() {
  int L = sym_param("L", 4), am = sym_param("am", 3), ne = sym_param("ne", 2), what = sym_param("what", 0);
  AmiBase ami; ami.precision_cutoff = -1;
  if (sym_param("dirty", 0)) ami.overflow_detected = true;
  AmiBase::ami_vars v; v.BETA_ = symP("beta"); v.prefactor = symR("pf");
  for (int k = 0; k < L; k++) v.frequency_.push_back(cd(0, 0));
  for (int k = 0; k < ne; k++) v.energy_.push_back(sym_param("cplx", 0) ? cd(symR(nm("e", k)), symR(nm("ei", k))) : cd(symR(nm("e", k)), 0));
  int type = symI("type", 0, 12); sym_assume(type != (int)AmiBase::doubleocc || sym_param("docc", 1));
  bool bos = type == AmiBase::Pi_phuu || type == AmiBase::Pi_phud || type == AmiBase::Pi_ppuu || type == AmiBase::Pi_ppud || type == AmiBase::FORCE || type == AmiBase::doubleocc;
  AmiBase::ami_parms parms = mkParms(L - 1, (AmiBase::graph_type)type);
  int np = what == 1 ? sym_param("np", 3) : 1; AmiBase::Pi_t Pi(1); std::vector<cd> want;
  for (int p = 0; p < np; p++) {
    AmiBase::pole_struct P; int odd = 0; cd E(0, 0);
    for (int k = 0; k < L; k++) { int a = symI(nm("a", p, k), -am, am); P.alpha_.push_back(a); if (k + 1 < L || !bos) odd += a != 0; }
    for (int k = 0; k < ne; k++) { int q = symI(nm("q", p, k), -3, 3); P.eps_.push_back(q); E += double(q) * v.energy_[k]; }
    P.der_ = p && !sym_param("sameder", 0) ? p : sym_param("der", 0); P.index_ = symI(nm("ix", p), 0, L - 2); P.multiplicity_ = symI(nm("m", p), 1, 3); P.which_g_.push_back(p);
    want.push_back(ami.fermi_bose(P.der_, sym_split(odd & 1) ? -1.0 : 1.0, v.BETA_, E));
    Pi[0].push_back(P);
  }
  if (what == 0) {
    cd got = ami.fermi_pole(parms, Pi[0][0], v);
    sym_check_eq(got.real(), want[0].real(), "a pole is Fermi for an even and Bose for an odd number of fermionic frequencies");
    sym_check_eq(got.imag(), want[0].imag(), "a pole is Fermi for an even and Bose for an odd number of fermionic frequencies (imaginary part)");
  } else {
    AmiBase::SorF_t F = ami.fermi(parms, Pi, v); sym_check(F.size() == 1 && (int)F[0].size() == np, "one factor per pole");
    cd prod(1, 0); for (int p = 0; p < np; p++) { sym_check_eq(F[0][p].real(), want[p].real(), "factors keep the order of the poles"); sym_check_eq(F[0][p].imag(), want[p].imag(), "factors keep the order of the poles (imaginary part)"); prod *= want[p]; }
    cd fp = ami.eval_fprod(parms, Pi[0], v); sym_check_eq(fp.real(), prod.real(), "the factor of a term is the product over its poles"); sym_check_eq(fp.imag(), prod.imag(), "the factor of a term is the product over its poles (imaginary part)");
  }
}
