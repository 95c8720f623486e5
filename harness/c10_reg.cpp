// C10: the energy regulator and the two drop switches (statistical function uninterpreted, C08 decides it).
#include "common.hpp"
extern "C" void harness() {
  int L = sym_param("L", 3), ne = sym_param("ne", 2), what = sym_param("what", 0), der = sym_param("der", 0), cplx = sym_param("cplx", 0);
  AmiBase ami; ami.precision_cutoff = -1;
  AmiBase::ami_vars v; v.BETA_ = symP("beta"); v.prefactor = symR("pf");
  for (int k = 0; k < L; k++) v.frequency_.push_back(cd(symR(nm("w", k)), 0));
  for (int k = 0; k < ne; k++) v.energy_.push_back(cplx ? cd(symR(nm("e", k)), symR(nm("ei", k))) : cd(symR(nm("e", k)), 0));
  AmiBase::ami_parms parms = mkParms(L - 1, AmiBase::Sigma); double reg = symR("reg"); parms.E_REG_ = reg;
  if (what == 1) {  // the regulator does not enter the Green's functions
    AmiBase::g_prod_t G; cd w(v.prefactor, 0);
    for (int i = 0; i < sym_param("n", 2); i++) {
      AmiBase::g_struct g; cd d(0, 0);
      for (int k = 0; k < L; k++) { int a = symI(nm("a", i, k), -1, 1); g.alpha_.push_back(a); d += double(a) * v.frequency_[k]; }
      for (int k = 0; k < ne; k++) { int q = symI(nm("q", i, k), -2, 2); g.eps_.push_back(q); d += double(q) * v.energy_[k]; }
      if (cplx) sym_nonzero(d.imag()); else sym_nonzero(d.real());
      w = cplx ? orc::cmul(w, orc::cinvG(d)) : cd(w.real() / d.real(), 0); G.push_back(g);
    }
    cd g1 = ami.eval_gprod(parms, G, v);
    sym_check_eq(g1.real(), w.real(), "the regulator does not enter the Green's functions"); sym_check_eq(g1.imag(), w.imag(), "the regulator does not enter the Green's functions (imaginary part)");
    return;
  }
  bool dd = symI("drop_der", 0, 1), db = symI("drop_bose", 0, 1); ami.drop_der = dd; ami.drop_bosonic_diverge = db;
  AmiBase::pole_struct P; int odd = 0; cd E(0, 0);
  for (int k = 0; k < L; k++) { int a = symI(nm("a", k), -1, 1); P.alpha_.push_back(a); odd += a != 0; }
  for (int k = 0; k < ne; k++) { int q = k ? -k : 1; P.eps_.push_back(q); E += double(q) * v.energy_[k]; }
  P.der_ = der; P.index_ = 0; P.multiplicity_ = 1; P.which_g_.push_back(0);
  int o = sym_split(odd & 1);
  cd want;
  if (sym_split_bool(E.real() == 0)) {
    if (sym_split_bool(E.imag() == 0)) {
      sym_reach("zero energy");
      if (o && sym_split_bool(db)) { sym_reach("dropped divergence"); want = cd(0, 0); }
      else want = ami.fermi_bose(der, o ? -1.0 : 1.0, v.BETA_, cd(reg, E.imag()));
    } else want = ami.fermi_bose(der, o ? -1.0 : 1.0, v.BETA_, cd(reg, E.imag()));
  } else if (sym_split_bool(E.real() > 0)) want = ami.fermi_bose(der, o ? -1.0 : 1.0, v.BETA_, cd(E.real() + reg, E.imag()));
  else want = ami.fermi_bose(der, o ? -1.0 : 1.0, v.BETA_, cd(E.real() - reg, E.imag()));
  if (der != 0 && sym_split_bool(dd)) { sym_reach("dropped derivative"); want = cd(0, 0); }
  cd got = ami.fermi_pole(parms, P, v);
  sym_check_eq(got.real(), want.real(), "regulator and drop switches act exactly as documented");
  sym_check_eq(got.imag(), want.imag(), "regulator and drop switches act exactly as documented (imaginary part)");
}
