// C27: splitting a term, collecting the products of terms, the simple-pole step and the constructors keep every part.
#include "common.hpp"
static iv symV(const std::string& n, int len, int lo, int hi) { iv r; for (int i = 0; i < len; i++) r.push_back(symI(nm1(n.c_str(), i), lo, hi)); return r; }
static AmiBase::g_struct symG(const char* p, int i, int nf, int ne) { std::string s(p); AmiBase::g_struct g(symV(s + nm("e", i), ne, -2, 2), symV(s + nm("a", i), nf, -1, 1)); g.species_ = symI(s + nm("s", i), 0, 9); return g; }
static AmiBase::pole_struct symQ(const char* p, int i, int nf, int ne) { std::string s(p); AmiBase::pole_struct q(symV(s + nm("e", i), ne, -2, 2), symV(s + nm("a", i), nf, -1, 1)); q.index_ = symI(s + nm("i", i), 0, nf - 1); q.der_ = symI(s + nm("d", i), 0, 3); q.multiplicity_ = symI(s + nm("m", i), 1, 4); q.which_g_.push_back(symI(s + nm("w", i), 0, 5)); return q; }
static AmiBase::term symT(const char* p, int ng, int np, int nf, int ne) { AmiBase::term t; std::string s(p); t.sign = symR(s + "sg"); for (int i = 0; i < ng; i++) t.g_list.push_back(symG((s + "g").c_str(), i, nf, ne)); for (int i = 0; i < np; i++) t.p_list.push_back(symQ((s + "p").c_str(), i, nf, ne)); return t; }
extern "C" void harness() {
  int what = sym_param("what", 0), ng = sym_param("ng", 3), np = sym_param("np", 2), nf = sym_param("nf", 2), ne = sym_param("ne", 1);
  AmiBase ami;
  if (what == 0) {
    AmiBase::term t = symT("t", ng, np, nf, ne), t0 = t, in = symT("x", 1, 1, nf, ne), ac = symT("y", 1, 1, nf, ne);
    AmiBase::pole_struct z; z.index_ = sym_param("idx", 0); z.alpha_.assign(nf, 0); z.eps_.assign(ne, 0);
    ami.split_term(t, z, in, ac);
    sym_check(deep::eq(t, t0), "splitting leaves the term as it was");
    sym_check(in.sign == t0.sign && ac.sign == 1.0, "the sign stays with the inert part");
    size_t a = 0, b = 0; for (int i = 0; i < ng; i++) { if (t0.g_list[i].alpha_[z.index_] == 0) { sym_check(a < in.g_list.size() && deep::eq(in.g_list[a], t0.g_list[i]), "a line without the frequency is in the inert part"); a++; } else { sym_check(b < ac.g_list.size() && deep::eq(ac.g_list[b], t0.g_list[i]), "a line with the frequency is in the active part"); b++; } }
    sym_check(a == in.g_list.size() && b == ac.g_list.size(), "nothing else is in the two parts");
    a = b = 0; for (int i = 0; i < np; i++) { if (t0.p_list[i].alpha_[z.index_] == 0) { sym_check(a < in.p_list.size() && deep::eq(in.p_list[a], t0.p_list[i]), "a factor without the frequency is in the inert part"); a++; } else { sym_check(b < ac.p_list.size() && deep::eq(ac.p_list[b], t0.p_list[i]), "a factor with the frequency is in the active part"); b++; } }
    sym_check(a == in.p_list.size() && b == ac.p_list.size(), "nothing else is in the two parts");
    sym_observe("inert", in.g_list.size() + 10 * in.p_list.size());
  }
  if (what == 1) {   // one step where every pole is simple
    Case c = anyCase(); int k = sym_param("idx", 0); oracle(c, false);
    for (size_t i = 0; i < c.R0.size(); i++) c.R0[i].species_ = (int)i;
    AmiBase::R_t R(k + 1, AmiBase::Ri_t(1, c.R0)), Q; if (sym_param("twice", 0)) R[k].push_back(AmiBase::g_prod_t(c.R0.rbegin(), c.R0.rend())); Q = R;
    AmiBase::P_t P, P1; AmiBase::S_t S, S1; ami.drop_matsubara_poles = false;
    ami.update_gprod_general(k, k, R, P, S);
    for (size_t i = 0; i < P[0].size(); i++) for (size_t j = 0; j < P[0][i].size(); j++) sym_assume(P[0][i][j].multiplicity_ == 1);
    ami.update_gprod_simple(k, Q, P1, S1);
    sym_check(deep::eq(P, P1), "the simple-pole step finds the same poles"); sym_check(deep::eq(S, S1), "the simple-pole step gives the same signs"); sym_check(deep::eq(R, Q), "the simple-pole step leaves the same products");
  }
  if (what == 2) {   // products of a list of terms
    int nt = sym_param("nt", 3); AmiBase::terms T; for (int i = 0; i < nt; i++) T.push_back(symT(nm("t", i).c_str(), (i + ng) % 3, 1, nf, ne));
    AmiBase::terms T0 = T; AmiBase::Ri_t Ri(2, AmiBase::g_prod_t(1, symG("j", 0, nf, ne)));
    ami.convert_terms_to_ri(T, Ri);
    sym_check((int)Ri.size() == nt, "one product per term"); for (int i = 0; i < nt && i < (int)Ri.size(); i++) sym_check(deep::eq(Ri[i], T0[i].g_list), "the products of the terms in order");
    sym_check(deep::eq(T, T0), "the terms stay as they were");
  }
  if (what == 3) {   // constructors
    iv e = symV("e", ne, -100, 100), a = symV("a", nf, -1, 1); AmiBase::stat_type st = (AmiBase::stat_type)symI("st", 0, 1);
    { AmiBase::g_struct g(e, a, st), h(e, a), d; sym_check(deep::eqv(g.eps_, e) & deep::eqv(g.alpha_, a) & (g.stat_ == st) & (g.eff_stat_ == st) & (g.species_ == 0), "a line with statistics keeps its arguments"); sym_check(deep::eqv(h.eps_, e) & deep::eqv(h.alpha_, a) & (h.stat_ == AmiBase::Fermi) & (h.eff_stat_ == AmiBase::Fermi) & (h.species_ == 0), "a line keeps its arguments and is fermionic"); sym_check(d.eps_.empty() && d.alpha_.empty() && d.stat_ == AmiBase::Fermi && d.species_ == 0, "an empty line is fermionic"); }
    { AmiBase::pole_struct p(e, a), d; sym_check(deep::eqv(p.eps_, e) & deep::eqv(p.alpha_, a) & (p.multiplicity_ == 1) & (p.der_ == 0) & p.which_g_.empty(), "a pole keeps its arguments and starts simple"); sym_check(d.eps_.empty() && d.alpha_.empty() && d.multiplicity_ == 1 && d.der_ == 0 && d.which_g_.empty(), "an empty pole is simple"); }
    { double s = symR("s"); AmiBase::g_prod_t g(2, AmiBase::g_struct(e, a)); AmiBase::pole_array_t p(2, AmiBase::pole_struct(e, a)); p[0].index_ = p[1].index_ = 0; AmiBase::term t(s, p, g), d; sym_check((t.sign == s) & deep::eq(t.g_list, g) & deep::eq(t.p_list, p), "a term keeps its arguments"); sym_check(d.sign == 1.0 && d.g_list.empty() && d.p_list.empty(), "an empty term is one"); }
    { AmiBase::energy_t en; AmiBase::frequency_t fr; for (int i = 0; i < ne; i++) en.push_back(cd(symR(nm("x", i)), symR(nm("y", i)))); for (int i = 0; i < nf; i++) fr.push_back(cd(symR(nm("u", i)), symR(nm("v", i)))); double b = symR("b"), f = symR("f");
      AmiBase::ami_vars v0, v2(en, fr), v3(en, fr, b), v4(en, fr, b, f);
      sym_check(v0.prefactor == 1.0 && v0.BETA_ == 0.0 && v0.energy_.empty() && v0.frequency_.empty(), "empty external variables have prefactor one");
      sym_check(deep::eq(v2.energy_, en) & deep::eq(v2.frequency_, fr) & (v2.prefactor == 1.0), "external variables keep energies and frequencies");
      sym_check(deep::eq(v3.energy_, en) & deep::eq(v3.frequency_, fr) & (v3.prefactor == 1.0) & (v3.BETA_ == b), "external variables keep the inverse temperature");
      sym_check(deep::eq(v4.energy_, en) & deep::eq(v4.frequency_, fr) & (v4.prefactor == f) & (v4.BETA_ == b), "external variables keep the prefactor"); }
    { int n = symI("n", 0, 1000); double r = symR("r"); AmiBase::graph_type t = (AmiBase::graph_type)symI("t", 0, 12); AmiBase::int_type q = (AmiBase::int_type)symI("q", 0, 1); AmiBase::disp_type d = (AmiBase::disp_type)symI("d", 0, 2);
      AmiBase::ami_parms p2(n, r), p3(n, r, t), p5(n, r, t, q, d), p0;
      sym_check((p2.N_INT_ == n) & (p2.E_REG_ == r) & (p2.N_EXT_ == 1) & (p2.TYPE_ == AmiBase::Sigma), "parameters keep their arguments and are fermionic by default");
      sym_check((p3.N_INT_ == n) & (p3.E_REG_ == r) & (p3.N_EXT_ == 1) & (p3.TYPE_ == t), "parameters keep the graph type");
      sym_check((p5.N_INT_ == n) & (p5.E_REG_ == r) & (p5.N_EXT_ == 1) & (p5.TYPE_ == t) & (p5.int_type_ == q) & (p5.dispersion_ == d), "parameters keep all arguments");
      sym_check(p0.E_REG_ == 0.0 && p0.N_EXT_ == 1, "empty parameters have no regulator");
      AmiBase x(p3); AmiBase* o[2] = {&ami, &x}; for (int i = 0; i < 2; i++) sym_check(o[i]->drop_matsubara_poles && !o[i]->drop_der && !o[i]->drop_bosonic_diverge && !o[i]->overflow_detected && !o[i]->verbose && !o[i]->bosonic_external && o[i]->precision_cutoff == 1e15, "a new object drops Matsubara poles only and has no overflow"); }
    sym_observe("ne", ne);
  }
}
