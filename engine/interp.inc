// interpreter proper (included by amisym.cpp)
static std::string where(const CI* c) {
  if (!c) return "?"; const DebugLoc& dl = c->I->getDebugLoc();
  if (!dl) return c->I->getFunction()->getName().str();
  const DILocation* l = dl.get(); std::string r;
  for (int k = 0; l && k < 12; k++, l = l->getInlinedAt()) { std::string fn = l->getFilename().str(); size_t q = fn.rfind('/'); r += (k ? " <- " : "") + (q == std::string::npos ? fn : fn.substr(q + 1)) + ":" + std::to_string(l->getLine()); }
  return r;
}
static uint64_t conc(State& s, const Val& v) {
  switch (v.k) {
    case VC: return v.c;
    case VU: perr("uninit", "use of an indeterminate value");
    case VI: case VB: { IE e = asI(v); Val q = simp(s, e); if (q.k == VC) return q.c; auto it = s.conc.find(e); if (it != s.conc.end()) return it->second; throw ForkVal{e}; }
    case VR: if (pIsConst(v.p) && pIsZero(v.p)) return 0; fail("unsupported", "real used as integer");
    default: fail("unsupported", "value used as integer");
  }
}
static bool condOf(State& s, const Val& v) {   // decided condition or ForkCond
  if (v.k == VC) return v.c & 1;
  if (v.k == VU) perr("uninit", "branch on an indeterminate value");
  BE b = asB(v); int d = decide(s, b); if (d == 1) return true; if (d == 2) return false; if (d == 0) throw PathEnd{}; throw ForkCond{b};
}
static PE asP(const Val& v) { if (v.k == VR) return v.p; if (v.k == VC) { if (v.c == 0) return pConst(0); double d; memcpy(&d, &v.c, 8); return pDouble(d); } fail("undef", "real from undefined value"); }
static bool mergeVal(BE c, const Val& a, const Val& b, Val& r, bool fp) {
  if (a == b) { r = a; return true; }
  if (a.k == VU) { r = b; return true; } if (b.k == VU) { r = a; return true; }
  if (a.k == VN || b.k == VN) return false;
  if (a.k == VR || b.k == VR) { if ((a.k != VR && a.k != VC) || (b.k != VR && b.k != VC)) return false; r = vR(pIte(c, asP(a), asP(b))); return true; }
  if (a.k == VG || b.k == VG) { if (a.k != b.k || a.g->v.size() != b.g->v.size()) return false; std::vector<Val> v(a.g->v.size()); for (size_t i = 0; i < v.size(); i++) if (!mergeVal(c, a.g->v[i], b.g->v[i], v[i], fp)) return false; r = vG(std::move(v)); return true; }
  if (a.w != b.w) return false;
  if (a.w == 1) { r = vB(bOr(bAnd(c, asB(a)), bAnd(bNot(c), asB(b)))); return true; }
  if (a.w == 64 && ((a.k == VC && a.c >> 32 && ~a.c >> 32) || (b.k == VC && b.c >> 32 && ~b.c >> 32))) return false;
  r = vI(iIte(c, asI(a), asI(b))); return true;
}
struct Stop { size_t depth; BBInfo* blk; };
static BE conjFrom(const std::vector<BE>& pc, size_t i) { BE r = bConst(true); for (; i < pc.size(); i++) r = bAnd(r, pc[i]); return r; }
static bool mergeObj(BE c, const Obj& A, const Obj& B, Obj& R, int& budget) {
  if (A.size != B.size) return false;
  for (uint32_t o = 0; o < A.size;) {
    uint8_t ta = A.t[o], tb = B.t[o];
    bool ca = ta & T_CELL, cb = tb & T_CELL;
    if (ta == tb && !ca && !(ta & T_CELLCONT) && A.d[o] == B.d[o]) { o++; continue; }
    if (ca && cb && ta == tb && A.cells.at(o) == B.cells.at(o)) { o += 1u << (ta & 7); continue; }
    uint32_t sz = 1; bool fp = false;
    if (ta & (T_CELL | T_RAW)) { sz = 1u << (ta & 7); fp |= ta & T_FP; }
    if (tb & (T_CELL | T_RAW)) { uint32_t q = 1u << (tb & 7); if (q != sz && (ta & (T_CELL | T_RAW))) { if (ta == T_RAW || tb == T_RAW) sz = std::max(sz, q); else return false; } else sz = q; fp |= tb & T_FP; }
    if (!(ta & (T_CELL | T_RAW)) && !(tb & (T_CELL | T_RAW))) {
      if (ta == T_CONT && tb == T_CONT) { // value differs inside a scalar: step back to its start
        uint32_t q = o; while (q > 0 && A.t[q] == T_CONT) q--; if (!(A.t[q] & T_RAW) || A.t[q] != B.t[q]) return false; sz = 1u << (A.t[q] & 7); fp = A.t[q] & T_FP; o = q;
      } else if (ta == 0 || tb == 0) { const Obj& S = ta ? A : B; if (S.t[o] & (T_CELLCONT)) return false; R.t[o] = S.t[o]; R.d[o] = S.d[o]; o++; continue; }
      else return false;
    }
    if (o + sz > A.size) return false;
    auto get = [&](const Obj& X, Val& v) {
      if (X.t[o] & T_CELL) { if ((1u << (X.t[o] & 7)) != sz) return false; v = X.cells.at(o); return true; }
      bool un = true, all = true; for (uint32_t i = 0; i < sz; i++) { if (X.t[o + i] & (T_CELL | T_CELLCONT)) return false; if (X.t[o + i]) un = false; else all = false; }
      if (un) { v = Val(); return true; } if (!all || sz > 8) return false;
      uint64_t b = 0; for (uint32_t i = 0; i < sz; i++) b |= (uint64_t)X.d[o + i] << (8 * i);
      if (fp && sz == 8) { double d; memcpy(&d, &b, 8); v = vD(d); } else if (fp && b == 0) v = vR(pConst(0)); else if (fp) return false; else v = vC(b, sz * 8); return true; };
    Val a, b, r; if (!get(A, a) || !get(B, b)) return false;
    if (--budget < 0) return false;
    if (a.k == VB) a = vI(iExt(I_ZEXT, asI(a), sz * 8)); if (b.k == VB) b = vI(iExt(I_ZEXT, asI(b), sz * 8));
    if (!mergeVal(c, a, b, r, fp)) return false;
    uint8_t tag = (uint8_t)(lg(sz) | (fp ? T_FP : 0));
    for (uint32_t i = 0; i < sz; i++) R.cells.erase(o + i);
    if (r.k == VC || (r.k == VR && pIsConst(r.p) && sz == 8 && mpq_class(pConstVal(r.p).get_d()) == pConstVal(r.p))) {
      uint64_t bits = r.c; if (r.k == VR) { double d = pConstVal(r.p).get_d(); memcpy(&bits, &d, 8); }
      for (uint32_t i = 0; i < sz; i++) { R.d[o + i] = bits >> (8 * i); R.t[o + i] = i ? T_CONT : (T_RAW | tag); }
    } else if (r.k == VU) for (uint32_t i = 0; i < sz; i++) R.t[o + i] = 0;
    else { R.cells[o] = r; for (uint32_t i = 0; i < sz; i++) R.t[o + i] = i ? T_CELLCONT : (T_CELL | tag); }
    o += sz;
  }
  return true;
}
static SP tryMerge(const State& A, const State& B) {
  if (A.st.size() != B.st.size() || A.obs.size() != B.obs.size()) return nullptr;
  const Frame &fa = A.st.back(), &fb = B.st.back();
  if (fa.bb != fb.bb || fa.ip != fb.ip) return nullptr;
  // memory shape
  size_t nch = std::max(A.mem.ch.size(), B.mem.ch.size());
  std::vector<uint32_t> diff;
  for (size_t k = 0; k < nch; k++) {
    Chunk* x = k < A.mem.ch.size() ? A.mem.ch[k].get() : nullptr; Chunk* y = k < B.mem.ch.size() ? B.mem.ch[k].get() : nullptr;
    if (x == y) continue;
    for (int i = 0; i < CH; i++) { Obj* p = x ? x->o[i].get() : nullptr; Obj* q = y ? y->o[i].get() : nullptr; if (p == q) continue; if (!p || !q || p->size != q->size) return nullptr; diff.push_back(k * CH + i); }
  }
  if (diff.size() > 64) return nullptr;
  analyse(fa.f);
  bool atEntry = fa.ip == 0;
  int intDiff = 0;
  for (size_t i = 0; i < fa.r.size(); i++) if (!(fa.r[i] == fb.r[i])) {
    if (atEntry && !fa.bb->live[i]) continue;
    const Val &a = fa.r[i], &b = fb.r[i]; if (a.k == VN || b.k == VN) return nullptr;
    if (a.w == 64 && a.k == VC && b.k == VC && (((a.c >> 32) && (~a.c >> 32)) || ((b.c >> 32) && (~b.c >> 32)))) return nullptr;
    if (a.w > 1 && a.k != VR && a.k != VG && ++intDiff > 4) return nullptr;
  }
  size_t L = 0; while (L < A.pc.size() && L < B.pc.size() && A.pc[L] == B.pc[L]) L++;
  BE ca = conjFrom(A.pc, L), cb = conjFrom(B.pc, L);
  auto R = std::make_unique<State>(A);
  int budget = 64;
  for (uint32_t id : diff) { Obj* o = R->mem.wr(id); Obj res = *o; if (!mergeObj(ca, *A.mem.get(id), *B.mem.get(id), res, budget)) return nullptr; *o = res; }
  Frame& fr = R->st.back();
  for (size_t i = 0; i < fr.r.size(); i++) if (!(fa.r[i] == fb.r[i])) { if (atEntry && !fa.bb->live[i]) { fr.r[i] = Val(); continue; } Val r; if (!mergeVal(ca, fa.r[i], fb.r[i], r, false)) return nullptr; fr.r[i] = r; }
  for (size_t i = 0; i < R->obs.size(); i++) { if (A.obs[i].first != B.obs[i].first) return nullptr; Val r; if (!mergeVal(ca, A.obs[i].second, B.obs[i].second, r, true)) return nullptr; R->obs[i].second = r; }
  if (fa.allocas != fb.allocas) return nullptr;
  R->mem.next = std::max(A.mem.next, B.mem.next);
  R->pc.resize(L); BE d = bOr(ca, cb);
  if (d->op != B_TRUE) { bool dup = false; for (BE y : R->pc) if (y == d) dup = true; if (!dup) R->pc.push_back(d); }
  for (size_t i = 0; i < g_ivars.size(); i++) { uint64_t x = i < A.dom.size() ? A.dom[i] : (domSmall(i) ? fullDom(i) : 0), y = i < B.dom.size() ? B.dom[i] : (domSmall(i) ? fullDom(i) : 0); domOf(*R, i) = x | y; }
  std::map<IE, uint64_t> cm; for (auto& x : A.conc) { auto it = B.conc.find(x.first); if (it != B.conc.end() && it->second == x.second) cm.insert(x); } R->conc = cm;
  nMerges++;
  return R;
}
static int mergeAll(std::vector<SP>& v) {
  int done = 0;
  for (size_t i = 0; i < v.size(); i++)
    for (size_t j = i + 1; j < v.size() && j < i + 1 + 40; ) {
      SP m; try { m = tryMerge(*v[i], *v[j]); } catch (EngineError&) { m = nullptr; }
      if (m) { v[i] = std::move(m); v.erase(v.begin() + j); done++; } else j++;
    }
  return done;
}

// ------------------------------------------------------------------ witnesses and checks
static std::mt19937_64 rng;
static std::string dstr(long double d) { char b[64]; snprintf(b, sizeof b, "%.17g", (double)d); return b; }
struct LinSub { std::vector<std::pair<int, PE>> sub; };  // solved real equalities
static void linearSubs(State& s, Subst& S, std::vector<std::pair<int, PE>>* order) {
  for (BE b : s.pc) if (b->op == B_RCMP && b->pred == R_EQ) {
    PE p; try { S.memo.clear(); S.amemo.clear(); p = pSubst(b->p, S); } catch (EngineError&) { continue; }
    mpq_class c0; int mono; PE prim; if (p->t.empty()) continue; pPrim(p, c0, mono, prim);
    if (pIsConst(prim)) { // a product of atoms is zero: decided when only one of them can vanish
      int x = -1; bool many = false; for (auto& f : g_monos[mono].f) if (!g_atoms[f.first].pos && f.second > 0) { if (x >= 0) many = true; x = f.first; }
      if (x < 0 || many || g_atoms[x].kind != A_VAR) continue;
      PE z = pConst(0); Subst one; one.at[x] = z; for (auto& e : S.at) e.second = pSubst(e.second, one); S.at[x] = z;
      if (order) { for (auto& e : *order) e.second = pSubst(e.second, one); order->push_back({x, z}); }
      continue; }
    p = prim;
    auto put = [&](int x, PE sol) { Subst one; one.at[x] = sol; for (auto& e : S.at) e.second = pSubst(e.second, one); S.at[x] = sol; if (order) { for (auto& e : *order) e.second = pSubst(e.second, one); order->push_back({x, sol}); } };
    // solutions with integer coefficients keep exponentials over one basis
    int bx = -1, bcost = 0; PE bsol = nullptr;
    for (auto& t : p->t) { auto f = g_monos[t.first].f; if (f.size() != 1 || f[0].second != 1 || g_atoms[f[0].first].kind != A_VAR) continue;
      int x = f[0].first; PE rest = pSub(p, pMono(t.first, t.second)); std::set<int> at; polyAtoms(rest, at, true); if (at.count(x)) continue;
      PE sol = pScale(rest, mpq_class(-1) / t.second); int cost = 1; for (auto& u : sol->t) if (u.second.get_den() != 1) cost++;
      if (bx < 0 || cost < bcost) { bx = x; bcost = cost; bsol = sol; if (cost == 1) break; } }
    if (bx < 0) continue;
    if (bcost > 1) { // rescale the other variables: y = L*y'
      mpz_class L = 1; for (auto& u : bsol->t) L = lcm(L, u.second.get_den());
      std::vector<std::pair<int, PE>> rs; for (auto& u : bsol->t) { auto f = g_monos[u.first].f; if (u.second.get_den() != 1 && f.size() == 1 && f[0].second == 1 && g_atoms[f[0].first].kind == A_VAR) { int y = f[0].first; rs.push_back({y, pScale(pVar(g_atoms[y].name + "'" + L.get_str(), g_atoms[y].pos), mpq_class(L))}); } }
      for (auto& r : rs) { put(r.first, r.second); Subst one; one.at[r.first] = r.second; bsol = pSubst(bsol, one); } }
    put(bx, bsol);
  }
  S.memo.clear(); S.amemo.clear();
}
static bool sampleInts(State& s, NumEnv& env, int tryno) {
  for (size_t v = 0; v < g_ivars.size(); v++) {
    if (domSmall(v)) { uint64_t d = domOf(s, v); if (!d) return false; int n = __builtin_popcountll(d), k = rng() % n; for (int i = 0; i < 64; i++) if (d >> i & 1) { if (k-- == 0) { env.ints[v] = g_ivars[v].lo + i; break; } } }
    else env.ints[v] = g_ivars[v].lo + (int64_t)(rng() % (uint64_t)((int64_t)g_ivars[v].hi - g_ivars[v].lo + 1));
  }
  return true;
}
static void sampleReals(NumEnv& env, int mode) {
  std::uniform_real_distribution<double> U(0, 1);
  for (size_t i = 0; i < g_atoms.size(); i++) if (g_atoms[i].kind == A_VAR) {
    double u = U(rng), v = g_atoms[i].pos ? 0.4 + 1.8 * u : -2.5 + 5 * u;
    if (mode == 1) v = std::round(v * 4) / 4; if (mode == 2) v *= 4; if (mode == 3) v *= 0.2; if (g_atoms[i].pos && v <= 0) v = 0.5;
    v = std::round(v * 4096) / 4096; if (v == 0 && g_atoms[i].pos) v = 0.25; env.real[i] = v;
  }
}
static bool pcHolds(State& s, NumEnv& env) { env.bad = false; for (BE b : s.pc) if (!numB(b, env) ) return false; return !env.bad; }
static std::map<std::string, std::string> modelMap(NumEnv& env) {
  std::map<std::string, std::string> m;
  for (auto& x : env.ints) m[g_ivars[x.first].name] = std::to_string(x.second);
  for (auto& x : env.real) if (g_atoms[x.first].kind == A_VAR) m[g_atoms[x.first].name] = dstr(x.second);
  return m;
}
// sample assignments satisfying the path condition (and cond), scored; returns the best few
struct Wit { long double score; NumEnv env; };
static std::vector<Wit> findWitnesses(State& s, PE diff, BE notCond, int tries, size_t keep) {
  std::vector<Wit> out; Subst S; std::vector<std::pair<int, PE>> ord; linearSubs(s, S, &ord);
  Model zm; bool zmInt = false;
  std::vector<BE> ints; for (BE b : s.pc) if (!b->hasReal && b->vars.size() > 1) ints.push_back(b);
  for (int k = 0; k < tries; k++) {
    NumEnv env; if (!sampleInts(s, env, k)) return out;
    bool iok = true; for (BE b : ints) if (!numB(b, env)) { iok = false; break; }
    if (!iok) { if (!zmInt && k > 20) { zmInt = true; std::vector<BE> q; for (BE b : s.pc) if (!b->hasReal) q.push_back(b); if (notCond && !notCond->hasReal) q.push_back(notCond); if (solveConj(q, false, 5000, &zm) != R_SAT) zm.ints.clear(); } if (zm.ints.empty()) continue; for (auto& x : zm.ints) env.ints[x.first] = x.second; }
    sampleReals(env, k % 4);
    for (auto& x : ord) { env.amemo.clear(); env.bad = false; long double v = numPoly(x.second, env); env.real[x.first] = v; }
    env.amemo.clear(); env.bad = false;
    // equalities solved above are allowed a rounding error: drop them from the test
    bool ok = true; for (BE b : s.pc) { if (b->op == B_RCMP && b->pred == R_EQ && !ord.empty()) { if (fabsl(numPoly(b->p, env)) > 1e-9) ok = false; } else if (!numB(b, env)) ok = false; if (!ok) break; }
    if (!ok || env.bad) continue;
    long double sc = 1;
    if (notCond) { if (!numB(notCond, env)) continue; }
    if (diff) {
      env.bad = false; long double d = 0, sum = 0; for (auto& t : diff->t) { long double v = numPoly(pMono(t.first, t.second), env); d += v; sum += fabsl(v); }
      if (env.bad || !std::isfinite((double)d) || !std::isfinite((double)sum)) continue;
      if (fabsl(d) < 1e-9 || fabsl(d) < 1e-9 * sum) continue;
      long double mag = 0; for (auto& x : env.amemo) if (fabsl(x.second) > 1e6) mag += 1;
      sc = fabsl(d) / (1 + 100 * mag) / (1 + 0.01L * sum / fabsl(d)); }
    else { long double mag = 0; for (auto& x : env.amemo) if (fabsl(x.second) > 1e6) mag++; sc = 1 / (1 + mag); }
    out.push_back({sc, env});
    if (!diff && out.size() >= keep) break;
  }
  std::sort(out.begin(), out.end(), [](const Wit& a, const Wit& b) { return a.score > b.score; });
  if (out.size() > keep) out.resize(keep); return out;
}
static void addViolation(State& s, const std::string& kind, const std::string& msg, const CI* c, const std::vector<std::map<std::string, std::string>>& models, const std::string& detail) {
  int same = 0; for (auto& v : viols) if (v.msg == msg && v.kind == kind) same++;
  checks[msg].viol++;
  if (same >= maxViol) return;
  Violation v; v.msg = msg; v.kind = kind; v.where = where(c); v.models = models; v.detail = detail; viols.push_back(v);
}
static std::map<std::string, std::string> modelToMap(const Model& m) { NumEnv e; for (auto& x : m.ints) e.ints[x.first] = x.second; for (auto& x : m.reals) e.real[x.first] = x.second; return modelMap(e); }
// try to find models of pc && extra, report; returns 1 violation, 0 refuted (unsat), -1 unknown
static int refute(State& s, BE bad, std::vector<std::map<std::string, std::string>>& models) {
  std::vector<BE> q = s.pc; if (bad) q.push_back(bad);
  bool real = false; for (BE b : q) real |= b->hasReal;
  Model m; Res r = solveConj(q, false, 10000, &m);
  if (r == R_UNSAT) return 0;
  if (!real) { if (r == R_SAT) { NumEnv e; sampleReals(e, 1); for (auto& x : m.ints) e.ints[x.first] = x.second; models.push_back(modelMap(e)); for (auto& w : findWitnesses(s, nullptr, bad, 60, 3)) models.push_back(modelMap(w.env)); return 1; } return -1; }
  for (auto& w : findWitnesses(s, nullptr, bad, 400, 4)) models.push_back(modelMap(w.env));
  if (!models.empty()) return 1;
  Model m2; Res r2 = solveConj(q, true, 8000, &m2);
  if (r2 == R_UNSAT) return 0;
  if (r2 == R_SAT) { NumEnv e; sampleReals(e, 1); for (auto& x : m2.ints) e.ints[x.first] = x.second; for (auto& x : m2.reals) e.real[x.first] = x.second; models.push_back(modelMap(e)); return 1; }
  if (r == R_SAT && m.hasReals) { NumEnv e; sampleReals(e, 1); for (auto& x : m.ints) e.ints[x.first] = x.second; for (auto& x : m.reals) e.real[x.first] = x.second; models.push_back(modelMap(e)); }
  return -1;
}
static void doCheck(State& s, const Val& cv, const std::string& msg, const CI* c) {
  CheckStat& st = checks[msg]; st.reached++;
  if (cv.k == VU) { std::vector<std::map<std::string, std::string>> ms; if (refute(s, nullptr, ms) != 0) addViolation(s, "check", msg, c, ms, "condition depends on an indeterminate value"); throw PathEnd{}; }
  BE b = asB(cv); BE sb = simpB(s, b);
  if (sb->op == B_TRUE) { st.ident++; return; }
  int d = decide(s, sb);
  if (d == 1) { st.smt++; return; }
  if (d == 0) throw PathEnd{};
  std::vector<std::map<std::string, std::string>> ms; int r = refute(s, bNot(sb), ms);
  if (r == 0) { st.smt++; return; }
  if (r == 1) addViolation(s, "check", msg, c, ms, bStr(sb).substr(0, 400)); else if (!ms.empty()) addViolation(s, "check", msg, c, ms, "solver undecided; candidate"); else { st.inconcl++; if (inconclusive.size() < 20) inconclusive.push_back(msg + " at " + where(c)); }
  if (d == 2) throw PathEnd{};
  assume(s, sb);
}
static long splitBudget;
static BE bSimplify(State& s, BE b, std::unordered_map<int, BE>& memo) {
  auto it = memo.find(b->id); if (it != memo.end()) return it->second; BE r = b;
  switch (b->op) {
    case B_NOT: r = bNot(bSimplify(s, b->a, memo)); break;
    case B_AND: r = bAnd(bSimplify(s, b->a, memo), bSimplify(s, b->b, memo)); break;
    case B_OR: r = bOr(bSimplify(s, b->a, memo), bSimplify(s, b->b, memo)); break;
    case B_ICMP: case B_RCMP: {
      BE nb = bNot(b); for (BE x : s.pc) { if (x == b) { r = bConst(true); break; } if (x == nb) { r = bConst(false); break; } }
      if (r == b && !b->hasReal) { bool comp; int e = enumB(s, b, 512, &comp); if (comp && e == 1) r = bConst(true); else if (comp && e == 2) r = bConst(false); }
      break; }
    default: break;
  }
  memo[b->id] = r; return r;
}
static BE firstLit(BE b) { if (b->op == B_NOT) return firstLit(b->a); if (b->op == B_AND || b->op == B_OR) { BE x = firstLit(b->a); return x ? x : firstLit(b->b); } return b->op == B_ICMP || b->op == B_RCMP ? b : nullptr; }
static bool hasRealEq(BE b, bool pos) { switch (b->op) { case B_NOT: return hasRealEq(b->a, !pos); case B_AND: case B_OR: return hasRealEq(b->a, pos) || hasRealEq(b->b, pos); case B_RCMP: return b->pred == R_EQ && pos; default: return false; } }
// 1 proven zero, 0 refuted (witness in s / models), -1 unknown
static int proveZero(State& s, PE d, std::vector<std::map<std::string, std::string>>& models, bool& usedSolver, int depth) {
  if (d->t.empty()) return 1;
  if (--splitBudget < 0) return -1;
  Subst S; std::unordered_map<int, BE> bm;
  // disjunctions of equalities (merged paths) are decided case by case
  for (BE b : s.pc) if ((b->op == B_OR || (b->op == B_NOT && b->a->op == B_AND)) && hasRealEq(b, true)) {
    BE x = bSimplify(s, b, bm); if (x->op == B_TRUE) continue; if (x->op == B_FALSE) return 1;
    BE lit = firstLit(x); if (!lit) continue; bool unknown = false;
    for (int v = 0; v < 2; v++) { State t; t.pc = s.pc; t.dom = s.dom; BE l = v ? bNot(lit) : lit; int dd = decide(t, l); usedSolver = true; if (dd == 2 || dd == 0) continue; assume(t, l);
      std::unordered_map<int, BE> tm; BE y = bSimplify(t, b, tm); if (y->op == B_FALSE) continue; if (y->op != B_TRUE && y->op != B_OR) assume(t, y);
      int r = proveZero(t, d, models, usedSolver, depth + 1); if (r == 0) return 0; if (r < 0) unknown = true; }
    return unknown ? -1 : 1;
  }
  for (size_t v = 0; v < g_ivars.size(); v++) if (domSmall(v)) { uint64_t q = domOf(s, v); if (q && !(q & (q - 1))) { PE iv = pIVar(v); S.at[g_monos[iv->t[0].first].f[0].first] = pConst(g_ivars[v].lo + __builtin_ctzll(q)); } }
  S.bs = [&](BE b) { return bSimplify(s, b, bm); };
  S.domRed = [&](int atom) { int v = g_atoms[atom].ivar; if (!domSmall(v)) return 0; bool m1 = false, p1 = false, z = false, other = false; uint64_t q = domOf(s, v); for (int k = 0; k < 64; k++) if (q >> k & 1) { int x = g_ivars[v].lo + k; if (x == 1) p1 = true; else if (x == -1) m1 = true; else if (x == 0) z = true; else other = true; } if (other) return 0; if (!z) return 1; if (!m1) return 2; return 3; };
  linearSubs(s, S, nullptr);
  PE q; try { q = pSubst(d, S); } catch (EngineError& e) { if (e.kind != "div0") throw; for (auto& w : findWitnesses(s, nullptr, nullptr, 100, 3)) models.push_back(modelMap(w.env)); if (!models.empty()) return 0; usedSolver = true; std::vector<std::map<std::string, std::string>> ms; return refute(s, nullptr, ms) == 0 ? 1 : -1; }
  if (q->t.empty()) return 1;
  // quick numeric look for a difference
  auto ws = findWitnesses(s, q, nullptr, depth ? 12 : 40, 4);
  if (!ws.empty() && ws[0].score > 1e-7) { for (auto& w : findWitnesses(s, d, nullptr, 200, 5)) models.push_back(modelMap(w.env)); if (!models.empty()) return 0; }
  std::set<int> at; polyAtoms(q, at, true);
  for (int pass = 0; pass < 2; pass++) for (int a : at) {
    BE lit = nullptr; if (pass == 0 && g_atoms[a].kind == A_IND) lit = firstLit(g_atoms[a].c); if (pass == 1 && g_atoms[a].kind == A_ABS) lit = bRCmp(R_LT, g_atoms[a].p);
    if (!lit || lit->op <= B_FALSE) continue;
    bool unknown = false;
    for (int v = 0; v < 2; v++) {
      State t; t.pc = s.pc; t.dom = s.dom; BE l = v ? bNot(lit) : lit; int dd = decide(t, l); usedSolver = true; if (dd == 2 || dd == 0) continue; assume(t, l);
      PE qq = q; if (pass == 1) { Subst A; A.at[a] = v ? g_atoms[a].p : pNeg(g_atoms[a].p); qq = pSubst(q, A); }
      int r = proveZero(t, qq, models, usedSolver, depth + 1); if (r == 0) return 0; if (r < 0) unknown = true;
    }
    return unknown ? -1 : 1;
  }
  bool ok; PE n = pNumer(q, 200000, ok);
  if (ok && n->t.empty()) return 1;
  for (int a : at) if (g_atoms[a].kind == A_IVAR && domSmall(g_atoms[a].ivar)) {
    int v = g_atoms[a].ivar; uint64_t dm = domOf(s, v); bool unknown = false;
    for (int k = 0; k < 64; k++) if (dm >> k & 1) { State t; t.pc = s.pc; t.dom = s.dom; BE l = bICmp(P_EQ, iVar(v), iConst((uint64_t)(int64_t)(g_ivars[v].lo + k), 32)); int dd = decide(t, l); usedSolver = true; if (dd == 2 || dd == 0) continue; assume(t, l); int r = proveZero(t, q, models, usedSolver, depth + 1); if (r == 0) return 0; if (r < 0) unknown = true; }
    return unknown ? -1 : 1;
  }
  usedSolver = true; Model m; PE target = ok ? n : q; if (target->t.size() > 3000) return -1;
  Res r = solveNonZero(s.pc, target, true, 15000, &m);
  if (r == R_UNSAT) return 1;
  for (auto& w : findWitnesses(s, d, nullptr, 2000, 5)) models.push_back(modelMap(w.env));
  if (!models.empty()) return 0;
  if (r == R_SAT) { models.push_back(modelToMap(m)); return 0; }
  return -1;
}
static void doCheckEq(State& s, const Val& a, const Val& b, const std::string& msg, const CI* c) {
  CheckStat& st = checks[msg]; st.reached++;
  if (a.k == VU || b.k == VU || a.k == VN || b.k == VN) {
    std::vector<std::map<std::string, std::string>> ms; for (auto& w : findWitnesses(s, nullptr, nullptr, 200, 4)) ms.push_back(modelMap(w.env));
    if (ms.empty()) { if (refute(s, nullptr, ms) == 0) throw PathEnd{}; }
    addViolation(s, "check", msg, c, ms, (a.k == VU || b.k == VU) ? "indeterminate value" : "non-finite value"); throw PathEnd{};
  }
  PE d = pSub(asP(a), asP(b));
  if (d->t.empty()) { // both sides have the same normal form; z3 discharges the remaining pc && lhs != rhs
    PE l = asP(a), r = asP(b); if (l->t.size() <= 2000 && solveDiffer(s.pc, l, r, 4000) == R_UNSAT) st.smt++; else st.ident++; return; }
  std::vector<std::map<std::string, std::string>> ms; splitBudget = 3000; bool us = false;
  int r = proveZero(s, d, ms, us, 0);
  if (r == 1) { (us ? st.smt : st.ident)++; return; }
  if (r == 0) { addViolation(s, "check", msg, c, ms, "difference: " + pStr(d, 6).substr(0, 800)); return; }
  st.inconcl++; if (inconclusive.size() < 20) inconclusive.push_back(msg + " at " + where(c) + " difference " + pStr(d, 4).substr(0, 600));
}
static void finishPath(State& s) {
  nPaths++;
  if ((int)traces.size() < wantTraces && !s.obs.empty()) {
    auto ws = findWitnesses(s, nullptr, nullptr, 60, 1); if (ws.empty()) return;
    std::ostringstream os; os << "{\"model\":{"; bool f = true; for (auto& x : modelMap(ws[0].env)) { os << (f ? "" : ",") << "\"" << x.first << "\":\"" << x.second << "\""; f = false; } os << "},\"obs\":["; f = true;
    for (auto& o : s.obs) { NumEnv& e = ws[0].env; e.bad = false; long double v; if (o.second.k == VR) v = numPoly(o.second.p, e); else if (o.second.k == VN) v = o.second.d; else if (o.second.k == VC || o.second.k == VI || o.second.k == VB) v = sx(numI(asI(o.second), e), o.second.w); else return; if (e.bad) return; long double mag = fabsl(v); if (o.second.k == VR) { mag = 0; for (auto& t : o.second.p->t) mag += fabsl(numPoly(pMono(t.first, t.second), e)); } os << (f ? "" : ",") << "[\"" << o.first << "\",\"" << dstr(v) << "\",\"" << dstr(mag) << "\"]"; f = false; }
    os << "]}"; traces.push_back(os.str());
  }
}

// ------------------------------------------------------------------ builtins
static std::string cstr(State& s, uint64_t a) { std::string r; for (int i = 0; i < 300; i++) { Val v = memLoad(s.mem, a + i, 1, nullptr); if (v.k != VC || !v.c) break; r += (char)v.c; } return r; }
static Val cplx(PE re, PE im) { return vG({vR(re), vR(im)}); }
static bool concreteD(const Val& v, double& d) { if (v.k == VN) { d = v.d; return true; } if (v.k == VR && pIsConst(v.p)) { d = pConstVal(v.p).get_d(); return true; } if (v.k == VC && v.c == 0) { d = 0; return true; } return false; }
static Val fbin(unsigned op, const Val& a, const Val& b) {
  if (a.k == VU || b.k == VU) return Val();
  if (a.k == VN || b.k == VN) {
    double x, y; bool cx = concreteD(a, x), cy = concreteD(b, y);
    if (cx && cy) { double r = op == Instruction::FAdd ? x + y : op == Instruction::FSub ? x - y : op == Instruction::FMul ? x * y : x / y; return vD(r); }
    if (op == Instruction::FDiv && b.k == VN && std::isinf(b.d)) return vR(pConst(0));
    if ((op == Instruction::FAdd || op == Instruction::FSub)) { double r = a.k == VN ? a.d : (op == Instruction::FSub ? -b.d : b.d); return vN(r); }
    return vN(NAN);
  }
  PE x = asP(a), y = asP(b);
  switch (op) {
    case Instruction::FAdd: return vR(pAdd(x, y)); case Instruction::FSub: return vR(pSub(x, y)); case Instruction::FMul: return vR(pMul(x, y));
    case Instruction::FDiv: if (pIsZero(y)) { if (pIsConst(x) && !pIsZero(x)) return vN(sgn(pConstVal(x)) > 0 ? INFINITY : -INFINITY); return vN(pIsZero(x) ? NAN : INFINITY); } return vR(pMul(x, pInv(y)));
    default: fail("unsupported", "frem");
  }
}
static PE realPow(State& s, PE x, PE y) {
  if (pIsConst(y)) {
    mpq_class q = pConstVal(y); if (q.get_den() == 1) { long e = q.get_num().get_si(); if (std::labs(e) > 200) fail("unsupported", "pow exponent"); if (pIsZero(x)) { if (e > 0) return pConst(0); if (e == 0) return pConst(1); perr("nonfinite", "pow(0, negative)"); } return pPowInt(x, e); }
    if (q.get_den() == 2) { PE r = pSqrt(x); long e = q.get_num().get_si(); return pPowInt(r, e); }
    fail("unsupported", "pow with fractional exponent");
  }
  auto it = g_fromInt.find(y);
  if (it != g_fromInt.end()) {
    if (pIsConst(x) && pConstVal(x) == -1) return pIte(bICmp(P_EQ, iBin(I_AND, it->second, iConst(1, it->second->w)), iConst(0, it->second->w)), pConst(1), pConst(-1));
    if (pIsConst(x) && pConstVal(x) == 1) return pConst(1);
    uint64_t v = conc(s, vI(it->second)); return pPowInt(x, sx(v, it->second->w));
  }
  // an exponent built from indicators: split
  std::set<int> at; polyAtoms(y, at, true); for (int a : at) if (g_atoms[a].kind == A_IND) { BE b = g_atoms[a].c; int d = decide(s, b); if (d == 3) throw ForkCond{b}; Subst S; S.at[a] = pConst(d == 1 ? 1 : 0); return realPow(s, x, pSubst(y, S)); }
  for (int a : at) if (g_atoms[a].kind == A_IVAR) { uint64_t v = conc(s, vI(iVar(g_atoms[a].ivar))); Subst S; S.at[a] = pConst((long)sx(v, 32)); return realPow(s, x, pSubst(y, S)); }
  if (pIsConst(x) && pConstVal(x) > 0) return pExp(pMul(y, pLog(x)));
  fail("unsupported", "pow with symbolic exponent");
}
static Val cdiv(PE a, PE b, PE c, PE d) {
  if (pIsZero(d)) { if (pIsZero(c)) { return vG({vN(pIsZero(a) ? NAN : INFINITY), vN(NAN)}); } PE i = pInv(c); return cplx(pMul(a, i), pMul(b, i)); }
  if (pIsZero(c)) { PE i = pInv(d); return cplx(pMul(b, i), pNeg(pMul(a, i))); }
  PE i = pInv(pAdd(pMul(c, c), pMul(d, d)));
  return cplx(pMul(pAdd(pMul(a, c), pMul(b, d)), i), pMul(pSub(pMul(b, c), pMul(a, d)), i));
}
static void bind(State& s, int dst, const Val& v) { if (dst >= 0) s.st.back().r[dst] = v; }
static bool anyN(const std::vector<Val>& a) { for (auto& v : a) if (v.k == VN || v.k == VU) return true; return false; }
// ---- --ieee: the non-finite values of double arithmetic (rounding stays exact)
// A real result beyond the largest double becomes an infinity, one below the smallest a zero; exp leaves the exact
// range at its overflow and underflow arguments.  Every such boundary is a fork of the path, decided over the exact reals.
static bool ieeeB(State& s, BE b) {
  if (b->op == B_TRUE) return true; if (b->op == B_FALSE) return false;
  BE nb = bNot(b); for (BE x : s.pc) { if (x == b) return true; if (x == nb) return false; }
  static std::map<std::vector<BE>, int> memo; std::vector<BE> q = s.pc; q.push_back(b);
  auto it = memo.find(q); int r;
  if (it != memo.end()) r = it->second;
  else {
    std::vector<BE> key = q; r = 0;
    auto num = [&](const std::vector<BE>& c) { for (auto& m : rmodels) { completeEnv(*m); m->bad = false; m->amemo.clear(); bool ok = true; for (size_t i = c.size(); i-- > 0 && ok;) ok = numB(c[i], *m) && !m->bad; m->bad = false; if (ok) return true; } return false; };
    auto sat = [&](const std::vector<BE>& c) { if (num(c)) return true; if (solveConj(c, false, 500, nullptr) == R_UNSAT) return false; return solveConj(c, true, 3000, nullptr) != R_UNSAT; };
    if (sat(q)) r |= 1; q.back() = nb; if (sat(q)) r |= 2; memo[key] = r;
  }
  if (r == 0) throw PathEnd{}; if (r == 3) throw ForkCond{b}; return r == 1;
}
static PE ieeeMax() { static PE p = pDouble(1.7976931348623157e308); return p; }
static Val ieeeClamp(State& s, Val v) {
  if (!ieeeOn || v.k != VR) return v;
  if (pIsConst(v.p)) { mpq_class q = pConstVal(v.p); if (q > pConstVal(ieeeMax())) return vN(INFINITY); if (-q > pConstVal(ieeeMax())) return vN(-INFINITY); return v; }
  if (v.p->t.size() == 1 && g_monos[v.p->t[0].first].f.size() == 1) { auto& f = g_monos[v.p->t[0].first].f[0]; if (f.second == 1 && g_atoms[f.first].kind == A_VAR && abs(v.p->t[0].second) == 1) return v; }
  if (ieeeB(s, bRCmp(R_LT, pSub(ieeeMax(), v.p)))) return vN(INFINITY);
  if (ieeeB(s, bRCmp(R_LT, pAdd(v.p, ieeeMax())))) return vN(-INFINITY);
  return v;
}
static int ieeeSign(State& s, const Val& v) { if (v.k == VN) return v.d > 0 ? 1 : v.d < 0 ? -1 : 0; PE p = asP(v); if (pIsConst(p)) return sgn(pConstVal(p)); if (ieeeB(s, bRCmp(R_LT, p))) return -1; if (ieeeB(s, bRCmp(R_LT, pNeg(p)))) return 1; return 0; }
static Val ieeeBin(State& s, unsigned op, const Val& a, const Val& b) {
  if (a.k == VU || b.k == VU) return Val();
  double x, y;
  if ((a.k == VN || b.k == VN) && !(concreteD(a, x) && concreteD(b, y))) {
    if ((a.k == VN && std::isnan(a.d)) || (b.k == VN && std::isnan(b.d))) return vN(NAN);
    if (op == Instruction::FMul) { int g = ieeeSign(s, a) * ieeeSign(s, b); return g ? vN(g > 0 ? INFINITY : -INFINITY) : vN(NAN); }
    if (op == Instruction::FDiv && a.k == VN) { int g = ieeeSign(s, b); return vN((g < 0 ? -1 : 1) * a.d); }
  }
  if (op == Instruction::FDiv && a.k != VN && b.k != VN && !pIsConst(asP(b)) && ieeeSign(s, b) == 0) { int g = ieeeSign(s, a); return vN(g ? g > 0 ? INFINITY : -INFINITY : NAN); }
  return ieeeClamp(s, fbin(op, a, b));
}
// exp of a real: overflow, underflow or exact
static Val ieeeExp(State& s, const Val& a) {
  if (a.k == VU) return a; if (a.k == VN) return vD(std::exp(a.d)); PE x = asP(a); if (pIsConst(x)) { double d = pConstVal(x).get_d(); if (d > 709.782712893384) return vN(INFINITY); if (d < -745.1332191019412) return vR(pConst(0)); return vR(pExp(x)); }
  if (ieeeB(s, bRCmp(R_LT, pSub(pDouble(709.782712893384), x)))) { assume(s, bRCmp(R_LT, pSub(pScale(ieeeMax(), mpq_class(99, 100)), pExp(x)))); return vN(INFINITY); }
  if (ieeeB(s, bRCmp(R_LT, pAdd(x, pDouble(745.1332191019412))))) { assume(s, bRCmp(R_LT, pSub(pExp(x), pDouble(1e-300)))); return vR(pConst(0)); }
  PE e = pExp(x);
  // what the argument's range says about the value (both directions, so that no impossible magnitude is explored)
  assume(s, bNot(bRCmp(R_LT, pSub(ieeeMax(), e)))); assume(s, bNot(bRCmp(R_LT, pSub(e, pDouble(4.9e-324)))));
  return vR(e);
}
static Val ieeePow(State& s, const Val& z, long k) {   // real base
  if (k == 0) return vR(pConst(1)); if (z.k == VN) return vD(std::pow(z.d, (double)k));
  if (k < 0) return ieeeBin(s, Instruction::FDiv, vR(pConst(1)), ieeePow(s, z, -k));
  return ieeeClamp(s, vR(pPowInt(asP(z), k)));
}
static Val ieeeCdiv(State& s, const std::vector<Val>& a) {   // C Annex G division as in __divdc3
  auto isz = [&](const Val& v) { return v.k == VR && pIsZero(v.p); }; auto nan = [&](const Val& v) { return v.k == VN && std::isnan(v.d); }; auto inf = [&](const Val& v) { return v.k == VN && std::isinf(v.d); };
  for (auto& v : a) if (v.k == VU) return vG({Val(), Val()});
  bool fin = a[0].k != VN && a[1].k != VN;
  if (inf(a[2]) || inf(a[3])) { if (fin) return vG({vR(pConst(0)), vR(pConst(0))}); return vG({vN(NAN), vN(NAN)}); }
  if (nan(a[2]) || nan(a[3]) || nan(a[0]) || nan(a[1])) return vG({vN(NAN), vN(NAN)});
  if (isz(a[3])) {
    if (ieeeSign(s, a[2]) == 0) return vG({ieeeSign(s, a[0]) ? vN(ieeeSign(s, a[0]) * INFINITY) : vN(NAN), ieeeSign(s, a[1]) ? vN(ieeeSign(s, a[1]) * INFINITY) : vN(NAN)});
    Val r = ieeeBin(s, Instruction::FDiv, a[0], a[2]), i = isz(a[1]) ? (inf(a[0]) ? vN(NAN) : vR(pConst(0))) : ieeeBin(s, Instruction::FDiv, a[1], a[2]); return vG({r, i});
  }
  if (!fin) return vG({vN(NAN), vN(NAN)});
  Val q = cdiv(asP(a[0]), asP(a[1]), asP(a[2]), asP(a[3])); return vG({ieeeClamp(s, q.g->v[0]), ieeeClamp(s, q.g->v[1])});
}
static Val builtin(State& s, CI& c, int bi, const std::vector<Val>& a) {
  auto P = [&](int i) { return asP(a[i]); };
  auto un1 = [&](PE (*f)(PE), double (*g)(double)) { if (a[0].k == VU) return Val(); if (a[0].k == VN) return vD(g(a[0].d)); return vR(f(P(0))); };
  switch (bi) {
    case BI_NEW: { uint64_t n = conc(s, a[0]); if (n > (1ull << 28)) perr("memory", "unreasonable allocation of " + std::to_string(n) + " bytes"); return vC(s.mem.alloc((uint32_t)n, 'h'), 64); }
    case BI_DEL: { uint64_t p = conc(s, a[0]); if (!p) return Val(); Obj* o = s.mem.get(p >> 32); if (!o || (uint32_t)p || o->kind != 'h') perr("memory", "invalid or double release"); s.mem.release(p >> 32); return Val(); }
    case BI_MEMCPY: memCopy(s.mem, conc(s, a[0]), conc(s, a[1]), conc(s, a[2])); return a[0];
    case BI_MEMSET: { uint64_t p = conc(s, a[0]), n = conc(s, a[2]), v = conc(s, a[1]); if (!n) return a[0]; chk(s.mem, p, n, "write"); Obj* o = s.mem.wr(p >> 32); clearCells(o, (uint32_t)p, n); for (uint64_t i = 0; i < n; i++) { o->d[(uint32_t)p + i] = v; o->t[(uint32_t)p + i] = T_RAW; } return a[0]; }
    case BI_MEMCMP: {
      uint64_t p = conc(s, a[0]), q = conc(s, a[1]), n = conc(s, a[2]); if (!n) return vC(0, 32); chk(s.mem, p, n, "read"); chk(s.mem, q, n, "read"); BE eq = bConst(true);
      for (uint64_t i = 0; i < n;) { uint64_t st = 1; Obj *x = s.mem.get(p >> 32), *y = s.mem.get(q >> 32); auto sz = [&](Obj* o, uint64_t ad) { uint8_t t = o->t[(uint32_t)ad]; return (t & (T_CELL | T_RAW)) ? 1u << (t & 7) : 1u; }; st = std::max(sz(x, p + i), sz(y, q + i)); if (i + st > n) st = 1; if (st == 16) st = 1;
        Val u = memLoad(s.mem, p + i, st, nullptr), v = memLoad(s.mem, q + i, st, nullptr); if (u.k == VU || v.k == VU) perr("uninit", "comparison of indeterminate bytes");
        if (u.k == VR || v.k == VR) { if (!(u == v)) fail("unsupported", "memcmp of reals"); }
        else if (u.k == VC && v.k == VC && u.c != v.c && eq->op == B_TRUE) { // concrete order
          for (uint64_t k = 0; k < st; k++) { uint8_t ub = u.c >> (8 * k), vb = v.c >> (8 * k); if (ub != vb) return vC(ub < vb ? -1 : 1, 32); } }
        else eq = bAnd(eq, bICmp(P_EQ, asI(u), asI(v)));
        i += st; }
      return vI(iIte(eq, iConst(0, 32), iConst(1, 32))); }
    case BI_STRLEN: return vC(cstr(s, conc(s, a[0])).size(), 64);
    case BI_EXP: if (ieeeOn) return ieeeExp(s, a[0]); if (a[0].k == VN) return vD(std::exp(a[0].d)); if (a[0].k == VU) return Val(); return vR(pExp(P(0)));
    case BI_EXPM1: if (anyN(a)) return vN(NAN); return vR(pSub(pExp(P(0)), pConst(1)));
    case BI_LOG: if (anyN(a)) return vN(NAN); return vR(pLog(P(0)));
    case BI_LOG1P: if (anyN(a)) return vN(NAN); return vR(pLog(pAdd(P(0), pConst(1))));
    case BI_SIN: if (anyN(a)) return vN(NAN); return vR(pSin(P(0)));
    case BI_COS: if (anyN(a)) return vN(NAN); return vR(pCos(P(0)));
    case BI_TANH: { if (anyN(a)) return vN(NAN); PE e = pExp(pScale(P(0), 2)); return vR(pSub(pConst(1), pScale(pInv(pAdd(e, pConst(1))), 2))); }
    case BI_SINH: { if (anyN(a)) return vN(NAN); PE e = pExp(P(0)); return vR(pScale(pSub(e, pInv(e)), mpq_class(1, 2))); }
    case BI_COSH: { if (anyN(a)) return vN(NAN); PE e = pExp(P(0)); return vR(pScale(pAdd(e, pInv(e)), mpq_class(1, 2))); }
    case BI_SQRT: return un1(pSqrt, std::sqrt);
    case BI_FABS: return un1(pAbs, std::fabs);
    case BI_FLOOR: return un1(pFloor, std::floor);
    case BI_CEIL: if (anyN(a)) return vN(NAN); return vR(pNeg(pFloor(pNeg(P(0)))));
    case BI_ROUND: case BI_TRUNCF: { if (anyN(a)) return vN(NAN); PE p = P(0); if (!pIsConst(p)) return vR(pUF(bi == BI_ROUND ? "round" : "trunc", {p})); double d = pConstVal(p).get_d(); return vD(bi == BI_ROUND ? std::round(d) : std::trunc(d)); }
    case BI_POW: { if (ieeeOn && a[1].k == VR && (a[0].k == VN || !pIsConst(a[0].p))) { PE y = a[1].p; auto it = g_fromInt.find(y); if (it != g_fromInt.end()) return ieeePow(s, a[0], sx(conc(s, vI(it->second)), it->second->w)); if (pIsConst(y) && pConstVal(y).get_den() == 1) return ieeePow(s, a[0], pConstVal(y).get_num().get_si()); } if (anyN(a)) { double x, y; if (concreteD(a[0], x) && concreteD(a[1], y)) return vD(std::pow(x, y)); return vN(NAN); } return vR(realPow(s, P(0), P(1))); }
    case BI_POWI: { if (ieeeOn) return ieeePow(s, a[0], sx(conc(s, a[1]), 32)); if (anyN(a)) return vN(NAN); int64_t e = sx(conc(s, a[1]), 32); if (pIsZero(P(0)) && e < 0) return vN(INFINITY); return vR(pPowInt(P(0), e)); }
    case BI_LDEXP: { if (anyN(a)) return vN(NAN); int64_t e = sx(conc(s, a[1]), 32); mpq_class k = 1; for (int64_t i = 0; i < std::llabs(e); i++) k *= 2; return vR(pScale(P(0), e < 0 ? mpq_class(1 / k) : k)); }
    case BI_CEXP: {
      if (ieeeOn) { Val e = ieeeExp(s, a[0]); bool z = a[1].k == VR && pIsZero(a[1].p); if (z) return vG({e, vR(pConst(0))}); if (a[1].k == VN) return vG({vN(NAN), vN(NAN)}); Val co = vR(pCos(P(1))), si = vR(pSin(P(1))); if (e.k == VN) return vG({ieeeBin(s, Instruction::FMul, e, co), ieeeBin(s, Instruction::FMul, e, si)}); return cplx(pMul(e.p, co.p), pMul(e.p, si.p)); }
      if (anyN(a)) { double x; if (a[0].k == VN && concreteD(a[1], x) && x == 0) { double r = std::exp(a[0].d); return vG({vD(r), vR(pConst(0))}); } return vG({vN(NAN), vN(NAN)}); } PE e = pExp(P(0)); return cplx(pMul(e, pCos(P(1))), pMul(e, pSin(P(1)))); }
    case BI_CABS: case BI_HYPOT: { if (anyN(a)) { for (auto& v : a) if (v.k == VN && std::isinf(v.d)) return vN(INFINITY); return vN(NAN); } return vR(pSqrt(pAdd(pMul(P(0), P(0)), pMul(P(1), P(1))))); }
    case BI_MULC: { if (anyN(a)) return vG({vN(NAN), vN(NAN)}); return cplx(pSub(pMul(P(0), P(2)), pMul(P(1), P(3))), pAdd(pMul(P(0), P(3)), pMul(P(1), P(2)))); }
    case BI_DIVC: {
      if (ieeeOn) return ieeeCdiv(s, a);
      if (anyN(a)) { bool u = false; for (auto& v : a) u |= v.k == VU; if (u) return vG({Val(), Val()}); 
        if ((a[2].k == VN && std::isinf(a[2].d)) || (a[3].k == VN && std::isinf(a[3].d))) { if (a[0].k == VR && a[1].k == VR) return cplx(pConst(0), pConst(0)); } return vG({vN(NAN), vN(NAN)}); }
      return cdiv(P(0), P(1), P(2), P(3)); }
    case BI_POWC: {   // std::pow(complex const&, T const&) and friends, exponent integer
      auto ld = [&](const Val& v) { uint64_t p = conc(s, v); return std::make_pair(memLoad(s.mem, p, 8, Type::getDoubleTy(Ctx)), memLoad(s.mem, p + 8, 8, Type::getDoubleTy(Ctx))); };
      std::string n = demangled(c.ext->getName().str()); bool firstC = n.find("pow<double>(std::complex") != std::string::npos || n.find("(std::complex<double> const&, ") != std::string::npos;
      if (!firstC) fail("unsupported", "pow variant " + n);
      auto z = ld(a[0]); PE ex;
      if (n.find(", std::complex") != std::string::npos) { auto y = ld(a[1]); if (!pIsZero(asP(y.second))) fail("unsupported", "complex exponent"); ex = asP(y.first); }
      else if (n.find(", int)") != std::string::npos || n.find(", int const&)") != std::string::npos) { int64_t e = sx(conc(s, n.find("const&)") != std::string::npos ? memLoad(s.mem, conc(s, a[1]), 4, nullptr) : a[1]), 32); ex = pConst((long)e); }
      else ex = a[1].k == VR ? a[1].p : asP(memLoad(s.mem, conc(s, a[1]), 8, Type::getDoubleTy(Ctx)));
      if (!ieeeOn && (z.first.k == VN || z.second.k == VN || z.first.k == VU || z.second.k == VU)) return vG({vN(NAN), vN(NAN)});
      auto it = g_fromInt.find(ex); long e; if (pIsConst(ex)) { if (pConstVal(ex).get_den() != 1) fail("unsupported", "fractional complex power"); e = pConstVal(ex).get_num().get_si(); } else if (it != g_fromInt.end()) e = sx(conc(s, vI(it->second)), it->second->w); else fail("unsupported", "symbolic complex power");
      if (ieeeOn && z.second.k == VR && pIsZero(z.second.p)) { if (z.first.k == VN && !(z.first.d > 0)) return vG({vN(NAN), vN(NAN)}); return vG({ieeePow(s, z.first, e), vR(pConst(0))}); }
      if (z.first.k == VN || z.second.k == VN || z.first.k == VU || z.second.k == VU) return vG({vN(NAN), vN(NAN)});
      PE re = asP(z.first), im = asP(z.second), rr = pConst(1), ri = pConst(0); bool neg = e < 0; if (std::labs(e) > 100) fail("unsupported", "power");
      if (pIsZero(im)) return cplx(realPow(s, re, pConst(e)), pConst(0));
      for (long k = 0; k < std::labs(e); k++) { PE t = pSub(pMul(rr, re), pMul(ri, im)); ri = pAdd(pMul(rr, im), pMul(ri, re)); rr = t; }
      if (neg) return cdiv(pConst(1), pConst(0), rr, ri); return cplx(rr, ri); }
    case BI_FMA: if (anyN(a)) return fbin(Instruction::FAdd, fbin(Instruction::FMul, a[0], a[1]), a[2]); return vR(pAdd(pMul(P(0), P(1)), P(2)));
    case BI_COPYSIGN: { double y; if (a[0].k == VN && concreteD(a[1], y)) return vN(std::copysign(a[0].d, y)); if (anyN(a)) return vN(NAN); PE m = pAbs(P(0)); return vR(pIte(bRCmp(R_LT, P(1)), pNeg(m), m)); }
    case BI_FMIN: case BI_FMAX: { if (a[0].k == VU || a[1].k == VU) return Val(); double x, y; if (concreteD(a[0], x) && concreteD(a[1], y)) return vD(bi == BI_FMIN ? std::fmin(x, y) : std::fmax(x, y)); if (anyN(a)) return vN(NAN); BE lt = bRCmp(R_LT, pSub(P(0), P(1))); return vR(bi == BI_FMIN ? pIte(lt, P(0), P(1)) : pIte(lt, P(1), P(0))); }
    case BI_ISFPCLASS: { uint64_t m = a[1].c; bool r = a[0].k == VN ? (std::isnan(a[0].d) ? (m & 3) : (m & 0x204)) : (m & ~0x207ull) && true; return vC(r, 1); }
    case BI_NOP: return Val(); case BI_RET0: return vC(0, c.w ? c.w : 64); case BI_ONE: return vC(1, c.w ? c.w : 64); case BI_RETARG0:
      if (auto* cb = dyn_cast<CallBase>(c.I)) if (cb->arg_size() && cb->hasStructRetAttr() && demangled(c.ext->getName().str()).find("::str()") != std::string::npos) { uint64_t p = conc(s, a[0]); memStore(s.mem, p, 8, vC(p + 16, 64), false); memStore(s.mem, p + 8, 8, vC(0, 64), false); memStore(s.mem, p + 16, 1, vC(0, 8), false); }   // what was printed is not modelled: an empty string
      return a.empty() ? Val() : (c.I->getType()->isPointerTy() ? a[0] : c.w ? vC(0, c.w) : Val());
    case BI_THROW: perr("exception", "call of " + demangled(c.ext->getName().str()));
    case BI_TRAP: perr("trap", "trap reached");
    case BI_GUARD: { Val v = memLoad(s.mem, conc(s, a[0]), 1, nullptr); if (v.k == VC && v.c == 0) { memStore(s.mem, conc(s, a[0]), 1, vC(1, 8), false); return vC(1, 32); } return vC(0, 32); }
    case BI_ABS: { if (a[0].k == VU) return a[0]; IE e = asI(a[0]); if (strictUB && e->lo == INT64_MIN) perr("overflow", "abs overflow"); return simp(s, iIte(bICmp(P_SLT, e, iConst(0, e->w)), iBin(I_MUL, e, iConst(~0ull, e->w)), e)); }
    case BI_SMAX: case BI_SMIN: case BI_UMAX: case BI_UMIN: { if (a[0].k == VU || a[1].k == VU) return Val(); IE x = asI(a[0]), y = asI(a[1]); BE lt = bICmp(bi == BI_SMAX || bi == BI_SMIN ? P_SLT : P_ULT, x, y); return simp(s, bi == BI_SMIN || bi == BI_UMIN ? iIte(lt, x, y) : iIte(lt, y, x)); }
    case BI_EXPECT: return a[0];
    case BI_OVF: {
      std::string n = c.ext->getName().str(); uint64_t x = conc(s, a[0]), y = conc(s, a[1]); int w = a[0].w; bool sg = n.find(".s") != std::string::npos && n.find("llvm.s") == 0; __int128 r; bool ov;
      __int128 ax = sg ? (__int128)sx(x, w) : (__int128)x, ay = sg ? (__int128)sx(y, w) : (__int128)y;
      r = n.find("add") != std::string::npos ? ax + ay : n.find("sub") != std::string::npos ? ax - ay : ax * ay;
      if (sg) ov = r < -((__int128)1 << (w - 1)) || r >= ((__int128)1 << (w - 1)); else ov = r < 0 || r >= ((__int128)1 << w);
      return vG({vC((uint64_t)r, w), vC(ov, 1)}); }
    case BI_CTPOP: return vC(__builtin_popcountll(conc(s, a[0])), a[0].w);
    case BI_CTLZ: { uint64_t x = conc(s, a[0]); return vC(x ? __builtin_clzll(x) - (64 - a[0].w) : a[0].w, a[0].w); }
    case BI_CTTZ: { uint64_t x = conc(s, a[0]); return vC(x ? __builtin_ctzll(x) : a[0].w, a[0].w); }
    case BI_FSHL: { uint64_t x = conc(s, a[0]), y = conc(s, a[1]), k = conc(s, a[2]) % a[0].w; return vC(k ? (x << k) | (mk(y, a[0].w) >> (a[0].w - k)) : x, a[0].w); }
    case BI_USUBSAT: { if (a[0].k == VU || a[1].k == VU) return Val(); IE x = asI(a[0]), y = asI(a[1]); return simp(s, iIte(bICmp(P_ULT, x, y), iConst(0, x->w), iBin(I_ADD, x, iBin(I_MUL, y, iConst(~0ull, x->w))))); }
    case BI_ISCONST: return vC(0, 1);
    case BI_MEMCHR: { uint64_t p = conc(s, a[0]), ch = conc(s, a[1]) & 255, n = conc(s, a[2]); for (uint64_t i = 0; i < n; i++) { Val v = memLoad(s.mem, p + i, 1, nullptr); if (conc(s, v) == ch) return vC(p + i, 64); } return vC(0, 64); }
    // ---- harness intrinsics
    case BI_SYMINT: {
      std::string n = cstr(s, conc(s, a[0])); int lo = (int)sx(conc(s, a[1]), 32), hi = (int)sx(conc(s, a[2]), 32); if (lo == hi) return vC((uint64_t)(int64_t)lo, 32);
      auto it = ivarByName.find(n); int v; if (it == ivarByName.end()) { v = g_ivars.size(); g_ivars.push_back({n, lo, hi}); ivarByName[n] = v; } else { v = it->second; if (g_ivars[v].lo != lo || g_ivars[v].hi != hi) fail("harness", "sym_int " + n + " with two ranges"); }
      return simp(s, iVar(v)); }
    case BI_SYMREAL: case BI_SYMPOS: { std::string n = cstr(s, conc(s, a[0])); return vR(pVar(n, bi == BI_SYMPOS)); }
    case BI_ASSUME: { if (a[0].k == VU) perr("harness", "assume(undef)"); BE b = asB(a[0]); int d = decide(s, b); if (d == 2 || d == 0) { nPruned++; throw PathEnd{}; } if (d == 3) assume(s, b); return Val(); }
    case BI_CHECK: doCheck(s, a[0], cstr(s, conc(s, a[1])), &c); return Val();
    case BI_CHECKEQ: doCheckEq(s, a[0], a[1], cstr(s, conc(s, a[2])), &c); return Val();
    case BI_PARAM: { std::string n = cstr(s, conc(s, a[0])); auto it = params.find(n); return it == params.end() ? a[1] : vC((uint64_t)(int64_t)it->second, 32); }
    case BI_OBS: s.obs.push_back({cstr(s, conc(s, a[0])), a[1]}); return Val();
    case BI_REACH: reaches[cstr(s, conc(s, a[0]))]++; return Val();
    case BI_SPLIT: return vC(conc(s, a[0]), 32);
    case BI_SYMSPLITB: return vC(condOf(s, a[0]), 1);
    case BI_SYMNZ: { // definedness assumption on a real: not identically zero here
      if (a[0].k != VR) throw PathEnd{}; BE z = bRCmp(R_EQ, a[0].p); if (z->op == B_TRUE) throw PathEnd{}; assume(s, bNot(z)); return Val(); }
    case BI_UF: {
      std::vector<PE> as; for (size_t i = 0; i < a.size(); i++) { Type* T = cast<CallBase>(c.I)->getArgOperand(i)->getType(); if (T->isPointerTy()) continue; if (a[i].k == VN || a[i].k == VU) { if (a[i].k == VU) perr("uninit", "indeterminate argument"); return vG({vN(NAN), vN(NAN)}); } if (T->isIntegerTy()) { PE p = iToReal(asI(a[i])); if (!p) { conc(s, a[i]); fail("unsupported", "uf int arg"); } as.push_back(p); } else as.push_back(P(i)); }
      std::string n = demangled(c.ext->getName().str()); n = n.substr(0, n.find('(')); bool realE = as.size() == 5 && pIsZero(as[4]);
      return vG({vR(pUF(n + ".re", as)), realE ? vR(pConst(0)) : vR(pUF(n + ".im", as))}); }
  }
  fail("unsupported", "call of external function " + (c.ext ? demangled(c.ext->getName().str()) : "?"));
}

// ------------------------------------------------------------------ instruction step
static void enterBlock(State& s, BBInfo* to, BBInfo* from) {
  Frame& f = s.st.back();
  if (to->nphi) { auto& in = to->phiIn.at(from); std::vector<Val> v(to->nphi); for (int i = 0; i < to->nphi; i++) v[i] = in[i].reg < 0 ? in[i].c : f.r[in[i].reg]; for (int i = 0; i < to->nphi; i++) f.r[to->phiDst[i]] = v[i]; }
  f.bb = to; f.ip = 0;
}
static void doRet(State& s, const Val& v) {
  Frame& f = s.st.back(); for (uint32_t id : f.allocas) s.mem.release(id); CI* call = f.call; s.st.pop_back();
  if (s.st.empty()) { finishPath(s); throw PathEnd{}; }
  Frame& g = s.st.back(); if (call->dst >= 0) g.r[call->dst] = v;
  if (call->op == Instruction::Invoke) enterBlock(s, call->b0, g.bb); else g.ip++;
}
static void callFn(State& s, CI& c, Function* F, const std::vector<Val>& a) {
  if (F->isDeclaration()) {
    int bi = c.builtin >= 0 ? c.builtin : builtinOf(F->getName().str()); CI cc = c; cc.ext = F;
    Val v = builtin(s, cc, bi, a); Frame& f = s.st.back(); if (c.dst >= 0) f.r[c.dst] = v; if (c.op == Instruction::Invoke) enterBlock(s, c.b0, f.bb); else f.ip++; return;
  }
  FnInfo* g = getFn(F); if (s.st.size() > 400) perr("recursion", "call depth exceeds 400");
  Frame n; n.f = g; n.r.assign(g->nregs, Val()); n.bb = g->bbs[0].get(); n.ip = 0; n.call = &c;
  size_t na = F->arg_size(); for (size_t i = 0; i < na && i < a.size(); i++) {
    n.r[i] = a[i];
    if (F->getArg(i)->hasByValAttr()) { uint64_t sz = DL->getTypeAllocSize(F->getArg(i)->getParamByValType()); uint64_t p = s.mem.alloc(sz, 's'); memCopy(s.mem, p, conc(s, a[i]), sz); n.r[i] = vC(p, 64); n.allocas.push_back(p >> 32); }
  }
  s.st.push_back(std::move(n));
}
static BE fcmp(CmpInst::Predicate p, const Val& a, const Val& b) {
  if (a.k == VN || b.k == VN) {
    double x = a.k == VN ? a.d : 0, y = b.k == VN ? b.d : 0; double t; if (a.k != VN && concreteD(a, t)) x = t; if (b.k != VN && concreteD(b, t)) y = t;
    bool un = std::isnan(x) || std::isnan(y), r;
    switch (p) { case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_OLT: r = x < y; break; case CmpInst::FCMP_OLE: r = x <= y; break; case CmpInst::FCMP_OGT: r = x > y; break; case CmpInst::FCMP_OGE: r = x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_TRUE: r = true; break; default: r = false; }
    return bConst(r);
  }
  PE x = asP(a), y = asP(b);
  switch (p) {
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return bRCmp(R_EQ, pSub(x, y)); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return bNot(bRCmp(R_EQ, pSub(x, y)));
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return bRCmp(R_LT, pSub(x, y)); case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return bNot(bRCmp(R_LT, pSub(y, x)));
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return bRCmp(R_LT, pSub(y, x)); case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return bNot(bRCmp(R_LT, pSub(x, y)));
    case CmpInst::FCMP_ORD: case CmpInst::FCMP_TRUE: return bConst(true); default: return bConst(false);
  }
}
static void ubCheck(State& s, CI& c, const char* what, BE bad) {
  bad = simpB(s, bad); if (bad->op == B_FALSE) return; int d = decide(s, bad); if (d == 2) return; if (d == 1) perr("ub", what); if (d == 3) throw ForkCond{bad};
}
static Val ibin(State& s, CI& c, const Val& a, const Val& b) {
  if (a.k == VU || b.k == VU) {
    if (c.op == Instruction::And && ((a.k == VC && a.c == 0) || (b.k == VC && b.c == 0))) return vC(0, c.w);
    if ((c.op >= Instruction::UDiv && c.op <= Instruction::SRem) && b.k == VU) perr("uninit", "division by an indeterminate value");
    return Val();
  }
  if (a.k == VR || b.k == VR || a.k == VN || b.k == VN) fail("unsupported", "integer operation on a real value");
  if (c.w == 1) {
    BE x = asB(a), y = asB(b);
    switch (c.op) { case Instruction::And: case Instruction::Mul: return vB(bAnd(x, y)); case Instruction::Or: return vB(bOr(x, y)); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return vB(bOr(bAnd(x, bNot(y)), bAnd(bNot(x), y))); default: break; }
  }
  if (c.w > 64) fail("unsupported", "wide integer arithmetic");
  IOp op; bool fast = a.k == VC && b.k == VC;
  switch (c.op) {
    case Instruction::Add: if (fast && !strictUB) return vC(a.c + b.c, c.w); op = I_ADD; break;
    case Instruction::Sub: if (fast && !strictUB) return vC(a.c - b.c, c.w); op = I_ADD; break;
    case Instruction::Mul: if (fast && !strictUB) return vC(a.c * b.c, c.w); op = I_MUL; break;
    case Instruction::SDiv: op = I_SDIV; break; case Instruction::UDiv: op = I_UDIV; break; case Instruction::SRem: op = I_SREM; break; case Instruction::URem: op = I_UREM; break;
    case Instruction::And: if (fast) return vC(a.c & b.c, c.w); op = I_AND; break; case Instruction::Or: if (fast) return vC(a.c | b.c, c.w); op = I_OR; break; case Instruction::Xor: if (fast) return vC(a.c ^ b.c, c.w); op = I_XOR; break;
    case Instruction::Shl: op = I_SHL; break; case Instruction::LShr: op = I_LSHR; break; case Instruction::AShr: op = I_ASHR; break; default: fail("unsupported", "binary op");
  }
  IE x = asI(a), y = asI(b);
  if (op == I_SDIV || op == I_UDIV || op == I_SREM || op == I_UREM) ubCheck(s, c, "integer division by zero", bICmp(P_EQ, y, iConst(0, c.w)));
  if (strictUB && c.I->getType()->isIntegerTy()) {
    if (auto* o = dyn_cast<OverflowingBinaryOperator>(c.I)) if (o->hasNoSignedWrap() && c.w <= 32) {
      IE X = iExt(I_SEXT, x, 64), Y = iExt(I_SEXT, y, 64), R = c.op == Instruction::Add ? iBin(I_ADD, X, Y) : c.op == Instruction::Sub ? iBin(I_ADD, X, iBin(I_MUL, Y, iConst(~0ull, 64))) : c.op == Instruction::Mul ? iBin(I_MUL, X, Y) : iConst(0, 64);
      int64_t lo = -(1ll << (c.w - 1)), hi = (1ll << (c.w - 1)) - 1; if (R->lo < lo || R->hi > hi) ubCheck(s, c, "signed integer overflow", bOr(bICmp(P_SLT, R, iConst((uint64_t)lo, 64)), bICmp(P_SLT, iConst((uint64_t)hi, 64), R)));
    }
  }
  if (c.op == Instruction::Sub) y = iBin(I_MUL, y, iConst(~0ull, c.w));
  return simp(s, iBin(op, x, y));
}
static Val selectVal(State& s, const Val& c, const Val& a, const Val& b) {
  if (c.k == VC) return c.c & 1 ? a : b;
  if (a == b) return a;
  if (c.k == VU) perr("uninit", "selection on an indeterminate value");
  BE x = simpB(s, asB(c)); if (x->op == B_TRUE) return a; if (x->op == B_FALSE) return b;
  Val r; if (a.k != VU && b.k != VU && mergeVal(x, a, b, r, false)) return r;
  return condOf(s, vB(x)) ? a : b;
}
struct BranchFork { BE c; BBInfo *t, *f; CI* ci; };
// executes one instruction; throws BranchFork / ForkVal / ForkCond when the state must be forked (state unchanged)
static void step(State& s) {
  Frame& f = s.st.back(); CI& c = f.bb->code[f.ip]; c.executed = true; nInstr++;
  auto V = [&](int i) -> Val { const Opnd& o = c.o[i]; return o.reg < 0 ? o.c : f.r[o.reg]; };
  switch (c.op) {
    case Instruction::Ret: { Val v; if (!c.o.empty()) v = V(0); doRet(s, v); return; }
    case Instruction::Br: {
      if (c.o.empty()) { enterBlock(s, c.b0, f.bb); return; }
      Val v = V(0); nBranch++;
      if (v.k == VC) { enterBlock(s, v.c & 1 ? c.b0 : c.b1, f.bb); return; }
      if (v.k == VU) perr("uninit", "branch on an indeterminate value");
      BE b = asB(v); int d = decide(s, b); if (d == 0) throw PathEnd{}; if (d == 1) { enterBlock(s, c.b0, f.bb); return; } if (d == 2) { enterBlock(s, c.b1, f.bb); return; }
      throw BranchFork{b, c.b0, c.b1, &c}; }
    case Instruction::Switch: {
      Val v = V(0); if (v.k == VU) perr("uninit", "switch on an indeterminate value");
      uint64_t x = conc(s, v); BBInfo* t = c.b0; for (auto& k : c.sw) if (k.first == x) { t = k.second; break; } enterBlock(s, t, f.bb); return; }
    case Instruction::Unreachable: perr("unreachable", "unreachable code reached");
    case Instruction::Alloca: { uint64_t n = conc(s, V(0)); uint64_t p = s.mem.alloc((uint32_t)(c.x * n), 's'); f.allocas.push_back(p >> 32); f.r[c.dst] = vC(p, 64); f.ip++; return; }
    case Instruction::Load: { Val a = V(0); if (a.k == VU) perr("uninit", "load through an indeterminate pointer"); Type* T = c.I->getType(); uint64_t p = conc(s, a);
      if (T->isStructTy() || T->isArrayTy()) { std::vector<Val> v; unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements(); for (unsigned i = 0; i < n; i++) { Type* et = T->isStructTy() ? T->getStructElementType(i) : T->getArrayElementType(); uint64_t off = T->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(T))->getElementOffset(i) : i * (uint64_t)DL->getTypeAllocSize(et); v.push_back(memLoad(s.mem, p + off, DL->getTypeStoreSize(et), et)); } f.r[c.dst] = vG(std::move(v)); f.ip++; return; }
      Val v = memLoad(s.mem, p, (uint32_t)c.x, T);
      if (c.w && c.w < (int)c.x * 8 && (v.k == VC || v.k == VI)) v = c.w == 1 && v.k == VI ? vB(asB(v)) : v.k == VC ? vC(v.c, c.w) : vI(iExt(I_TRUNC, v.e, c.w));
      if (v.k == VI) v = simp(s, v.e);
      f.r[c.dst] = v; f.ip++; return; }
    case Instruction::Store: { Val a = V(1); if (a.k == VU) perr("uninit", "store through an indeterminate pointer"); Val v = V(0); uint64_t p = conc(s, a);
      if (v.k == VG) storeTyped(s.mem, p, cast<StoreInst>(c.I)->getValueOperand()->getType(), v);
      else { if (v.k == VB) v = vI(iExt(I_ZEXT, asI(v), (int)c.x * 8)); memStore(s.mem, p, (uint32_t)c.x, v, c.fpsz != 0); } f.ip++; return; }
    case Instruction::GetElementPtr: {
      Val b = V(0); if (b.k == VU) { f.r[c.dst] = b; f.ip++; return; } uint64_t base = conc(s, b) + c.x; IE sym = nullptr;
      for (auto& g : c.gep) { Val v = V(g.second); if (v.k == VU) { f.r[c.dst] = Val(); f.ip++; return; } if (v.k == VC) base += g.first * (uint64_t)sx(v.c, v.w); else { IE e = iExt(I_SEXT, asI(v), 64); e = iBin(I_MUL, e, iConst(g.first, 64)); sym = sym ? iBin(I_ADD, sym, e) : e; } }
      f.r[c.dst] = sym ? simp(s, iBin(I_ADD, sym, iConst(base, 64))) : vC(base, 64); f.ip++; return; }
    case Instruction::Call: case Instruction::Invoke: {
      size_t na = cast<CallBase>(c.I)->arg_size(); std::vector<Val> a(na); for (size_t i = 0; i < na; i++) a[i] = V(i);
      Function* F = c.ext; if (!F) { uint64_t p = conc(s, V(na)); auto it = addrFn.find(p); if (it == addrFn.end()) perr("memory", "call through an invalid pointer"); F = it->second; }
      callFn(s, c, F, a); return; }
    case Instruction::ICmp: {
      Val a = V(0), b = V(1); if (a.k == VU || b.k == VU) { f.r[c.dst] = Val(); f.ip++; return; } auto p = cast<ICmpInst>(c.I)->getPredicate();
      if (a.k == VR || b.k == VR || a.k == VN || b.k == VN) fail("unsupported", "integer comparison of reals");
      IE x = asI(a), y = asI(b); BE r;
      switch (p) { case CmpInst::ICMP_EQ: r = bICmp(P_EQ, x, y); break; case CmpInst::ICMP_NE: r = bNot(bICmp(P_EQ, x, y)); break; case CmpInst::ICMP_SLT: r = bICmp(P_SLT, x, y); break; case CmpInst::ICMP_SLE: r = bICmp(P_SLE, x, y); break; case CmpInst::ICMP_SGT: r = bICmp(P_SLT, y, x); break; case CmpInst::ICMP_SGE: r = bICmp(P_SLE, y, x); break; case CmpInst::ICMP_ULT: r = bICmp(P_ULT, x, y); break; case CmpInst::ICMP_ULE: r = bICmp(P_ULE, x, y); break; case CmpInst::ICMP_UGT: r = bICmp(P_ULT, y, x); break; default: r = bICmp(P_ULE, y, x); }
      f.r[c.dst] = vB(simpB(s, r)); f.ip++; return; }
    case Instruction::FCmp: { Val a = V(0), b = V(1); if (a.k == VU || b.k == VU) { f.r[c.dst] = Val(); f.ip++; return; } f.r[c.dst] = vB(fcmp(cast<FCmpInst>(c.I)->getPredicate(), a, b)); f.ip++; return; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: f.r[c.dst] = ieeeOn ? ieeeBin(s, c.op, V(0), V(1)) : fbin(c.op, V(0), V(1)); f.ip++; return;
    case Instruction::FNeg: { Val a = V(0); f.r[c.dst] = a.k == VU ? a : a.k == VN ? vN(-a.d) : vR(pNeg(asP(a))); f.ip++; return; }
    case Instruction::Select: f.r[c.dst] = selectVal(s, V(0), V(1), V(2)); f.ip++; return;
    case Instruction::Freeze: { Val a = V(0); if (a.k == VU) a = c.w ? vC(0, c.w) : vR(pConst(0)); f.r[c.dst] = a; f.ip++; return; }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
      Val a = V(0); if (a.k == VU) { f.r[c.dst] = a; f.ip++; return; }
      if (c.w > 64) fail("unsupported", "wide integer");
      if (c.op == Instruction::Trunc && c.w == 1) f.r[c.dst] = a.k == VC ? vC(a.c & 1, 1) : vB(asB(a));
      else if (a.k == VB && c.op == Instruction::SExt) f.r[c.dst] = vI(iIte(a.b, iConst(~0ull, c.w), iConst(0, c.w)));
      else if (a.k == VC) f.r[c.dst] = vC(c.op == Instruction::SExt ? (uint64_t)sx(a.c, a.w) : a.c, c.w);
      else if (a.k == VB) f.r[c.dst] = vI(iIte(a.b, iConst(1, c.w), iConst(0, c.w)));
      else f.r[c.dst] = vI(iExt(c.op == Instruction::ZExt ? I_ZEXT : c.op == Instruction::SExt ? I_SEXT : I_TRUNC, asI(a), c.w));
      f.ip++; return; }
    case Instruction::SIToFP: case Instruction::UIToFP: {
      Val a = V(0); if (a.k == VU) { f.r[c.dst] = a; f.ip++; return; }
      if (a.k == VB) { f.r[c.dst] = vR(pIte(a.b, pConst(c.op == Instruction::SIToFP ? -1 : 1), pConst(0))); f.ip++; return; }
      Val q = a.k == VC ? a : simp(s, asI(a));
      if (q.k == VC) { mpq_class z = c.op == Instruction::SIToFP ? mpq_class((long)sx(q.c, q.w)) : mpq_class((unsigned long)q.c); f.r[c.dst] = vR(pConst(z)); f.ip++; return; }
      PE p = (c.op == Instruction::SIToFP || q.e->lo >= 0) ? iToReal(q.e) : nullptr;
      if (!p) { uint64_t v = conc(s, q); p = pConst(mpq_class((long)sx(v, q.w))); }
      f.r[c.dst] = vR(p); f.ip++; return; }
    case Instruction::FPToSI: case Instruction::FPToUI: {
      Val a = V(0); if (a.k == VU) { f.r[c.dst] = a; f.ip++; return; } if (a.k == VN) perr("ub", "conversion of a non-finite value to an integer");
      PE p = asP(a); if (pIsConst(p)) { mpq_class q = pConstVal(p); mpz_class z = q.get_num() / q.get_den(); if (!z.fits_slong_p()) perr("ub", "float to integer conversion out of range"); long v = z.get_si(); if (c.w < 64 && (v < -(1l << (c.w - 1)) || v >= (1l << c.w))) perr("ub", "float to integer conversion out of range"); f.r[c.dst] = vC((uint64_t)v, c.w); f.ip++; return; }
      auto it = g_fromInt.find(p); IE e = nullptr; if (it != g_fromInt.end()) e = it->second;
      else { auto in = g_fromInt.find(pNeg(p)); if (in != g_fromInt.end()) e = iBin(I_MUL, in->second, iConst(~0ull, in->second->w)); }
      if (!e) { // polynomial in integer variables and indicators: rebuild
        std::set<int> at; polyAtoms(p, at, true); bool ok = true; for (int x : at) if (g_atoms[x].kind != A_IVAR && g_atoms[x].kind != A_IND) ok = false;
        for (auto& t : p->t) { if (t.second.get_den() != 1) ok = false; for (auto& g : g_monos[t.first].f) if (g.second < 0) ok = false; }
        if (!ok) fail("unsupported", "float to integer conversion of a symbolic real");
        e = iConst(0, 64); for (auto& t : p->t) { IE m = iConst((uint64_t)t.second.get_num().get_si(), 64); for (auto& g : g_monos[t.first].f) for (int k = 0; k < g.second; k++) m = iBin(I_MUL, m, g_atoms[g.first].kind == A_IVAR ? iExt(I_SEXT, iVar(g_atoms[g.first].ivar), 64) : iIte(g_atoms[g.first].c, iConst(1, 64), iConst(0, 64))); e = iBin(I_ADD, e, m); }
      }
      e = e->w > c.w ? iExt(I_TRUNC, e, c.w) : iExt(I_SEXT, e, c.w); f.r[c.dst] = simp(s, e); f.ip++; return; }
    case Instruction::FPExt: { f.r[c.dst] = V(0); f.ip++; return; }
    case Instruction::FPTrunc: {
      Val a = V(0); Type* T = c.I->getType(); if (a.k == VR && T->isFloatTy()) { if (pIsConst(a.p)) a = vD((double)(float)pConstVal(a.p).get_d()); else a = vR(pUF("round_to_float", {a.p})); }
      else if (a.k == VR && pIsConst(a.p) && T->isDoubleTy()) a = vR(a.p);
      f.r[c.dst] = a; f.ip++; return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { Val a = V(0); if (a.k == VC) a = vC(a.c, c.w); f.r[c.dst] = a; f.ip++; return; }
    case Instruction::BitCast: {
      Val a = V(0); Type* T = c.I->getType(); 
      if (T->isIntegerTy() && (a.k == VR || a.k == VN)) { double d; if (concreteD(a, d)) { uint64_t b; memcpy(&b, &d, 8); a = vC(b, 64); } }
      else if (T->isDoubleTy() && a.k == VC) { double d; memcpy(&d, &a.c, 8); a = vD(d); }
      f.r[c.dst] = a; f.ip++; return; }
    case Instruction::ExtractValue: { Val a = V(0); if (a.k == VU) { f.r[c.dst] = a; f.ip++; return; } for (unsigned i : cast<ExtractValueInst>(c.I)->indices()) { if (a.k != VG) { a = Val(); break; } Val t = a.g->v[i]; a = t; } f.r[c.dst] = a; f.ip++; return; }
    case Instruction::InsertValue: {
      Val a = V(0), b = V(1); auto* iv = cast<InsertValueInst>(c.I); Type* T = iv->getType();
      if (iv->getNumIndices() != 1) fail("unsupported", "nested insertvalue");
      unsigned n = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements(); std::vector<Val> v = a.k == VG ? a.g->v : std::vector<Val>(n); v[iv->getIndices()[0]] = b; f.r[c.dst] = vG(std::move(v)); f.ip++; return; }
    case Instruction::InsertElement: { Val a = V(0), b = V(1); unsigned n = cast<FixedVectorType>(c.I->getType())->getNumElements(); std::vector<Val> v = a.k == VG ? a.g->v : std::vector<Val>(n); v[conc(s, V(2))] = b; f.r[c.dst] = vG(std::move(v)); f.ip++; return; }
    case Instruction::ExtractElement: { Val a = V(0); uint64_t i = conc(s, V(1)); f.r[c.dst] = a.k == VG ? a.g->v.at(i) : Val(); f.ip++; return; }
    case Instruction::ShuffleVector: { Val a = V(0), b = V(1); auto* sv = cast<ShuffleVectorInst>(c.I); int n = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements(); std::vector<Val> v; for (int i : sv->getShuffleMask()) v.push_back(i < 0 ? Val() : i < n ? (a.k == VG ? a.g->v[i] : Val()) : (b.k == VG ? b.g->v[i - n] : Val())); f.r[c.dst] = vG(std::move(v)); f.ip++; return; }
    case Instruction::LandingPad: case Instruction::Resume: perr("exception", "exception propagates");
    default:
      if (c.I->isBinaryOp()) {
        if (c.I->getType()->isVectorTy()) fail("unsupported", "vector arithmetic");
        f.r[c.dst] = ibin(s, c, V(0), V(1)); f.ip++; return; }
      fail("unsupported", std::string("instruction ") + c.I->getOpcodeName());
  }
}
static CI* curCI(State& s) { if (s.st.empty()) return nullptr; Frame& f = s.st.back(); return f.ip < (int)f.bb->code.size() ? &f.bb->code[f.ip] : nullptr; }
static std::vector<uint64_t> feasibleValues(State& s, IE e) {
  std::set<uint64_t> cand; bool comp = true; long n = 1; for (int v : e->vars) { if (!domSmall(v)) { comp = false; break; } n *= __builtin_popcountll(domOf(s, v)); if (n > 20000) { comp = false; break; } }
  if (comp && !e->hasReal) {
    NumEnv env; std::vector<int> vs = e->vars; std::vector<std::vector<int>> vals; for (int v : vs) { std::vector<int> q; uint64_t d = domOf(s, v); for (int k = 0; k < 64; k++) if (d >> k & 1) q.push_back(g_ivars[v].lo + k); if (q.empty()) return {}; vals.push_back(q); }
    std::vector<size_t> ix(vs.size(), 0); for (;;) { for (size_t i = 0; i < vs.size(); i++) env.ints[vs[i]] = vals[i][ix[i]]; env.bad = false; uint64_t r = numI(e, env); if (!env.bad) cand.insert(r); size_t k = 0; while (k < ix.size() && ++ix[k] == vals[k].size()) ix[k++] = 0; if (k == ix.size()) break; }
  } else { if ((__int128)e->hi - e->lo > 256) fail("unsupported", "concretisation of a wide value"); for (int64_t v = e->lo; v <= e->hi; v++) cand.insert(mk((uint64_t)v, e->w)); }
  std::vector<uint64_t> out; for (uint64_t v : cand) { BE b = bICmp(P_EQ, e, iConst(v, e->w)); int d = decide(s, b); if (d & 1) out.push_back(v); if (d == 1) break; }
  return out;
}
static void exec(SP s, Stop stop, std::vector<SP>& out) {
  for (;;) {
    if (s->st.size() < stop.depth || (s->st.size() == stop.depth && stop.blk && s->st.back().bb == stop.blk && s->st.back().ip == 0)) { out.push_back(std::move(s)); return; }
    if ((nInstr & 4095) == 0 && elapsed() > tLimit) { incomplete = true; return; }
    if (incomplete) return;
    try { step(*s); }
    catch (PathEnd&) { return; }
    catch (PathError& e) {
      nErrPaths++; std::vector<std::map<std::string, std::string>> ms; int r = refute(*s, nullptr, ms); if (r == 0) return;
      CI* c = curCI(*s); addViolation(*s, e.kind, e.kind + ": " + e.msg + " [" + where(c).substr(0, 60) + "]", c, ms, ""); return;
    }
    catch (EngineError& e) { if (inconclusive.size() < 20) inconclusive.push_back(e.kind + ": " + e.msg + " at " + where(curCI(*s))); nErrPaths++; return; }
    catch (BranchFork& bf) {
      nForks++; size_t depth = s->st.size(); BBInfo* from = s->st.back().bb; CI* ci = bf.ci; FnInfo* fi = from->f; analyse(fi);
      auto s2 = std::make_unique<State>(*s); assume(*s, bf.c); assume(*s2, bNot(bf.c));
      enterBlock(*s, bf.t, from); enterBlock(*s2, bf.f, from);
      bool mg = mergeOn && (bf.t->canRet && bf.f->canRet) && !(ci->mergeFail > 24 && ci->mergeOk * 8 < ci->mergeFail);
      if (from->ipdom == nullptr && depth == 1) mg = false;
      if (!mg) { exec(std::move(s2), stop, out); continue; }
      Stop st{depth, from->ipdom}; if (!from->ipdom) st.blk = nullptr;
      std::vector<SP> res; exec(std::move(s), st, res); exec(std::move(s2), st, res);
      size_t before = res.size(); int done = mergeAll(res); if (before > 1) { if (done) ci->mergeOk++; else ci->mergeFail++; }
      if (res.empty()) return;
      for (size_t i = 0; i + 1 < res.size(); i++) exec(std::move(res[i]), stop, out);
      s = std::move(res.back()); continue;
    }
    catch (ForkCond& fc) {
      nForks++; auto s2 = std::make_unique<State>(*s); assume(*s, fc.b); assume(*s2, bNot(fc.b)); exec(std::move(s2), stop, out); continue;
    }
    catch (ForkVal& fv) {
      nConc++; std::vector<uint64_t> vals; try { vals = feasibleValues(*s, fv.e); } catch (EngineError& e) { if (inconclusive.size() < 20) inconclusive.push_back(e.kind + ": " + e.msg + " at " + where(curCI(*s))); return; }
      if (vals.empty()) return;
      for (size_t i = 0; i + 1 < vals.size(); i++) { auto s2 = std::make_unique<State>(*s); assume(*s2, bICmp(P_EQ, fv.e, iConst(vals[i], fv.e->w))); s2->conc[fv.e] = vals[i]; exec(std::move(s2), stop, out); }
      assume(*s, bICmp(P_EQ, fv.e, iConst(vals.back(), fv.e->w))); s->conc[fv.e] = vals.back(); continue;
    }
  }
}

// ------------------------------------------------------------------ driver
static std::string js(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
static void report(const std::string& path, const std::string& harness) {
  std::ostringstream o; o << "{\n\"harness\":" << js(harness) << ",\"params\":{"; bool f = true; for (auto& p : params) { o << (f ? "" : ",") << js(p.first) << ":" << p.second; f = false; }
  o << "},\n\"complete\":" << (incomplete ? "false" : "true") << ",\"wall_s\":" << elapsed() << ",\"paths\":" << nPaths << ",\"pruned\":" << nPruned << ",\"error_paths\":" << nErrPaths << ",\"instructions\":" << nInstr << ",\"branches\":" << nBranch << ",\"forks\":" << nForks << ",\"concretisations\":" << nConc << ",\"merges\":" << nMerges;
  o << ",\n\"solver\":{\"queries\":" << g_ss.queries << ",\"sat\":" << g_ss.sat << ",\"unsat\":" << g_ss.unsat << ",\"unknown\":" << g_ss.unknown << ",\"seconds\":" << g_ss.secs << "},\n\"checks\":{"; f = true;
  for (auto& c : checks) { o << (f ? "" : ",\n") << js(c.first) << ":{\"reached\":" << c.second.reached << ",\"by_normal_form\":" << c.second.ident << ",\"by_solver\":" << c.second.smt << ",\"violated\":" << c.second.viol << ",\"inconclusive\":" << c.second.inconcl << "}"; f = false; }
  o << "},\n\"reach\":{"; f = true; for (auto& c : reaches) { o << (f ? "" : ",") << js(c.first) << ":" << c.second; f = false; }
  o << "},\n\"symbolic_ints\":["; f = true; for (auto& v : g_ivars) { o << (f ? "" : ",") << "[" << js(v.name) << "," << v.lo << "," << v.hi << "]"; f = false; }
  o << "],\"symbolic_reals\":["; f = true; for (auto& a : g_atoms) if (a.kind == A_VAR) { o << (f ? "" : ",") << js(a.name); f = false; }
  o << "],\n\"inconclusive\":["; f = true; for (auto& x : inconclusive) { o << (f ? "" : ",\n") << js(x); f = false; }
  o << "],\n\"violations\":["; f = true;
  for (auto& v : viols) { o << (f ? "" : ",\n") << "{\"msg\":" << js(v.msg) << ",\"kind\":" << js(v.kind) << ",\"where\":" << js(v.where) << ",\"detail\":" << js(v.detail) << ",\"models\":["; f = false; bool g = true; for (auto& m : v.models) { o << (g ? "" : ",") << "{"; g = false; bool h = true; for (auto& x : m) { o << (h ? "" : ",") << js(x.first) << ":" << js(x.second); h = false; } o << "}"; } o << "]}"; }
  o << "],\n\"traces\":["; f = true; for (auto& t : traces) { o << (f ? "" : ",\n") << t; f = false; }
  // coverage of the repository's code
  std::map<std::string, std::set<int>> lines; std::set<std::string> funcs;
  for (auto& fp : fns) for (auto& b : fp.second->bbs) for (auto& c : b->code) if (c.executed) { const DILocation* l = c.I->getDebugLoc().get(); for (int k = 0; l && k < 20; k++, l = l->getInlinedAt()) { std::string fn = l->getFilename().str(); if (fn.find("/src/ami_base") == std::string::npos && fn.find("ami_base") != 0) continue; size_t q = fn.rfind('/'); lines[q == std::string::npos ? fn : fn.substr(q + 1)].insert(l->getLine()); if (auto* sp = l->getScope()->getSubprogram()) { std::string nm = sp->getName().str(); funcs.insert(nm); } } }
  o << "],\n\"functions\":["; f = true; for (auto& x : funcs) { o << (f ? "" : ",") << js(x); f = false; }
  o << "],\"lines\":{"; f = true; for (auto& x : lines) { o << (f ? "" : ",") << js(x.first) << ":["; f = false; bool g = true; for (int l : x.second) { o << (g ? "" : ",") << l; g = false; } o << "]"; }
  o << "}}\n"; std::ofstream(path) << o.str();
}
// file-scope dynamic initialisers run before the harness, in link order
static std::vector<std::string> isoCtors;
static void ctorFns(Module& m, std::vector<Function*>& out) {
  auto* g = m.getGlobalVariable("llvm.global_ctors"); if (!g) return;
  std::vector<std::pair<uint64_t, Function*>> v;
  if (g->hasInitializer()) if (auto* a = dyn_cast<ConstantArray>(g->getInitializer())) for (auto& o : a->operands()) { auto* st = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f}); }
  std::stable_sort(v.begin(), v.end(), [](auto& x, auto& y) { return x.first < y.first; });
  for (auto& x : v) out.push_back(x.second); g->eraseFromParent();
}
static void takeCtors(Module& m, GlobalVariable*) { std::vector<Function*> v; ctorFns(m, v); for (Function* f : v) { f->setLinkage(GlobalValue::ExternalLinkage); f->setComdat(nullptr); f->setName("mp_ctor" + std::to_string(isoCtors.size())); isoCtors.push_back(f->getName().str()); } }
static void addCtors(const std::string& entry) {
  std::vector<Function*> v; ctorFns(*M, v); for (auto& n : isoCtors) if (auto* f = M->getFunction(n)) v.push_back(f);
  Function* E = M->getFunction(entry); if (!E || v.empty()) return;
  E->setName(entry + "_body"); Function* N = Function::Create(E->getFunctionType(), GlobalValue::ExternalLinkage, entry, *M);
  BasicBlock* B = BasicBlock::Create(Ctx, "", N); for (Function* f : v) CallInst::Create(f->getFunctionType(), f, "", B); CallInst::Create(E->getFunctionType(), E, "", B); ReturnInst::Create(Ctx, B);
}
static int mainReal(int argc, char** argv) {
  std::vector<std::string> bcs; std::string out = "/dev/stdout", entry = "harness"; int opt = 2; std::string saveBc; bool prep = false, noopt = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--out") out = val(); else if (a == "--entry") entry = val(); else if (a == "--opt") opt = std::stoi(val()); else if (a == "--uf") ufs.insert(val());
    else if (a == "--param") { std::string s = val(); size_t q = s.find('='); params[s.substr(0, q)] = std::stoi(s.substr(q + 1)); }
    else if (a == "--time") tLimit = std::stod(val()); else if (a == "--strict") strictUB = true; else if (a == "--ieee") ieeeOn = true; else if (a == "--nomerge") mergeOn = 0; else if (a == "--seed") seed = std::stoul(val()); else if (a == "--traces") wantTraces = std::stoi(val());
    else if (a == "--maxviol") maxViol = std::stoi(val());
    else if (a == "--noopt") noopt = true; else if (a == "--prep") { prep = true; saveBc = val(); } else bcs.push_back(a);
  }
  T0 = std::chrono::steady_clock::now(); rng.seed(seed);
  SMDiagnostic err; 
  std::unique_ptr<Module> iso;   // files marked '@': a second build of the library, only its mp_* functions are visible to the rest
  for (auto& b : bcs) {
    bool at = b[0] == '@'; auto m = parseIRFile(b.substr(at), err, Ctx); if (!m) { std::cerr << "cannot load " << b << ": " << err.getMessage().str() << "\n"; return 3; }
    std::unique_ptr<Module>& D = at ? iso : M; if (!D) D = std::move(m); else if (Linker::linkModules(*D, std::move(m))) { std::cerr << "link error\n"; return 3; }
  }
  if (iso) {
    for (auto& F : *iso) if (!F.isDeclaration() && dropBody(F)) { F.deleteBody(); F.setComdat(nullptr); }
    for (auto& F : *iso) if (!F.isDeclaration() && !F.getName().starts_with("mp_")) { F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); F.setVisibility(GlobalValue::DefaultVisibility); }
    for (auto& G : iso->globals()) if (!G.isDeclaration() && !G.getName().starts_with("llvm.")) { G.setLinkage(GlobalValue::InternalLinkage); G.setComdat(nullptr); }
    if (auto* g = iso->getGlobalVariable("llvm.global_ctors")) takeCtors(*iso, g);
    if (Linker::linkModules(*M, std::move(iso))) { std::cerr << "link error\n"; return 3; }
  }
  for (auto& F : *M) if (!F.isDeclaration() && dropBody(F)) { F.deleteBody(); F.setComdat(nullptr); }
  if (!noopt) addCtors(entry);
  Function* E = M->getFunction(entry); if (!E) { std::cerr << "no entry " << entry << "\n"; return 3; }
  if (!noopt) {
    for (auto& F : *M) { if (F.isDeclaration()) continue; F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline); if (F.getName() != entry) { F.setLinkage(GlobalValue::InternalLinkage); F.setComdat(nullptr); F.setVisibility(GlobalValue::DefaultVisibility); } }
    for (auto& G : M->globals()) if (!G.isDeclaration() && !G.getName().starts_with("llvm.")) { G.setLinkage(GlobalValue::InternalLinkage); G.setComdat(nullptr); }
    PipelineTuningOptions pto; pto.LoopVectorization = false; pto.SLPVectorization = false; pto.LoopUnrolling = false; pto.LoopInterleaving = false;
    LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam; PassBuilder pb(nullptr, pto);
    pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam); pb.crossRegisterProxies(lam, fam, cam, mam);
    ModulePassManager mpm; mpm.addPass(GlobalDCEPass());
    if (opt > 0) { mpm.addPass(pb.buildPerModuleDefaultPipeline(opt == 1 ? OptimizationLevel::O1 : OptimizationLevel::O2)); mpm.addPass(createModuleToFunctionPassAdaptor(ScalarizerPass())); mpm.addPass(GlobalDCEPass()); }
    mpm.run(*M, mam);
  }
  if (prep) { std::error_code ec; raw_fd_ostream o(saveBc, ec); if (saveBc.size() > 3 && saveBc.substr(saveBc.size() - 3) == ".ll") M->print(o, nullptr); else WriteBitcodeToFile(*M, o); return 0; }
  DL = &M->getDataLayout();
  { uint64_t n = 0x7f00000000000000ull; for (auto& F : *M) { n += 16; fnAddr[&F] = n; addrFn[n] = &F; } }
  E = M->getFunction(entry);
  auto s = std::make_unique<State>(); 
  for (auto& G : M->globals()) if (!G.getName().starts_with("llvm.")) { try { gvGet(&G); } catch (EngineError& e) { } }
  for (auto& F : *M) if (!F.isDeclaration()) { try { getFn(&F); } catch (EngineError& e) { std::cerr << "engine: " << e.msg << " in " << F.getName().str() << "\n"; return 3; } }
  s->mem = gmem; FnInfo* f = getFn(E); Frame fr; fr.f = f; fr.r.assign(f->nregs, Val()); fr.bb = f->bbs[0].get(); fr.ip = 0; fr.call = nullptr; s->st.push_back(std::move(fr));
  // a solver call or a normalisation that does not come back: report what was decided so far
  static std::string wo = out, wb = bcs.empty() ? "" : bcs[0]; static std::atomic<bool> fin(false);
  std::thread([] { while (!fin) { std::this_thread::sleep_for(std::chrono::milliseconds(500)); if (!fin && elapsed() > tLimit + 12) { incomplete = true; report(wo, wb); _exit(0); } } }).detach();
  std::vector<SP> res; exec(std::move(s), Stop{0, nullptr}, res); fin = true;
  report(out, bcs.empty() ? "" : bcs[0]);
  return 0;
}
int main(int argc, char** argv) {
  int rc = 3;
  std::thread t([&] {});
  t.join();
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2ull << 30);
  struct A { int c; char** v; int* rc; } a{argc, argv, &rc}; pthread_t th;
  pthread_create(&th, &at, [](void* p) -> void* { A* a = (A*)p; try { *a->rc = mainReal(a->c, a->v); } catch (EngineError& e) { std::cerr << "engine error: " << e.kind << ": " << e.msg << "\n"; *a->rc = 3; } catch (std::exception& e) { std::cerr << "exception: " << e.what() << "\n"; *a->rc = 3; } return nullptr; }, &a);
  pthread_join(th, nullptr); fflush(stdout); _exit(rc);
}
