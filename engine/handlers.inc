// ------------------------------------------------------------------ modelled external functions and sx_* intrinsics
static void advance(State &s) { Frame &f = s.F(); Ins &n = f.f->bb[f.bb].ins[f.pc]; if (n.t0 >= 0 && isa<InvokeInst>(n.I)) jump(f, n.t0); else f.pc++; }
static Res retv(State &s, const Ins &n, Val v) { setDst(s.F(), n, std::move(v)); advance(s); return R_NEXT; }
static std::string symName(State &s, const std::string &base) {
  std::string n = base; if (s.procs.size() > 1) n = "r" + std::to_string(s.P().rank) + "." + base;
  int k = s.occ[n]++; return n + "#" + std::to_string(k);
}
static std::unordered_map<std::string, Z3_ast> symCache; static std::unordered_map<std::string, uint32_t> realCache;
static Z3_ast bvSym(const std::string &nm, unsigned w) { std::string k = nm + "!" + std::to_string(w); auto it = symCache.find(k); if (it != symCache.end()) return it->second; Z3_ast a = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), bvSort(w)); Z3_inc_ref(Z, a); symCache[k] = a; return a; }
// assertion; returns R_NEXT to continue
// model search on non-linear paths: pin the real inputs to trial values, which leaves the solver an easy problem
static bool pinnedModel(State &s, Z3_ast extra) {
  uint64_t h = 88172645463325252ull;
  for (int k = 0; k < 4; k++) {
    Z3_solver z = mkSolver(false, 3000); for (auto &c : s.pc) Z3_solver_assert(Z, z, ((BVN *)c.p)->a); if (extra) Z3_solver_assert(Z, z, extra);
    for (auto &r : s.syms) if (r.sort == 1) { Q lo = -1, hi = 1; auto it = realCache.find(r.name); if (it != realCache.end() && vars[it->second].bounded) { lo = vars[it->second].lo; hi = vars[it->second].hi; }
      h ^= h << 13; h ^= h >> 7; h ^= h << 17; Q t = (Q)(1 + h % 62) / 64; Z3_solver_assert(Z, z, Z3_mk_eq(Z, r.a, qNum(lo + (hi - lo) * t))); }
    double t0 = now(); ST.q++; Z3_lbool b = Z3_solver_check(Z, z); ST.qtime += now() - t0; if (b == Z3_L_TRUE) ST.qsat++; else if (b == Z3_L_FALSE) ST.qunsat++; else ST.qunk++;
    if (b == Z3_L_TRUE) lastModel = IP<Model>(new Model(Z3_solver_get_model(Z, z))); Z3_solver_dec_ref(Z, z); if (b == Z3_L_TRUE) return true;
  }
  return false;
}
// Closeness assertions whose interval bound already lies within the tolerance are not taken on the interval's word: they are
// handed to the solver in batches, each monomial an independent real within its range (so the assertion is decided for a
// superset of the values it can take), and the solver must find the negation of the conjunction unsatisfiable.
struct Pend { IP<Node> p; Q tol; std::string msg; };
static std::vector<Pend> pend; static std::unordered_set<uint64_t> pendSeen;
static bool batchCheck(size_t from, size_t to) {
  Z3_solver z = mkSolver(false, O.qtimeout); std::unordered_map<uint32_t, Z3_ast> mv; std::vector<Z3_ast> viol;
  for (size_t i = from; i < to; i++) { PolyN *p = (PolyN *)pend[i].p.p; std::vector<Z3_ast> ts;
    for (auto &t : p->t) { Z3_ast c = qNum(t.c); if (t.m) { Z3_ast &v = mv[t.m];
        if (!v) { std::string nm = "m" + std::to_string(t.m); v = Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm.c_str()), realSort()); Z3_inc_ref(Z, v); PolyN one; one.t.push_back({t.m, 1}); Q lo, hi; if (!polyRange(&one, lo, hi)) unsup("batched assertion without a range");
          Z3_solver_assert(Z, z, Z3_mk_ge(Z, v, qNum(lo))); Z3_solver_assert(Z, z, Z3_mk_le(Z, v, qNum(hi))); }
        Z3_ast f[2] = {c, v}; c = Z3_mk_mul(Z, 2, f); } Z3_inc_ref(Z, c); ts.push_back(c); }
    if (ts.empty()) { Z3_ast c = qNum(0); Z3_inc_ref(Z, c); ts.push_back(c); }
    Z3_ast e = ts.size() == 1 ? ts[0] : Z3_mk_add(Z, ts.size(), ts.data());
    Z3_inc_ref(Z, e); Z3_ast q[2]; q[0] = Z3_mk_gt(Z, e, qNum(pend[i].tol)); Z3_inc_ref(Z, q[0]); q[1] = Z3_mk_lt(Z, e, qNum(-pend[i].tol)); Z3_inc_ref(Z, q[1]); viol.push_back(q[0]); viol.push_back(q[1]); Z3_dec_ref(Z, e); for (auto a : ts) Z3_dec_ref(Z, a); }
  Z3_solver_assert(Z, z, viol.size() == 1 ? viol[0] : Z3_mk_or(Z, viol.size(), viol.data()));
  double t0 = now(); ST.q++; Z3_lbool r = Z3_solver_check(Z, z); double d = now() - t0; ST.qtime += d; if (d > ST.qmax) ST.qmax = d;
  if (r == Z3_L_TRUE) ST.qsat++; else if (r == Z3_L_FALSE) ST.qunsat++; else ST.qunk++;
  for (auto a : viol) Z3_dec_ref(Z, a); for (auto &x : mv) Z3_dec_ref(Z, x.second); Z3_solver_dec_ref(Z, z); return r == Z3_L_FALSE;
}
static void batchFlush() {
  if (pend.empty()) return;
  if (!batchCheck(0, pend.size())) for (size_t i = 0; i < pend.size(); i++) if (!batchCheck(i, i + 1)) incomplete.insert("assertion not decided: " + pend[i].msg);
  pend.clear();
}
static void batchAdd(PolyN *p, Q tol, Q lo, Q hi, const std::string &msg) {
  Pend n; n.tol = tol; n.msg = msg; Q g = tol * 0x1p-30Q; PolyN *q = new PolyN; n.p = IP<Node>(q); Q err = 0;
  if (tol > 0) for (auto &t : p->t) { Q c2 = (Q)rintl((long double)(t.c / g)) * g, dl = t.c - c2; if (dl != 0) { PolyN one; Q x, y; one.t.push_back({t.m, 1}); if (!polyRange(&one, x, y)) return; if (dl < 0) dl = -dl; x = x < 0 ? -x : x; y = y < 0 ? -y : y; err += dl * (x > y ? x : y); } if (c2 != 0) q->t.push_back({t.m, c2}); }
  if (tol > 0 && hi + 2 * err <= tol && lo - 2 * err >= -tol) n.tol = tol - err; else q->t = p->t;
  uint64_t h = 1469598103934665603ull; auto mix = [&](uint64_t v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 29; }; auto mixq = [&](Q v) { union { Q q; uint64_t u[2]; } x; x.q = v; mix(x.u[0]); mix(x.u[1]); };
  mixq(tol); for (auto &t : q->t) { mix(t.m); mixq(t.c); }
  if (!pendSeen.insert(h).second) return; // the same assertion was decided before
  pend.push_back(std::move(n)); if (pend.size() >= 128) batchFlush();
}
static bool tooMany();
static bool doAssert(State &s, const Val &c, const std::string &msg, bool nl = false, Z3_ast strong = nullptr) {
  if (c.k != V_U && !wanted("assert")) return true;
  ST.asserts++; ST.oblig++;
  if (c.k == V_C) { ST.assertsTriv++; if (c.c & 1) return true; fail(s, "assert", msg); return false; }
  if (c.k == V_U) { fail(s, "memory", "property evaluated on an uninitialised value: " + msg); return false; }
  Z3_ast b = toBool(c); Z3_inc_ref(Z, b); Z3_ast nb = mkNot(b); Z3_inc_ref(Z, nb);
  ST.assertsSolver++;
  if (strong) { // cheap search for a large violation: a model of the path condition that also breaks the assertion
    if (nl || s.nonlin) { if (pinnedModel(s, strong)) { record(s, "assert", msg, lastModel); Z3_dec_ref(Z, b); Z3_dec_ref(Z, nb); return false; } }
    else if (!s.model) { if (solve(s, nullptr, nl) == Z3_L_TRUE) s.model = lastModel; }
    bool v; if (s.model && modelTrue(s, strong, v) && v) { record(s, "assert", msg, s.model); Z3_dec_ref(Z, b); Z3_dec_ref(Z, nb); return false; }
  }
  Z3_lbool r = solve(s, nb, nl);
  bool ok = true;
  if (r == Z3_L_TRUE) { IP<Model> m = lastModel; if (strong && solve(s, strong, nl) == Z3_L_TRUE) m = lastModel; record(s, "assert", msg, m); if (strong || tooMany()) ok = false; // continue with the property assumed, if possible
    bool v; if (ok && !(s.model && modelTrue(s, b, v) && v)) { if (solve(s, b, nl) == Z3_L_TRUE) s.model = lastModel; else ok = false; }
    if (ok) addPC(s, b);
  }
  else if (r == Z3_L_UNDEF) incomplete.insert("assertion not decided within the solver time limit: " + msg);
  Z3_dec_ref(Z, b); Z3_dec_ref(Z, nb);
  return ok;
}
static Res doAssume(State &s, const Val &c) {
  if (c.k == V_C) { if (c.c & 1) { advance(s); return R_NEXT; } ST.infeasible++; return R_KILL; }
  if (c.k == V_U) unsup("assume on undefined value");
  Z3_ast b = toBool(c); Z3_inc_ref(Z, b); bool v;
  if (modelTrue(s, b, v) && v) { addPC(s, b); Z3_dec_ref(Z, b); advance(s); return R_NEXT; }
  Z3_lbool r = solve(s, b);
  if (r == Z3_L_FALSE) { ST.infeasible++; Z3_dec_ref(Z, b); return R_KILL; }
  addPC(s, b); s.model = r == Z3_L_TRUE ? lastModel : IP<Model>(); Z3_dec_ref(Z, b); advance(s); return R_NEXT;
}
static Val eqBits(State &s, const Val &a, const Val &b, unsigned nbytes) {
  if (a.k == V_U || b.k == V_U) return Val();
  if (a.conc() && b.conc()) return Val::C(maskw(a.c, nbytes * 8) == maskw(b.c, nbytes * 8));
  if (a.k == V_B || b.k == V_B) { if (a.k == b.k && a.p.p == b.p.p && a.c == b.c) return Val::C(1); unsup("compare the bytes of a real"); }
  if (a.p.p && a.p.p == b.p.p) return Val::C(1);
  if (a.k == V_R || b.k == V_R) { if (a.k == V_S || b.k == V_S) unsup("compare real with bits"); return realCmp(s, CmpInst::FCMP_OEQ, a, b); }
  return fromBool(Z3_mk_eq(Z, toBV(a, nbytes * 8), toBV(b, nbytes * 8)));
}
static void startThreadTeam(State &s, Function *fn, std::vector<Val> &shared, int nt) {
  Proc &P = s.P(); P.teamN = nt; P.barCount = 0; P.singles.clear(); P.race = IP<RaceMem>();
  VC base(nt, 0); base[0] = 1;
  P.th[0].tid = 0; P.th[0].vc = base; 
  int saved = s.ct;
  for (int t = 1; t < nt; t++) { Thread T; T.tid = t; T.vc = base; T.vc[t] = 1; P.th.push_back(T); }
  P.th[0].vc[0]++;
  for (int t = 0; t < nt; t++) {
    s.ct = t; uint64_t g = allocObj(s, 4, OK_STACK, true), b = allocObj(s, 4, OK_STACK, true); P.teamN = 1; storeN(s, g, 4, Val::C(t)); P.teamN = nt;
    std::vector<Val> a = {Val::C(g), Val::C(b)}; a.insert(a.end(), shared.begin(), shared.end());
    pushFrame(s, fn, a); s.F().ompRoot = true; s.F().allocas.push_back(idOf(g)); s.F().allocas.push_back(idOf(b));
  }
  s.ct = saved; s.preempt = s.flags.count("preempt") ? s.flags["preempt"] : 0;
}
static Res concArg(State &s, const Ins &n, int i, unsigned w) { if (n.o[i].reg < 0) unsup("concretise constant"); if (!concretize(s, s.F(), n.o[i], w)) { ST.infeasible++; return R_KILL; } return R_JUMPED; }

static Res handle(State &s, const Ins &n, int hid, std::vector<Val> &a, Function *cf) {
  auto needC = [&](int i) { return a[i].conc(); };
  switch (hid) {
  case H_nop: advance(s); return R_NEXT;
  case H_zero: return retv(s, n, Val::C(0));
  case H_lifetime_start: { // (size, ptr): contents become undefined
    if (a[1].conc()) { Obj *o = objW(s, idOf(a[1].c)); if (o && o->kind == OK_STACK && (a[1].c & OFFMASK) == 0) { o->cells.clear(); std::fill(o->tag.begin(), o->tag.end(), (uint8_t)T_UNINIT); } } advance(s); return R_NEXT; }
  case H_lifetime_end: advance(s); return R_NEXT;
  case H_malloc: {
    if (a[0].k == V_U) { fail(s, "memory", "allocation of uninitialised size"); return endPath(s); }
    if (!needC(0)) return concArg(s, n, 0, 64);
    if (a[0].c > (1ull << 30)) { fail(s, "memory", "allocation of " + std::to_string(a[0].c) + " bytes"); return endPath(s); }
    return retv(s, n, Val::C(allocObj(s, a[0].c, OK_HEAP, false))); }
  case H_exc_alloc: return retv(s, n, Val::C(allocObj(s, a[0].c, OK_HEAP, false)));
  case H_calloc: { if (!needC(0)) return concArg(s, n, 0, 64); if (!needC(1)) return concArg(s, n, 1, 64); if (a[0].c * a[1].c > (1ull << 30)) { fail(s, "memory", "huge allocation"); return endPath(s); } return retv(s, n, Val::C(allocObj(s, a[0].c * a[1].c, OK_HEAP, true))); }
  case H_realloc: {
    if (!needC(1)) return concArg(s, n, 1, 64);
    uint64_t p = allocObj(s, a[1].c, OK_HEAP, false);
    if (a[0].c) { Obj *o = objR(s, idOf(a[0].c)); if (!o) { fail(s, "memory", "realloc of freed memory"); return endPath(s); } memCopy(s, p, a[0].c, std::min(o->size, a[1].c)); freeObj(s, idOf(a[0].c)); }
    return retv(s, n, Val::C(p)); }
  case H_free: {
    if (!a[0].conc()) unsup("free of symbolic pointer");
    if (a[0].c) { Obj *o = objR(s, idOf(a[0].c)); if (!o || (a[0].c & OFFMASK) || o->kind != OK_HEAP) { fail(s, "memory", o ? "free of an invalid pointer" : "double free"); return endPath(s); } if (s.P().teamN > 1 && o->size) raceCheck(s, a[0].c, 1, true, false); freeObj(s, idOf(a[0].c)); }
    advance(s); return R_NEXT; }
  case H_memcpy: {
    if (a[2].k == V_U || a[1].k == V_U || a[0].k == V_U) { fail(s, "memory", "copy with uninitialised arguments"); return endPath(s); }
    for (int i = 0; i < 3; i++) if (!needC(i)) return concArg(s, n, i, 64);
    memCopy(s, a[0].c, a[1].c, a[2].c); return retv(s, n, a[0]); }
  case H_memset: {
    for (int i = 0; i < 3; i += 2) if (!needC(i)) { if (a[i].k == V_U) { fail(s, "memory", "memset with uninitialised arguments"); return endPath(s); } return concArg(s, n, i, 64); }
    if (a[2].c) {
      Obj *o = chk(s, a[0].c, a[2].c, true); uint32_t off = a[0].c & OFFMASK;
      if (s.P().teamN > 1) for (uint64_t i = 0; i < a[2].c; i += 8) raceCheck(s, a[0].c + i, a[2].c - i < 8 ? a[2].c - i : 8, true, false);
      clearCells(o, off, a[2].c);
      if (a[1].conc()) { memset(&o->b[off], (int)a[1].c, a[2].c); std::fill(o->tag.begin() + off, o->tag.begin() + off + a[2].c, (uint8_t)T_CONC); }
      else if (a[1].k == V_U) std::fill(o->tag.begin() + off, o->tag.begin() + off + a[2].c, (uint8_t)T_UNINIT);
      else { Val b = a[1]; if (b.bv()->w != 8) b = fromBV(Z3_mk_extract(Z, 7, 0, b.bv()->a), 8); for (uint64_t i = 0; i < a[2].c; i++) storeN(s, a[0].c + i, 1, b); }
    }
    return retv(s, n, a[0]); }
  case H_strlen: {
    if (!needC(0)) return concArg(s, n, 0, 64);
    for (uint64_t i = 0;; i++) { Val v = loadN(s, a[0].c + i, 1); if (v.k == V_U) { fail(s, "memory", "strlen of uninitialised memory"); return endPath(s); } if (v.conc()) { if (!v.c) return retv(s, n, Val::C(i)); continue; }
      Z3_ast z = Z3_mk_eq(Z, toBV(v, 8), bvNum(0, 8)); Z3_inc_ref(Z, z); IP<Model> mt, mf; int fe = feas(s, z, mt, mf);
      if (fe == 0) { ST.infeasible++; return R_KILL; }
      if (fe & 1) { if (fe & 2) { State *o = cloneState(s); ST.forks++; addPC(*o, mkNot(z)); o->model = mf; work.push_back(o); addPC(s, z); } s.model = mt; Z3_dec_ref(Z, z); return retv(s, n, Val::C(i)); }
      s.model = mf; Z3_dec_ref(Z, z); } }
  case H_memcmp: {
    for (int i = 0; i < 3; i++) if (!needC(i)) return concArg(s, n, i, 64);
    Val r = Val::C(0);
    // find first definite difference to bound the expression
    std::vector<std::pair<Val, Val>> bs; bool done = false;
    for (uint64_t i = 0; i < a[2].c && !done; i++) { Val x = loadN(s, a[0].c + i, 1), y = loadN(s, a[1].c + i, 1); if (x.k == V_U || y.k == V_U) { fail(s, "memory", "comparison of uninitialised memory"); return endPath(s); } if (x.conc() && y.conc()) { if (x.c == y.c) continue; done = true; } bs.push_back({x, y}); }
    for (int i = (int)bs.size() - 1; i >= 0; i--) {
      Val &x = bs[i].first, &y = bs[i].second;
      if (x.conc() && y.conc()) { r = Val::C(maskw(x.c < y.c ? -1 : 1, 32)); continue; }
      Z3_ast X = toBV(x, 8), Y = toBV(y, 8); r = fromBV(Z3_mk_ite(Z, Z3_mk_eq(Z, X, Y), toBV(r, 32), Z3_mk_ite(Z, Z3_mk_bvult(Z, X, Y), bvNum(0xffffffffu, 32), bvNum(1, 32))), 32);
    }
    return retv(s, n, r); }
  case H_memchr: {
    for (int i = 0; i < 3; i += 2) if (!needC(i)) return concArg(s, n, i, 64);
    Val r = Val::C(0); Val ch = a[1]; if (ch.k == V_S) ch = fromBV(Z3_mk_extract(Z, 7, 0, toBV(ch, 32)), 8); else if (ch.k == V_C) ch.c &= 255;
    for (int64_t i = (int64_t)a[2].c - 1; i >= 0; i--) { Val x = loadN(s, a[0].c + i, 1); Val e = icmp(s, CmpInst::ICMP_EQ, x, ch, 8); if (e.k == V_U) { fail(s, "memory", "search in uninitialised memory"); return endPath(s); } bool fk; r = selectV(s, e, Val::C(a[0].c + i), r, 64, fk); }
    return retv(s, n, r); }
  case H_strcmp: { std::string x, y; x = readStr(s, a[0].c); y = readStr(s, a[1].c); return retv(s, n, Val::C(maskw(x < y ? -1 : x > y ? 1 : 0, 32))); }
  case H_snprintf: { if (a[0].conc() && a[0].c) storeN(s, a[0].c, 1, Val::C(0)); return retv(s, n, Val::C(0)); }
  // ---- floating point
  case H_sqrt: { if (a[0].k == V_U) return retv(s, n, Val()); if (a[0].conc()) return retv(s, n, Val::C(bits(std::sqrt(dbl(a[0].c))))); if (a[0].k == V_S) return retv(s, n, ufApp("sqrt", a[0], a[0])); return retv(s, n, realSqrt(s, a[0])); }
  case H_fabs: {
    if (a[0].k == V_U) return retv(s, n, Val());
    if (n.w == 32) return retv(s, n, Val::C(a[0].c & 0x7fffffffu));
    if (a[0].conc()) return retv(s, n, Val::C(a[0].c & ~(1ull << 63)));
    if (a[0].k == V_S) return retv(s, n, fromBV(Z3_mk_bvand(Z, toBV(a[0], 64), bvNum(~(1ull << 63), 64)), 64));
    if (s.flags.count("lazyabs") && s.flags["lazyabs"]) return retv(s, n, realAbs(s, a[0]));
    Val c = realCmp(s, CmpInst::FCMP_OGE, a[0], Val::C(0)); if (c.conc()) return retv(s, n, c.c ? a[0] : polyScale(a[0], -1));
    Z3_ast b = toBool(c); Z3_inc_ref(Z, b); IP<Model> mt, mf; int fe = feas(s, b, mt, mf); if (fe == 0) { ST.infeasible++; return R_KILL; }
    if (fe == 3) { State *o = cloneState(s); ST.forks++; addPC(*o, mkNot(b)); o->model = mf; retv(*o, n, polyScale(a[0], -1)); work.push_back(o); addPC(s, b); s.model = mt; }
    Z3_dec_ref(Z, b); return retv(s, n, (fe & 1) ? a[0] : polyScale(a[0], -1)); }
  case H_fminmax: {
    if (a[0].k == V_U || a[1].k == V_U) return retv(s, n, Val());
    bool mx = cf->getName().contains("max");
    if (a[0].conc() && a[1].conc()) { double x = dbl(a[0].c), y = dbl(a[1].c); return retv(s, n, Val::C(bits(mx ? std::fmax(x, y) : std::fmin(x, y)))); }
    Val c = fcmp(s, CmpInst::FCMP_OGE, a[0], a[1], 2); const Val &t = mx ? a[0] : a[1], &e = mx ? a[1] : a[0];
    if (c.conc()) return retv(s, n, c.c ? t : e);
    Z3_ast b = toBool(c); Z3_inc_ref(Z, b); IP<Model> mt, mf; int fe = feas(s, b, mt, mf); if (fe == 0) { ST.infeasible++; return R_KILL; }
    if (fe == 3) { State *o = cloneState(s); ST.forks++; addPC(*o, mkNot(b)); o->model = mf; retv(*o, n, e); work.push_back(o); addPC(s, b); s.model = mt; }
    Z3_dec_ref(Z, b); return retv(s, n, (fe & 1) ? t : e); }
  case H_fmuladd: { if (a[0].k == V_U || a[1].k == V_U || a[2].k == V_U) return retv(s, n, Val()); if (n.w == 0) unsup("vector fma"); return retv(s, n, fpBin(s, Instruction::FAdd, fpBin(s, Instruction::FMul, a[0], a[1], 2), a[2], 2)); }
  case H_copysign: { if (!a[0].conc() || !a[1].conc()) unsup("copysign symbolic"); return retv(s, n, Val::C((a[0].c & ~(1ull << 63)) | (a[1].c & (1ull << 63)))); }
  case H_isfinite: { if (a[0].k == V_R) return retv(s, n, Val::C(1)); if (!a[0].conc()) unsup("isfinite"); return retv(s, n, Val::C(std::isfinite(dbl(a[0].c)))); }
  case H_isfpclass: { uint64_t m = a[1].c; if (a[0].k == V_R) { bool finite = (m & 0x1f8) == 0x1f8; if (finite) return retv(s, n, Val::C(1)); if ((m & 0x1f8) == 0) return retv(s, n, Val::C(0)); unsup("is.fpclass"); } if (!a[0].conc()) unsup("is.fpclass"); double d = dbl(a[0].c); bool neg = std::signbit(d); bool r = false; if (std::isnan(d)) r = m & 3; else if (std::isinf(d)) r = m & (neg ? 4 : 512); else if (d == 0) r = m & (neg ? 32 : 64); else if (std::fpclassify(d) == FP_SUBNORMAL) r = m & (neg ? 16 : 128); else r = m & (neg ? 8 : 256); return retv(s, n, Val::C(r)); }
  case H_floor: { if (a[0].k == V_U) return retv(s, n, Val()); if (!a[0].conc()) unsup("rounding of symbolic real"); StringRef nm = cf->getName(); double x = dbl(a[0].c); double r = nm.contains("floor") ? std::floor(x) : nm.contains("ceil") ? std::ceil(x) : nm.contains("trunc") ? std::trunc(x) : nm.contains("rint") || nm.contains("nearby") ? std::rint(x) : std::round(x); return retv(s, n, Val::C(bits(r))); }
  case H_libm1: {
    if (a[0].k == V_U) return retv(s, n, Val()); StringRef nm = cf->getName(); if (nm.starts_with("llvm.")) { nm = nm.drop_front(5); nm = nm.substr(0, nm.find('.')); }
    if (a[0].conc()) { double x = dbl(a[0].c), r; if (nm == "exp") r = exp(x); else if (nm == "log") r = log(x); else if (nm == "sin") r = sin(x); else if (nm == "cos") r = cos(x); else if (nm == "tan") r = tan(x); else if (nm == "acos") r = acos(x); else if (nm == "asin") r = asin(x); else if (nm == "atan") r = atan(x); else if (nm == "log10") r = log10(x); else if (nm == "cbrt") r = cbrt(x); else unsup("libm " + nm.str()); return retv(s, n, Val::C(bits(r))); }
    if (a[0].k == V_S) { Val z = Val::C(0); return retv(s, n, ufApp(nm.str().c_str(), a[0], z)); }
    std::string k = nm.str() + "|" + polyKey(a[0].poly()); uint32_t v; auto it = auxVars.find(k); if (it == auxVars.end()) { v = newVar(nm.str() + "!" + std::to_string(auxVars.size())); auxVars[k] = v; } else v = it->second;
    return retv(s, n, mkPoly(polyVar(v))); }
  case H_libm2: {
    if (a[0].k == V_U || a[1].k == V_U) return retv(s, n, Val()); StringRef nm = cf->getName(); if (nm.starts_with("llvm.")) { nm = nm.drop_front(5); nm = nm.substr(0, nm.find('.')); }
    if (nm == "ldexp") { if (!a[0].conc() || !a[1].conc()) unsup("ldexp"); return retv(s, n, Val::C(bits(ldexp(dbl(a[0].c), (int)a[1].c)))); }
    if (a[0].conc() && a[1].conc()) { double x = dbl(a[0].c), y = dbl(a[1].c), r; if (nm == "pow") r = pow(x, y); else if (nm == "atan2") r = atan2(x, y); else if (nm == "fmod") r = fmod(x, y); else if (nm == "hypot") r = hypot(x, y); else unsup("libm2"); return retv(s, n, Val::C(bits(r))); }
    if (nm == "pow" && a[1].conc() && a[0].k == V_R) { double y = dbl(a[1].c); if (y == 0) return retv(s, n, Val::C(bits(1.0))); if (y == 0.5) return retv(s, n, realSqrt(s, a[0])); if (y == floor(y) && y > 0 && y <= 8) { Val r = a[0]; for (int i = 1; i < (int)y; i++) r = polyMul(r, a[0]); return retv(s, n, normR(r)); } }
    unsup("libm2 symbolic"); }
  // ---- integer intrinsics
  case H_minmax_i: {
    StringRef nm = cf->getName(); unsigned p = nm.contains("umax") ? CmpInst::ICMP_UGT : nm.contains("umin") ? CmpInst::ICMP_ULT : nm.contains("smax") ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT; if (n.w == 0) unsup("vector minmax");
    Val c = icmp(s, p, a[0], a[1], n.w); bool fk; return retv(s, n, selectV(s, c, a[0], a[1], n.w, fk)); }
  case H_abs_i: { Val c = icmp(s, CmpInst::ICMP_SLT, a[0], Val::C(0), n.w); Val ng = intBin(s, Instruction::Sub, Val::C(0), a[0], n.w); bool fk; return retv(s, n, selectV(s, c, ng, a[0], n.w, fk)); }
  case H_ovf: {
    StringRef nm = cf->getName(); unsigned w = n.w0; unsigned op = nm.contains("add.with") ? Instruction::Add : nm.contains("sub.with") ? Instruction::Sub : Instruction::Mul; bool sg = nm.starts_with("llvm.s");
    if (a[0].k == V_U || a[1].k == V_U) return retv(s, n, Val());
    Val r = intBin(s, op, a[0], a[1], w), o;
    if (a[0].conc() && a[1].conc()) { __int128 x = sg ? (__int128)sextw(a[0].c, w) : (__int128)maskw(a[0].c, w), y = sg ? (__int128)sextw(a[1].c, w) : (__int128)maskw(a[1].c, w); __int128 z = op == Instruction::Add ? x + y : op == Instruction::Sub ? x - y : (sg ? x * y : (__int128)((unsigned __int128)x * (unsigned __int128)y)); if (!sg && op == Instruction::Mul) { unsigned __int128 u = (unsigned __int128)maskw(a[0].c, w) * maskw(a[1].c, w); o = Val::C((u >> w) != 0); } else o = Val::C(z != (sg ? (__int128)sextw(r.c, w) : (__int128)maskw(r.c, w))); }
    else { Z3_ast x = toBV(a[0], w), y = toBV(a[1], w); Z3_ast nov; if (op == Instruction::Add) { nov = Z3_mk_bvadd_no_overflow(Z, x, y, sg); if (sg) { Z3_ast q[2] = {nov, Z3_mk_bvadd_no_underflow(Z, x, y)}; nov = Z3_mk_and(Z, 2, q); } } else if (op == Instruction::Sub) { nov = sg ? Z3_mk_bvsub_no_overflow(Z, x, y) : Z3_mk_bvsub_no_underflow(Z, x, y, false); if (sg) { Z3_ast q[2] = {nov, Z3_mk_bvsub_no_underflow(Z, x, y, true)}; nov = Z3_mk_and(Z, 2, q); } } else { nov = Z3_mk_bvmul_no_overflow(Z, x, y, sg); if (sg) { Z3_ast q[2] = {nov, Z3_mk_bvmul_no_underflow(Z, x, y)}; nov = Z3_mk_and(Z, 2, q); } } o = fromBool(mkNot(nov)); }
    Val v; v.k = V_A; AggN *g = new AggN; g->v = {r, o}; v.p = IP<Node>(g); return retv(s, n, v); }
  case H_sat: { bool add = cf->getName().contains("uadd"); Val r = intBin(s, add ? Instruction::Add : Instruction::Sub, a[0], a[1], n.w); Val c = add ? icmp(s, CmpInst::ICMP_ULT, r, a[0], n.w) : icmp(s, CmpInst::ICMP_ULT, a[0], a[1], n.w); bool fk; return retv(s, n, selectV(s, c, Val::C(add ? maskw(~0ull, n.w) : 0), r, n.w, fk)); }
  case H_fsh: { bool l = cf->getName().contains("fshl"); if (!a[2].conc()) unsup("funnel shift"); unsigned w = n.w, k = a[2].c % w; if (k == 0) return retv(s, n, l ? a[0] : a[1]); Val hi = intBin(s, Instruction::Shl, a[0], Val::C(l ? k : w - k), w), lo = intBin(s, Instruction::LShr, a[1], Val::C(l ? w - k : k), w); return retv(s, n, intBin(s, Instruction::Or, hi, lo, w)); }
  case H_ctpop: if (!needC(0)) { return concArg(s, n, 0, n.w); } return retv(s, n, Val::C(__builtin_popcountll(maskw(a[0].c, n.w))));
  case H_ctlz: if (!needC(0)) { return concArg(s, n, 0, n.w); } { uint64_t x = maskw(a[0].c, n.w); return retv(s, n, Val::C(x ? __builtin_clzll(x) - (64 - n.w) : n.w)); }
  case H_cttz: if (!needC(0)) { return concArg(s, n, 0, n.w); } { uint64_t x = maskw(a[0].c, n.w); return retv(s, n, Val::C(x ? __builtin_ctzll(x) : n.w)); }
  case H_bswap: { if (!needC(0)) unsup("bswap"); uint64_t x = a[0].c, r = 0; for (unsigned i = 0; i < n.w / 8; i++) r |= ((x >> (8 * i)) & 255) << (n.w - 8 - 8 * i); return retv(s, n, Val::C(r)); }
  case H_vecreduce: { StringRef nm = cf->getName(); if (nm.contains(".fadd") || nm.contains(".fmul")) { Val r = a[0]; for (auto &x : a[1].agg()) r = fpBin(s, nm.contains(".fadd") ? Instruction::FAdd : Instruction::FMul, r, x, 2); return retv(s, n, r); } unsigned op = nm.contains(".add") ? Instruction::Add : nm.contains(".mul") ? Instruction::Mul : nm.contains(".or") ? Instruction::Or : nm.contains(".and") ? Instruction::And : nm.contains(".xor") ? Instruction::Xor : 0; if (!op) unsup("vector reduce"); Val r = a[0].agg()[0]; for (size_t i = 1; i < a[0].agg().size(); i++) r = intBin(s, op, r, a[0].agg()[i], n.w); return retv(s, n, r); }
  case H_expect: return retv(s, n, a[0]);
  case H_isconst: return retv(s, n, Val::C(0));
  case H_objsize: return retv(s, n, Val::C(~0ull));
  case H_stacksave: return retv(s, n, Val::C(0));
  case H_typeid: return retv(s, n, Val::C(idOf(a[0].c) & 0x7fffffff));
  case H_trap: fail(s, "ub", "trap executed"); return endPath(s);
  case H_abort: case H_exit: case H_terminate: {
    if (hid == H_exit && a[0].conc() && (a[0].c & 255) == 0) return procDone(s);
    if (s.flags.count("abort_ok") && s.flags["abort_ok"]) { reach["<expected stop>"]++; return endPath(s); }
    fail(s, "abort", hid == H_exit ? "program stopped with an error exit" : hid == H_terminate ? "std::terminate called" : "program aborted (assertion or Insist failed)"); return endPath(s); }
  // ---- exceptions
  case H_throw: s.P().exc.active = true; s.P().exc.obj = a[0].c; s.P().exc.ti = a[1].c; return unwind(s);
  case H_rethrow: return unwind(s);
  case H_begin_catch: s.P().caught.push_back(a[0].c); return retv(s, n, a[0]);
  case H_end_catch: if (!s.P().caught.empty()) s.P().caught.pop_back(); advance(s); return R_NEXT;
  // ---- symbolic inputs
  case H_sx_u: {
    unsigned w = n.w; std::string nm = symName(s, readStr(s, a[0].c)); Z3_ast x = bvSym(nm, w); s.syms.push_back({nm, x, 0, w}); return retv(s, n, mkS(x, w, false)); }
  case H_sx_bool: { std::string nm = symName(s, readStr(s, a[0].c)); Z3_ast x = bvSym(nm, 8); s.syms.push_back({nm, x, 0, 8}); return retv(s, n, fromBool(mkNot(Z3_mk_eq(Z, x, bvNum(0, 8))))); }
  case H_sx_opaque: { std::string nm = symName(s, readStr(s, a[0].c)); Z3_ast x = bvSym(nm, 64); s.syms.push_back({nm, x, 0, 64}); return retv(s, n, mkS(x, 64, false)); }
  case H_sx_real: { std::string nm = symName(s, readStr(s, a[0].c)); uint32_t v; auto it = realCache.find(nm); if (it == realCache.end()) { v = newVar(nm); realCache[nm] = v; } else v = it->second; s.syms.push_back({nm, vars[v].a, 1, 0}); return retv(s, n, mkPoly(polyVar(v))); }
  case H_sx_realin: { // arbitrary real of a closed interval
    std::string nm = symName(s, readStr(s, a[0].c)); double l = dbl(a[1].c), h = dbl(a[2].c); uint32_t v; auto it = realCache.find(nm); if (it == realCache.end()) { v = newVar(nm); realCache[nm] = v; vars[v].bounded = true; vars[v].lo = l; vars[v].hi = h; } else v = it->second;
    if (!vars[v].bounded) unsup("sx_real_in after sx_real of the same name"); if (l < vars[v].lo || h > vars[v].hi) unsup("sx_real_in with different ranges for the same name");
    s.syms.push_back({nm, vars[v].a, 1, 0}); Z3_ast q[2] = {Z3_mk_ge(Z, vars[v].a, qNum((Q)l)), Z3_mk_le(Z, vars[v].a, qNum((Q)h))}; addPC(s, Z3_mk_and(Z, 2, q)); s.model = IP<Model>(); return retv(s, n, mkPoly(polyVar(v))); }
  case H_sx_choose: {
    if (!needC(0)) return concArg(s, n, 0, 64);
    uint64_t k = a[0].c; std::string nm = symName(s, readStr(s, a[1].c)); if (k == 0) { ST.infeasible++; return R_KILL; }
    for (uint64_t i = 1; i < k; i++) { State *o = cloneState(s); ST.forks++; Z3_ast c = bvNum(i, 64); Z3_inc_ref(Z, c); o->syms.push_back({nm, c, 0, 64}); retv(*o, n, Val::C(i)); work.push_back(o); }
    Z3_ast c = bvNum(0, 64); Z3_inc_ref(Z, c); s.syms.push_back({nm, c, 0, 64}); return retv(s, n, Val::C(0)); }
  case H_sx_conc: if (a[0].k == V_U) unsup("sx_conc of undefined"); if (!needC(0)) { if (n.o[0].reg < 0) unsup("conc"); return concArg(s, n, 0, 64); } return retv(s, n, a[0]);
  case H_sx_assume: return doAssume(s, a[0]);
  case H_sx_assert: { bool ok = doAssert(s, a[0], readStr(s, a[1].c)); if (!ok) return endPath(s); advance(s); return R_NEXT; }
  case H_sx_near: { // (a, b, tol, msg)
    if (a[0].k == V_U || a[1].k == V_U) { fail(s, "memory", "property evaluated on an uninitialised value: " + readStr(s, a[3].c)); return endPath(s); }
    if (!wanted("assert")) { advance(s); return R_NEXT; }
    std::string msg = readStr(s, a[3].c); double tol = dbl(a[2].c);
    if (a[0].conc() && a[1].conc()) { double x = dbl(a[0].c), y = dbl(a[1].c); bool ok = std::fabs(x - y) <= tol; if (!doAssert(s, Val::C(ok), msg)) return endPath(s); advance(s); return R_NEXT; }
    if (a[0].k == V_S || a[1].k == V_S) { if (!doAssert(s, eqBits(s, a[0], a[1], 8), msg)) return endPath(s); advance(s); return R_NEXT; }
    if ((a[0].conc() && !std::isfinite(dbl(a[0].c))) || (a[1].conc() && !std::isfinite(dbl(a[1].c)))) { fail(s, "assert", msg + " (non-finite value)"); return endPath(s); }
    Val d = polyAdd(toR(a[0]), toR(a[1]), -1); Q c;
    if (polyIsConst(d.poly(), c)) { bool ok = c <= (Q)tol && c >= -(Q)tol; if (!doAssert(s, Val::C(ok), msg)) return endPath(s); advance(s); return R_NEXT; }
    if (hasInv(d.poly()) && provedZero(d.poly())) { ST.asserts++; ST.assertsNF++; advance(s); return R_NEXT; }
    { Q lo, hi; if (polyRange(d.poly(), lo, hi) && lo >= -(Q)tol && hi <= (Q)tol) { ST.asserts++; ST.assertsNF++; batchAdd(d.poly(), (Q)tol, lo, hi, msg); advance(s); return R_NEXT; } }
    if (tol > 0) { // coefficients rounded to 2^-48 of the tolerance's range; what is dropped is charged to the tolerance
      Q err = 0; PolyN *q = new PolyN; IP<Node> keepq(q); bool okr = true; for (auto &t : d.poly()->t) { Q g = (Q)tol * 0x1p-24Q, c2 = (Q)rintl((long double)(t.c / g)) * g, dl = t.c - c2; if (dl < 0) dl = -dl; PolyN one; Q lo, hi; one.t.push_back({t.m, 1}); if (dl != 0) { if (!polyRange(&one, lo, hi)) { okr = false; break; } Q a = lo < 0 ? -lo : lo, b = hi < 0 ? -hi : hi; err += dl * (a > b ? a : b); } if (c2 != 0) q->t.push_back({t.m, c2}); }
      if (okr && err < (Q)tol / 2) { Val v; v.k = V_R; v.p = keepq; d = v; tol = (double)((Q)tol - err); } }
    useAux(s, d.poly()); Z3_ast e = polyToReal(d.poly()); Z3_ast q[2] = {Z3_mk_le(Z, e, qNum((Q)tol)), Z3_mk_ge(Z, e, qNum(-(Q)tol))};
    if (tol == 0) q[0] = q[1] = Z3_mk_eq(Z, e, qNum(0));
    Z3_ast bb = Z3_mk_and(Z, 2, q);
    Z3_ast sq[2] = {Z3_mk_ge(Z, e, qNum((Q)tol + 0.01Q)), Z3_mk_le(Z, e, qNum(-(Q)tol - 0.01Q))}; Z3_ast strong = Z3_mk_or(Z, 2, sq); Z3_inc_ref(Z, strong);
    bool ok = doAssert(s, mkS(bb, 1, true), msg, polyNonlinear(d.poly()), strong); Z3_dec_ref(Z, strong); if (!ok) return endPath(s); advance(s); return R_NEXT; }
  case H_sx_same: { Val e = eqBits(s, a[0], a[1], 8); if (e.k == V_U) { fail(s, "memory", "property evaluated on an uninitialised value"); return endPath(s); } return retv(s, n, e); }
  case H_sx_sameb: { // (p, q, n)
    std::vector<Z3_ast> cs; Val r = Val::C(1);
    for (uint64_t i = 0; i < a[2].c;) { unsigned k = 1; if (a[2].c - i >= 8) { k = 8; Obj *o1 = chk(s, a[0].c + i, 8, false), *o2 = chk(s, a[1].c + i, 8, false); (void)o1; (void)o2; }
      Val x = loadN(s, a[0].c + i, k), y = loadN(s, a[1].c + i, k); if (x.k == V_U && y.k == V_U && k == 8) { k = 1; x = loadN(s, a[0].c + i, 1); y = loadN(s, a[1].c + i, 1); }
      Val e = eqBits(s, x, y, k); if (e.k == V_U) { fail(s, "memory", "property evaluated on an uninitialised value"); return endPath(s); } if (e.conc() && !e.c) { r = e; break; } if (!e.conc()) r = intBin(s, Instruction::And, r, e, 1); i += k; }
    return retv(s, n, r); }
  case H_sx_ite: { bool fk; Val r = selectV(s, a[0], a[1], a[2], n.w, fk); if (fk) unsup("sx_ite"); return retv(s, n, r); }
  case H_sx_reach: { std::string t = readStr(s, a[0].c); reach[t]++; s.tags.push_back(t); advance(s); return R_NEXT; }
  case H_sx_note: s.notes.push_back("r" + std::to_string(s.P().rank) + ": " + readStr(s, a[0].c)); if (O.trace) fprintf(stderr, "%s\n", s.notes.back().c_str()); advance(s); return R_NEXT;
  case H_sx_noteu: s.notes.push_back("r" + std::to_string(s.P().rank) + ": " + readStr(s, a[0].c) + " " + (a[1].conc() ? std::to_string(a[1].c) : std::string("<symbolic>"))); if (s.notes.size() > 400) s.notes.erase(s.notes.begin(), s.notes.begin() + 100); if (O.trace) fprintf(stderr, "%s\n", s.notes.back().c_str()); advance(s); return R_NEXT;
  case H_sx_fail: { std::string k = readStr(s, a[0].c), m = readStr(s, a[1].c); fail(s, k, m); return endPath(s); }
  case H_sx_end: return endPath(s);
  case H_sx_issym: return retv(s, n, Val::C(a[0].k != V_C));
  case H_sx_flag: { std::string f = readStr(s, a[0].c); s.flags[f] = (int64_t)a[1].c; if (f == "coefbits") coefBits = (int)a[1].c; advance(s); return R_NEXT; }
  case H_sx_getflag: { auto it = s.flags.find(readStr(s, a[0].c)); return retv(s, n, Val::C(it == s.flags.end() ? 0 : (uint64_t)it->second)); }
  case H_sx_param: { auto it = O.params.find(readStr(s, a[0].c)); return retv(s, n, it == O.params.end() ? a[1] : Val::C((uint64_t)strtoll(it->second.c_str(), 0, 0))); }
  case H_sx_shared: { Obj *o = new Obj; o->kind = OK_GLOBAL; o->size = a[0].c; o->b.assign(a[0].c, 0); o->tag.assign(a[0].c, T_CONC); uint32_t id = s.nextShared++; s.shared.slot(id & ~SHARED_ID) = IP<Obj>(o); return retv(s, n, Val::C((uint64_t)id << IDSHIFT)); }
  case H_sx_spawn: {
    if (!needC(0)) return concArg(s, n, 0, 32);
    int k = (int)a[0].c; if (s.procs.size() != 1 || s.P().th.size() != 1) unsup("sx_spawn twice");
    Proc base = s.procs[0]; for (int i = 1; i < k; i++) { Proc p = base; p.rank = i; s.procs.push_back(p); }
    for (int i = 0; i < k; i++) { s.cp = i; retv(s, n, Val::C(i)); } s.cp = 0; s.ct = 0; return R_SWITCH; }
  case H_sx_rank: return retv(s, n, Val::C(s.P().rank));
  case H_sx_nranks: return retv(s, n, Val::C(s.procs.size()));
  case H_sx_live: { int c = 0; for (auto &p : s.procs) if (!p.done) c++; return retv(s, n, Val::C(c)); }
  case H_sx_join: {
    if (s.P().rank != 0) return procDone(s);
    bool all = true; for (size_t i = 1; i < s.procs.size(); i++) if (!s.procs[i].done) all = false;
    if (all) { s.procs.resize(1); advance(s); return R_NEXT; }
    if (++s.idle > 3000) { fail(s, "hang", "a rank never finishes: deadlock or livelock"); return endPath(s); }
    schedule(s, true); return R_SWITCH; }
  case H_sx_yield: {
    advance(s); uint64_t lim = 60 * s.procs.size(); for (auto &p : s.procs) if (p.th.size() > 1) lim = 6000;
    if (++s.idle > lim) { fail(s, "hang", "deadlock or livelock: every rank waits and no message can make progress"); return endPath(s); }
    schedule(s, true); return R_SWITCH; }
  case H_sx_progress: s.idle = 0; s.ver++; advance(s); return R_NEXT;
  case H_sx_threads: s.P().ompN = (int)a[0].c; advance(s); return R_NEXT;
  case H_sx_liveobj: { // is [p, p+n) inside a live object
    uint64_t p = a[0].c, k = a[1].c; Obj *o = objR(s, idOf(p)); uint64_t off = p & OFFMASK; return retv(s, n, Val::C(o && off <= o->size && k <= o->size - off)); }
  // ---- OpenMP
  case H_omp_fork: {
    Function *fn = fnOfAddr(a[2].c); if (!fn) unsup("omp outlined function"); std::vector<Val> sh(a.begin() + 3, a.end());
    int nt = s.P().pushN ? s.P().pushN : s.P().ompN; s.P().pushN = 0;
    if (s.P().teamN > 1) nt = 1;
    if (nt <= 1) { uint64_t g = allocObj(s, 4, OK_STACK, true), b = allocObj(s, 4, OK_STACK, true); std::vector<Val> ar = {Val::C(g), Val::C(b)}; ar.insert(ar.end(), sh.begin(), sh.end()); pushFrame(s, fn, ar); s.F().allocas.push_back(idOf(g)); s.F().allocas.push_back(idOf(b)); return R_JUMPED; }
    reach["<parallel region with several threads>"]++;
    startThreadTeam(s, fn, sh, nt);
    if (s.flags.count("omp_order") && s.flags["omp_order"]) { std::string nm = symName(s, "omp_first_thread"); for (int t = 1; t < nt; t++) { State *o = cloneState(s); ST.forks++; o->ct = t; Z3_ast c = bvNum(t, 64); Z3_inc_ref(Z, c); o->syms.push_back({nm, c, 0, 64}); work.push_back(o); } Z3_ast c = bvNum(0, 64); Z3_inc_ref(Z, c); s.syms.push_back({nm, c, 0, 64}); }
    return R_SWITCH; }
  case H_omp_tid: case H_omp_gtid: return retv(s, n, Val::C(s.P().teamN > 1 ? s.T().tid : 0));
  case H_omp_n: return retv(s, n, Val::C(s.P().teamN));
  case H_omp_max: return retv(s, n, Val::C(s.P().ompN));
  case H_omp_push: s.P().pushN = (int)a[2].c; advance(s); return R_NEXT;
  case H_omp_setn: s.P().ompN = (int)a[0].c; advance(s); return R_NEXT;
  case H_omp_barrier: {
    if (s.P().teamN <= 1) { advance(s); return R_NEXT; }
    Proc &P = s.P(); advance(s); P.th[s.ct].status = TH_BAR; bool all = true; for (auto &t : P.th) if (t.status != TH_BAR && t.status != TH_DONE && t.status != TH_JOIN) all = false;
    if (all) { VC m; for (auto &t : P.th) if (t.status == TH_BAR) joinVC(m, t.vc); for (auto &t : P.th) if (t.status == TH_BAR) { t.vc = m; t.vc[t.tid]++; t.status = TH_RUN; } s.idle = 0; return R_SWITCH; }
    if (!scheduleInProc(s) && !schedule(s, false)) { fail(s, "hang", "threads deadlock at a barrier"); return endPath(s); } return R_SWITCH; }
  case H_omp_reduce: case H_omp_crit: {
    if (s.P().teamN <= 1) return retv(s, n, Val::C(1));
    uint64_t l = hid == H_omp_reduce ? a[6].c : a[2].c; Proc &P = s.P(); auto it = P.locks.find(l);
    if (it != P.locks.end() && it->second >= 0 && it->second != s.T().tid) { if (++s.idle > 6000) { fail(s, "hang", "threads wait forever for a critical section"); return endPath(s); } schedule(s, true); return R_SWITCH; }
    P.locks[l] = s.T().tid; joinVC(s.T().vc, rm(s).sync[l]); return retv(s, n, Val::C(1)); }
  case H_omp_endcrit: { if (s.P().teamN > 1) { uint64_t l = a[2].c; s.P().locks[l] = -1; joinVC(rm(s).sync[l], s.T().vc); s.T().vc[s.T().tid]++; s.idle = 0; } advance(s); return R_NEXT; }
  case H_omp_fini: advance(s); return R_NEXT;
  case H_omp_static: {
    bool w8 = cf->getName().contains("_8"), un = cf->getName().ends_with("u"); unsigned w = w8 ? 64 : 32; unsigned nb = w / 8; int sched = (int)a[2].c;
    uint64_t pl = a[4].c, pu = a[5].c, ps = a[6].c; Val L = loadN(s, pl, nb), U = loadN(s, pu, nb); if (!L.conc() || !U.conc() || !a[7].conc() || !a[8].conc()) unsup("symbolic parallel loop bounds");
    int64_t lo = un ? (int64_t)maskw(L.c, w) : sextw(L.c, w), hi = un ? (int64_t)maskw(U.c, w) : sextw(U.c, w), inc = sextw(a[7].c, w); if (inc != 1) unsup("omp for stride");
    int nt = s.P().teamN, t = nt > 1 ? s.T().tid : 0; int64_t trip = hi - lo + 1; if (trip < 0) trip = 0; int64_t mylo, myhi, stride = trip;
    if (sched == 34) { int64_t q = trip / nt, r = trip % nt; mylo = lo + t * q + std::min<int64_t>(t, r); myhi = mylo + q + (t < r ? 1 : 0) - 1; storeN(s, a[3].c, 4, Val::C(trip > 0 && (t == nt - 1))); }
    else { int64_t ck = sextw(a[8].c, w); if (ck < 1) ck = 1; mylo = lo + t * ck; myhi = mylo + ck - 1; stride = ck * nt; storeN(s, a[3].c, 4, Val::C(0)); }
    storeN(s, pl, nb, Val::C(maskw(mylo, w))); storeN(s, pu, nb, Val::C(maskw(myhi, w))); storeN(s, ps, nb, Val::C(maskw(stride, w))); advance(s); return R_NEXT; }
  case H_omp_disp_init: {
    if (!a[3].conc() || !a[4].conc()) unsup("symbolic parallel loop bounds"); int nt = s.P().teamN, t = nt > 1 ? s.T().tid : 0; bool w8 = cf->getName().contains("_8"); unsigned w = w8 ? 64 : 32;
    int64_t lo = sextw(a[3].c, w), hi = sextw(a[4].c, w), trip = hi - lo + 1; if (trip < 0) trip = 0; int64_t q = trip / nt, r = trip % nt, mylo = lo + t * q + std::min<int64_t>(t, r), myhi = mylo + q + (t < r ? 1 : 0) - 1;
    s.P().dispatch[t * 4] = 1; s.P().dispatch[t * 4 + 1] = mylo; s.P().dispatch[t * 4 + 2] = myhi; advance(s); return R_NEXT; }
  case H_omp_disp_next: {
    int t = s.P().teamN > 1 ? s.T().tid : 0; bool w8 = cf->getName().contains("_8"); unsigned nb = w8 ? 8 : 4; auto &D = s.P().dispatch; int64_t lo = D[t * 4 + 1], hi = D[t * 4 + 2]; if (!D[t * 4] || hi < lo) return retv(s, n, Val::C(0)); D[t * 4] = 0;
    storeN(s, a[2].c, 4, Val::C(0)); storeN(s, a[3].c, nb, Val::C(maskw(lo, nb * 8))); storeN(s, a[4].c, nb, Val::C(maskw(hi, nb * 8))); storeN(s, a[5].c, nb, Val::C(1)); return retv(s, n, Val::C(1)); }
  case H_omp_single: return retv(s, n, Val::C(s.P().teamN > 1 ? s.T().tid == 0 : 1));
  case H_omp_master: return retv(s, n, Val::C(s.P().teamN > 1 ? s.T().tid == 0 : 1));
  }
  unsup("handler " + std::to_string(hid) + " " + cf->getName().str());
}
