// ------------------------------------------------------------------ exploration
static bool outOfTime() { return now() - T0 > O.timeout; }
static size_t rssMB() { FILE *f = fopen("/proc/self/statm", "r"); if (!f) return 0; long a, b; int k = fscanf(f, "%ld %ld", &a, &b); fclose(f); return k == 2 ? (size_t)b * 4096 / (1 << 20) : 0; }
static volatile sig_atomic_t gotTerm = 0;
// work sharing between processes: a busy worker gives half of its open states to a forked helper when a slot is free
struct Share { volatile int idle, files, stop; };
static Share *SH = nullptr; static int myFile = -1;
static void resetWorker() { ST = Stats(); reach.clear(); viols.clear(); violKeys.clear(); sampleLines.clear(); for (auto &x : finfo) x.second->hits = 0; incomplete.clear(); engineError.clear(); pend.clear(); }
static void maybeShare() {
  if (!SH || work.size() < 2) return;
  int k = SH->idle; if (k <= 0 || !__sync_bool_compare_and_swap(&SH->idle, k, k - 1)) return;
  int id = __sync_fetch_and_add(&SH->files, 1);
  pid_t p = fork(); size_t half = (work.size() + 1) / 2;
  if (p == 0) { resetWorker(); myFile = id; work.resize(half); }
  else if (p > 0) work.erase(work.begin(), work.begin() + half);
  else { __sync_fetch_and_add(&SH->idle, 1); incomplete.insert("fork failed"); }
}
static void runState(State *s) {
  uint64_t cnt = 0;
  while (true) {
    Res r;
    try { r = step(*s); }
    catch (MemErr &e) { fail(*s, "memory", e.m); r = endPath(*s); }
    catch (Div0 &) { fail(*s, "arith", "division by zero"); r = endPath(*s); }
    catch (RaceErr &e) { fail(*s, "race", e.m); r = endPath(*s); }
    flushTrail();
    if (r == R_KILL) { delete s; return; }
    if (((++cnt) & 0x3fff) == 0) {
      if (outOfTime() || gotTerm) { incomplete.insert("time limit reached"); delete s; return; }
      if (s->steps > O.maxSteps) { incomplete.insert("step limit reached"); delete s; return; }
      if ((cnt & 0xfffff) == 0 && rssMB() > O.memMB) { incomplete.insert("memory limit reached"); delete s; return; }
    }
  }
}
static bool tooMany() { return (long)viols.size() >= O.maxViol && O.maxViol > 0; }
static void explore(size_t stopAt) {
  uint64_t k = 0;
  while (!work.empty()) {
    if (tooMany()) { if (SH) SH->stop = 1; for (auto w : work) delete w; work.clear(); return; }
    if (SH) { if (SH->stop) { work.clear(); return; } maybeShare(); }
    if (stopAt && work.size() >= stopAt) return;
    if (outOfTime() || gotTerm) { incomplete.insert("time limit reached"); for (auto w : work) delete w; work.clear(); return; }
    if ((++k & 0x3ff) == 0 && rssMB() > O.memMB) { incomplete.insert("memory limit reached"); for (auto w : work) delete w; work.clear(); return; }
    State *s;
    if (stopAt) { s = work.front(); work.erase(work.begin()); } else { s = work.back(); work.pop_back(); }
    runState(s);
    if (O.maxPaths && ST.paths >= O.maxPaths) { incomplete.insert("path limit"); for (auto w : work) delete w; work.clear(); return; }
  }
}
static void ser(FILE *f) {
  try { batchFlush(); } catch (Unsupported &u) { if (engineError.empty()) engineError = u.m; }
  fprintf(f, "%llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %.6f %.6f\n", (unsigned long long)ST.steps, (unsigned long long)ST.paths, (unsigned long long)ST.forks, (unsigned long long)ST.q, (unsigned long long)ST.qsat, (unsigned long long)ST.qunsat, (unsigned long long)ST.qunk, (unsigned long long)ST.asserts, (unsigned long long)ST.assertsTriv, (unsigned long long)ST.assertsSolver, (unsigned long long)ST.infeasible, (unsigned long long)ST.states, (unsigned long long)ST.switches, (unsigned long long)ST.raceChecks, (unsigned long long)ST.symBranches, (unsigned long long)ST.assertsNF, (unsigned long long)ST.intervalCmp, ST.qtime, ST.qmax);
  auto str = [&](const std::string &s) { fprintf(f, "%zu ", s.size()); fwrite(s.data(), 1, s.size(), f); fputc('\n', f); };
  fprintf(f, "%zu\n", reach.size()); for (auto &r : reach) { str(r.first); fprintf(f, "%llu\n", (unsigned long long)r.second); }
  size_t nf = 0; for (auto &x : finfo) if (x.second->repo && x.second->hits) nf++;
  fprintf(f, "%zu\n", nf); for (auto &x : finfo) if (x.second->repo && x.second->hits) { str(x.second->name); fprintf(f, "%llu\n", (unsigned long long)x.second->hits); }
  fprintf(f, "%zu\n", viols.size()); for (auto &v : viols) { str(v.kind); str(v.msg); str(v.where); str(v.cex); }
  fprintf(f, "%zu\n", incomplete.size()); for (auto &v : incomplete) str(v);
  fprintf(f, "%zu\n", sampleLines.size()); for (auto &v : sampleLines) str(v);
  str(engineError);
}
static bool deser(FILE *f, std::map<std::string, uint64_t> &fn) {
  unsigned long long v[17]; double qt, qm; for (auto &x : v) if (fscanf(f, "%llu", &x) != 1) return false; if (fscanf(f, "%lf %lf", &qt, &qm) != 2) return false;
  ST.steps += v[0]; ST.paths += v[1]; ST.forks += v[2]; ST.q += v[3]; ST.qsat += v[4]; ST.qunsat += v[5]; ST.qunk += v[6]; ST.asserts += v[7]; ST.assertsTriv += v[8]; ST.assertsSolver += v[9]; ST.infeasible += v[10]; ST.states += v[11]; ST.switches += v[12]; ST.raceChecks += v[13]; ST.symBranches += v[14]; ST.assertsNF += v[15]; ST.intervalCmp += v[16]; ST.qtime += qt; ST.qmax = std::max(ST.qmax, qm);
  auto str = [&]() { size_t k; if (fscanf(f, "%zu", &k) != 1) return std::string(); fgetc(f); std::string s(k, 0); if (k && fread(&s[0], 1, k, f) != k) return std::string(); fgetc(f); return s; };
  size_t k; unsigned long long c;
  if (fscanf(f, "%zu", &k) != 1) return false; for (size_t i = 0; i < k; i++) { std::string s = str(); if (fscanf(f, "%llu", &c) != 1) return false; reach[s] += c; }
  if (fscanf(f, "%zu", &k) != 1) return false; for (size_t i = 0; i < k; i++) { std::string s = str(); if (fscanf(f, "%llu", &c) != 1) return false; fn[s] += c; }
  if (fscanf(f, "%zu", &k) != 1) return false; for (size_t i = 0; i < k; i++) { Viol x; x.kind = str(); x.msg = str(); x.where = str(); x.cex = str(); if (!violKeys.count(x.kind + "|" + x.msg)) { violKeys.insert(x.kind + "|" + x.msg); viols.push_back(x); } }
  if (fscanf(f, "%zu", &k) != 1) return false; for (size_t i = 0; i < k; i++) incomplete.insert(str());
  if (fscanf(f, "%zu", &k) != 1) return false; for (size_t i = 0; i < k; i++) { std::string x = str(); if (sampleLines.size() < 6) sampleLines.push_back(x); }
  std::string e = str(); if (engineError.empty()) engineError = e;
  return true;
}
int main(int argc, char **argv) {
  std::string bc, entry = "sx_main"; 
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--timeout") O.timeout = atof(val().c_str()); else if (a == "--jobs") O.jobs = atoi(val().c_str()); else if (a == "--qtimeout") O.qtimeout = atoi(val().c_str()); else if (a == "--out") O.out = val(); else if (a == "--repo") O.repo = val();
    else if (a == "--entry") entry = val(); else if (a == "-v") O.verbose = true; else if (a == "--trace") O.trace = true; else if (a == "--max-viol") O.maxViol = atol(val().c_str()); else if (a == "--max-paths") O.maxPaths = atoll(val().c_str()); else if (a == "--no-race") O.race = false; else if (a == "--no-div0") O.div0 = false; else if (a == "--kinds") kindFilter = "," + val() + ","; else if (a == "--mem") O.memMB = atol(val().c_str());
    else if (a == "-p") { std::string kv = val(); size_t e = kv.find('='); O.params[kv.substr(0, e)] = kv.substr(e + 1); }
    else bc = a;
  }
  T0 = now();
  Z3_config cfg = Z3_mk_config(); Z = Z3_mk_context_rc(cfg); Z3_set_error_handler(Z, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); throw Unsupported{std::string("z3: ") + Z3_get_error_msg(c, e)}; });
  SMDiagnostic Err; auto MM = parseIRFile(bc, Err, LC); if (!MM) { Err.print("symx", errs()); return 3; }
  M = MM.get(); DL = &M->getDataLayout();
  SOL = mkSolver(false, O.qtimeout);
  State *s = new State; s->procs.resize(1); s->procs[0].th.resize(1);
  int status = 0;
  try {
    for (auto &G : M->globals()) {
      if (G.getName().starts_with("llvm.")) continue;
      uint64_t sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()) : 0;
      gaddr[&G] = allocObj(*s, std::max<uint64_t>(sz, G.isDeclaration() ? 64 : sz), OK_GLOBAL, true, G.getName().str());
    }
    for (auto &G : M->globals()) if (gaddr.count(&G) && G.hasInitializer()) { Obj *o = objW(*s, idOf(gaddr[&G])); initConst(*s, o, 0, G.getInitializer()); if (G.isConstant()) o->kind = OK_CONST; }
    Function *E = M->getFunction(entry); if (!E) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
    // run constructors first, then entry: push entry frame under constructors
    pushFrame(*s, E, {});
    // constructors in priority order: run each to completion
    std::vector<std::pair<uint64_t, Function *>> ctors;
    if (auto *GC = M->getGlobalVariable("llvm.global_ctors")) if (auto *CA = dyn_cast<ConstantArray>(GC->getInitializer())) for (auto &op : CA->operands()) { auto *cs = cast<ConstantStruct>(op); ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &c : ctors) { size_t d = s->T().st.size(); int sb = s->F().bb, sp = s->F().pc; pushFrame(*s, c.second, {}); while (s->T().st.size() > d) { 
        Frame &f = s->F(); Ins &n = f.f->bb[f.bb].ins[f.pc]; if (n.opc == Instruction::Ret && s->T().st.size() == d + 1) { popFrame(*s); break; }
        Res r = step(*s); flushTrail(); if (r == R_KILL) unsup("static constructor ended the program"); } s->F().bb = sb; s->F().pc = sp; }
    work.push_back(s);
    explore(O.jobs > 1 ? 8 : 0);
  } catch (Unsupported &u) { engineError = u.m + " [at " + (s ? "" : "") + "]"; if (!work.empty()) {} }
  catch (MemErr &u) { engineError = "memory error in static constructor: " + u.m; }
  std::map<std::string, uint64_t> fn;
  if (engineError.empty() && !work.empty() && O.jobs > 1) {
    fflush(stdout); fflush(stderr);
    SH = (Share *)mmap(nullptr, sizeof(Share), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); SH->idle = O.jobs - 1; SH->files = 1; SH->stop = 0;
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    pid_t p = fork();
    if (p == 0) {
      resetWorker(); myFile = 0;
      try { explore(0); } catch (Unsupported &u) { engineError = u.m; SH->stop = 1; }
      FILE *f = fopen((O.out + ".w" + std::to_string(myFile)).c_str(), "w"); ser(f); fclose(f); __sync_fetch_and_add(&SH->idle, 1); _exit(0);
    }
    for (auto &x : finfo) if (x.second->repo && x.second->hits) fn[x.second->name] += x.second->hits;
    for (;;) { int st; pid_t q = waitpid(-1, &st, 0); if (q < 0 && errno == ECHILD) break; }
    for (int i = 0; i < SH->files; i++) { std::string nm = O.out + ".w" + std::to_string(i); FILE *f = fopen(nm.c_str(), "r"); if (!f || !deser(f, fn)) incomplete.insert("a worker died"); if (f) fclose(f); unlink(nm.c_str()); }
  } else for (auto &x : finfo) if (x.second->repo && x.second->hits) fn[x.second->name] += x.second->hits;
  try { batchFlush(); } catch (Unsupported &u) { if (engineError.empty()) engineError = u.m; }
  double wall = now() - T0;
  FILE *f = O.out.empty() ? stdout : fopen(O.out.c_str(), "w");
  fprintf(f, "{\n \"steps\": %llu, \"paths\": %llu, \"forks\": %llu, \"states\": %llu, \"infeasible\": %llu, \"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"asserts\": %llu, \"asserts_constant\": %llu, \"asserts_solver\": %llu, \"asserts_normal_form\": %llu, \"branches_by_interval\": %llu, \"sym_branches\": %llu, \"switches\": %llu, \"race_checks\": %llu, \"solver_s\": %.3f, \"slowest_query_s\": %.3f, \"wall_s\": %.3f,\n", (unsigned long long)ST.steps, (unsigned long long)ST.paths, (unsigned long long)ST.forks, (unsigned long long)ST.states + 1, (unsigned long long)ST.infeasible, (unsigned long long)ST.q, (unsigned long long)ST.qsat, (unsigned long long)ST.qunsat, (unsigned long long)ST.qunk, (unsigned long long)ST.asserts, (unsigned long long)ST.assertsTriv, (unsigned long long)ST.assertsSolver, (unsigned long long)ST.assertsNF, (unsigned long long)ST.intervalCmp, (unsigned long long)ST.symBranches, (unsigned long long)ST.switches, (unsigned long long)ST.raceChecks, ST.qtime, ST.qmax, wall);
  fprintf(f, " \"reach\": {"); bool first = true; for (auto &r : reach) { fprintf(f, "%s\n  \"%s\": %llu", first ? "" : ",", jsonEsc(r.first).c_str(), (unsigned long long)r.second); first = false; } fprintf(f, "},\n");
  fprintf(f, " \"functions\": {"); first = true; for (auto &r : fn) { fprintf(f, "%s\n  \"%s\": %llu", first ? "" : ",", jsonEsc(demangle(r.first)).c_str(), (unsigned long long)r.second); first = false; } fprintf(f, "},\n");
  fprintf(f, " \"incomplete\": ["); first = true; for (auto &r : incomplete) { fprintf(f, "%s\"%s\"", first ? "" : ",", jsonEsc(r).c_str()); first = false; } fprintf(f, "],\n");
  fprintf(f, " \"samples\": ["); for (size_t i = 0; i < sampleLines.size(); i++) fprintf(f, "%s\n  %s", i ? "," : "", sampleLines[i].c_str()); fprintf(f, "],\n");
  fprintf(f, " \"engine_error\": \"%s\",\n \"violations\": [", jsonEsc(engineError).c_str());
  for (size_t i = 0; i < viols.size(); i++) fprintf(f, "%s\n%s", i ? "," : "", viols[i].cex.c_str());
  fprintf(f, "]\n}\n"); if (f != stdout) fclose(f);
  (void)status; fflush(stdout);
  _exit(viols.size() ? 1 : !engineError.empty() ? 3 : incomplete.size() ? 2 : 0);
}
