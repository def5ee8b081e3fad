// ------------------------------------------------------------------ compile functions
static unsigned tyW(Type *T) {
  if (T->isIntegerTy()) return T->getIntegerBitWidth();
  if (T->isPointerTy()) return 64;
  if (T->isDoubleTy()) return 64;
  if (T->isFloatTy()) return 32;
  if (T->isX86_FP80Ty()) return 80;
  return 0;
}
static std::unordered_map<std::string, int> handlerIds;
enum H {
  H_NONE = 0, H_malloc, H_calloc, H_realloc, H_free, H_memcpy, H_memset, H_strlen, H_memcmp, H_strcmp, H_nop, H_zero, H_sqrt, H_fabs, H_libm1, H_libm2, H_exit, H_abort,
  H_sx_u, H_sx_real, H_sx_realin, H_sx_opaque, H_sx_assume, H_sx_assert, H_sx_choose, H_sx_conc, H_sx_reach, H_sx_spawn, H_sx_yield, H_sx_shared, H_sx_rank, H_sx_join, H_sx_note, H_sx_near, H_sx_same,
  H_sx_progress, H_sx_flag, H_sx_getflag, H_sx_threads, H_sx_issym, H_sx_fail, H_sx_nranks, H_sx_end, H_sx_param, H_sx_live, H_sx_noteu, H_sx_bool, H_sx_ite,
  H_omp_fork, H_omp_tid, H_omp_n, H_omp_max, H_omp_gtid, H_omp_push, H_omp_barrier, H_omp_crit, H_omp_endcrit, H_omp_static, H_omp_fini, H_omp_disp_init, H_omp_disp_next, H_omp_reduce, H_omp_single, H_omp_master,
  H_exc_alloc, H_throw, H_begin_catch, H_end_catch, H_rethrow, H_typeid, H_terminate,
  H_minmax_i, H_abs_i, H_ovf, H_fmuladd, H_fminmax, H_ctpop, H_ctlz, H_cttz, H_sat, H_fsh, H_expect, H_trap, H_isconst, H_objsize, H_stacksave, H_snprintf, H_bswap, H_lifetime_end, H_lifetime_start, H_copysign, H_floor, H_isfinite, H_omp_setn, H_memchr, H_vecreduce, H_sx_memsame, H_sx_liveobj, H_sx_sameb, H_isfpclass, H_unreach
};
static int handlerFor(Function *F) {
  std::string n = F->getName().str();
  if (n.rfind("llvm.", 0) == 0) {
    auto st = [&](const char *p) { return n.rfind(p, 0) == 0; };
    if (st("llvm.memcpy") || st("llvm.memmove")) return H_memcpy;
    if (st("llvm.memset")) return H_memset;
    if (st("llvm.lifetime.start")) return H_lifetime_start;
    if (st("llvm.lifetime.end")) return H_lifetime_end;
    if (st("llvm.dbg") || st("llvm.assume") || st("llvm.experimental.noalias") || st("llvm.invariant") || st("llvm.stackrestore") || st("llvm.donothing") || st("llvm.prefetch")) return H_nop;
    if (st("llvm.umax") || st("llvm.umin") || st("llvm.smax") || st("llvm.smin")) return H_minmax_i;
    if (st("llvm.abs")) return H_abs_i;
    if (n.find(".with.overflow") != std::string::npos) return H_ovf;
    if (st("llvm.fmuladd") || st("llvm.fma")) return H_fmuladd;
    if (st("llvm.minnum") || st("llvm.maxnum") || st("llvm.minimum") || st("llvm.maximum")) return H_fminmax;
    if (st("llvm.fabs")) return H_fabs;
    if (st("llvm.sqrt")) return H_sqrt;
    if (st("llvm.copysign")) return H_copysign;
    if (st("llvm.floor") || st("llvm.ceil") || st("llvm.trunc.f") || st("llvm.rint") || st("llvm.nearbyint") || st("llvm.round")) return H_floor;
    if (st("llvm.pow") ) return H_libm2;
    if (st("llvm.exp") || st("llvm.log") || st("llvm.sin") || st("llvm.cos")) return H_libm1;
    if (st("llvm.ctpop")) return H_ctpop;
    if (st("llvm.ctlz")) return H_ctlz;
    if (st("llvm.cttz")) return H_cttz;
    if (st("llvm.usub.sat") || st("llvm.uadd.sat")) return H_sat;
    if (st("llvm.fshl") || st("llvm.fshr")) return H_fsh;
    if (st("llvm.expect") || st("llvm.launder") || st("llvm.strip") || st("llvm.ssa.copy")) return H_expect;
    if (st("llvm.trap") || st("llvm.debugtrap") || st("llvm.ubsantrap")) return H_trap;
    if (st("llvm.is.constant")) return H_isconst;
    if (st("llvm.objectsize")) return H_objsize;
    if (st("llvm.stacksave")) return H_stacksave;
    if (st("llvm.eh.typeid.for")) return H_typeid;
    if (st("llvm.bswap")) return H_bswap;
    if (st("llvm.vector.reduce")) return H_vecreduce;
    if (st("llvm.is.fpclass")) return H_isfpclass;
    return 0;
  }
  static const std::unordered_map<std::string, int> T = {
    {"malloc", H_malloc}, {"_Znwm", H_malloc}, {"_Znam", H_malloc}, {"_ZnwmSt11align_val_t", H_malloc}, {"_ZnamSt11align_val_t", H_malloc}, {"_ZnwmRKSt9nothrow_t", H_malloc}, {"_ZnamRKSt9nothrow_t", H_malloc},
    {"calloc", H_calloc}, {"realloc", H_realloc}, {"free", H_free}, {"_ZdlPv", H_free}, {"_ZdaPv", H_free}, {"_ZdlPvm", H_free}, {"_ZdaPvm", H_free}, {"_ZdlPvSt11align_val_t", H_free}, {"_ZdaPvSt11align_val_t", H_free}, {"_ZdlPvmSt11align_val_t", H_free},
    {"memcpy", H_memcpy}, {"memmove", H_memcpy}, {"memset", H_memset}, {"strlen", H_strlen}, {"memcmp", H_memcmp}, {"bcmp", H_memcmp}, {"strcmp", H_strcmp}, {"memchr", H_memchr},
    {"printf", H_zero}, {"puts", H_zero}, {"putchar", H_zero}, {"fflush", H_zero}, {"perror", H_nop}, {"__cxa_atexit", H_zero}, {"atexit", H_zero}, {"__cxa_thread_atexit", H_zero}, {"vprintf", H_zero}, {"signal", H_zero}, {"backtrace", H_zero}, {"backtrace_symbols_fd", H_nop}, {"usleep", H_zero}, {"sleep", H_zero},
    {"sprintf", H_snprintf}, {"snprintf", H_snprintf},
    {"sqrt", H_sqrt}, {"fabs", H_fabs}, {"floor", H_floor}, {"ceil", H_floor}, {"round", H_floor}, {"trunc", H_floor}, {"exp", H_libm1}, {"log", H_libm1}, {"sin", H_libm1}, {"cos", H_libm1}, {"tan", H_libm1}, {"acos", H_libm1}, {"asin", H_libm1}, {"atan", H_libm1}, {"log10", H_libm1}, {"cbrt", H_libm1}, {"pow", H_libm2}, {"atan2", H_libm2}, {"fmod", H_libm2}, {"fmax", H_fminmax}, {"fmin", H_fminmax}, {"hypot", H_libm2}, {"ldexp", H_libm2},
    {"exit", H_exit}, {"_exit", H_exit}, {"abort", H_abort}, {"__assert_fail", H_abort}, {"_ZSt9terminatev", H_terminate}, {"__clang_call_terminate", H_terminate},
    {"sx_u64", H_sx_u}, {"sx_u32", H_sx_u}, {"sx_u8", H_sx_u}, {"sx_bool", H_sx_bool}, {"sx_real", H_sx_real}, {"sx_real_in", H_sx_realin}, {"sx_opaque", H_sx_opaque}, {"sx_assume", H_sx_assume}, {"sx_assert", H_sx_assert}, {"sx_choose", H_sx_choose}, {"sx_conc", H_sx_conc}, {"sx_reach", H_sx_reach}, {"sx_spawn", H_sx_spawn}, {"sx_yield", H_sx_yield}, {"sx_shared_alloc", H_sx_shared}, {"sx_rank", H_sx_rank}, {"sx_join", H_sx_join}, {"sx_note", H_sx_note}, {"sx_note_u", H_sx_noteu}, {"sx_assert_near", H_sx_near}, {"sx_same", H_sx_same}, {"sx_progress", H_sx_progress}, {"sx_set", H_sx_flag}, {"sx_get", H_sx_getflag}, {"sx_threads", H_sx_threads}, {"sx_is_symbolic", H_sx_issym}, {"sx_fail", H_sx_fail}, {"sx_nranks", H_sx_nranks}, {"sx_end", H_sx_end}, {"sx_param", H_sx_param}, {"sx_live_ranks", H_sx_live}, {"sx_mem_live", H_sx_liveobj}, {"sx_same_bytes", H_sx_sameb}, {"sx_ite", H_sx_ite},
    {"__kmpc_fork_call", H_omp_fork}, {"omp_get_thread_num", H_omp_tid}, {"omp_get_num_threads", H_omp_n}, {"omp_get_max_threads", H_omp_max}, {"omp_get_num_procs", H_omp_max}, {"__kmpc_global_thread_num", H_omp_gtid}, {"__kmpc_push_num_threads", H_omp_push}, {"omp_set_num_threads", H_omp_setn}, {"__kmpc_barrier", H_omp_barrier}, {"__kmpc_critical", H_omp_crit}, {"__kmpc_critical_with_hint", H_omp_crit}, {"__kmpc_end_critical", H_omp_endcrit}, {"__kmpc_for_static_init_4", H_omp_static}, {"__kmpc_for_static_init_4u", H_omp_static}, {"__kmpc_for_static_init_8", H_omp_static}, {"__kmpc_for_static_init_8u", H_omp_static}, {"__kmpc_for_static_fini", H_omp_fini}, {"__kmpc_flush", H_nop}, {"__kmpc_dispatch_init_4", H_omp_disp_init}, {"__kmpc_dispatch_init_4u", H_omp_disp_init}, {"__kmpc_dispatch_init_8", H_omp_disp_init}, {"__kmpc_dispatch_init_8u", H_omp_disp_init}, {"__kmpc_dispatch_next_4", H_omp_disp_next}, {"__kmpc_dispatch_next_4u", H_omp_disp_next}, {"__kmpc_dispatch_next_8", H_omp_disp_next}, {"__kmpc_dispatch_next_8u", H_omp_disp_next}, {"__kmpc_reduce", H_omp_reduce}, {"__kmpc_reduce_nowait", H_omp_reduce}, {"__kmpc_end_reduce", H_omp_endcrit}, {"__kmpc_end_reduce_nowait", H_omp_endcrit}, {"__kmpc_single", H_omp_single}, {"__kmpc_end_single", H_nop}, {"__kmpc_master", H_omp_master}, {"__kmpc_masked", H_omp_master}, {"__kmpc_end_master", H_nop}, {"__kmpc_end_masked", H_nop},
    {"__cxa_allocate_exception", H_exc_alloc}, {"__cxa_free_exception", H_free}, {"__cxa_throw", H_throw}, {"__cxa_begin_catch", H_begin_catch}, {"__cxa_end_catch", H_end_catch}, {"__cxa_rethrow", H_rethrow},
    {"__isfinite", H_isfinite}, {"finite", H_isfinite}, 
  };
  auto it = T.find(n);
  return it == T.end() ? 0 : it->second;
}

static FInfo *getF(Function *F) {
  auto it = finfo.find(F); if (it != finfo.end()) return it->second;
  FInfo *fi = new FInfo; fi->F = F; fi->name = F->getName().str(); finfo[F] = fi;
  if (auto *SP = F->getSubprogram()) { std::string fn = SP->getFilename().str(); std::string d = SP->getDirectory().str(); std::string full = fn.size() && fn[0] == '/' ? fn : d + "/" + fn; fi->repo = full.rfind(O.repo + "/", 0) == 0; }
  std::unordered_map<const Value *, int> reg; std::unordered_map<const BasicBlock *, int> bbi;
  for (auto &A : F->args()) { reg[&A] = fi->nregs++; fi->args.push_back(reg[&A]); }
  int b = 0;
  for (auto &B : *F) { bbi[&B] = b++; for (auto &I : B) if (!I.getType()->isVoidTy()) reg[&I] = fi->nregs++; }
  auto mkop = [&](const Value *V) { Op o; auto r = reg.find(V); if (r != reg.end()) o.reg = r->second; else if (auto *C = dyn_cast<Constant>(V)) o.v = constVal(C); else if (isa<MetadataAsValue>(V) || isa<BasicBlock>(V) || isa<InlineAsm>(V)) {} else unsup("operand"); return o; };
  fi->bb.resize(b);
  b = 0;
  for (auto &B : *F) {
    BB &bb = fi->bb[b++];
    for (auto &I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      Ins n; n.I = &I; n.opc = I.getOpcode(); if (!I.getType()->isVoidTy()) n.dst = reg[&I];
      n.w = tyW(I.getType()); n.ty = I.getType(); if (I.getType()->isDoubleTy()) n.fp = 2; else if (I.getType()->isFloatTy()) n.fp = 1;
      if (auto *P = dyn_cast<PHINode>(&I)) { bb.nphi++; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) n.phi.push_back({bbi[P->getIncomingBlock(i)], mkop(P->getIncomingValue(i))}); bb.ins.push_back(n); continue; }
      if (auto *CB = dyn_cast<CallBase>(&I)) {
        for (unsigned i = 0; i < CB->arg_size(); i++) n.o.push_back(mkop(CB->getArgOperand(i)));
        Value *cv = CB->getCalledOperand()->stripPointerCasts();
        if (auto *GA = dyn_cast<GlobalAlias>(cv)) cv = const_cast<GlobalObject*>(GA->getAliaseeObject());
        if (auto *CF = dyn_cast<Function>(cv)) { n.callee = CF; n.hid = handlerFor(CF); if (CF->getIntrinsicID() == 0 && !CF->isDeclaration() && n.hid && (CF->getName() == "puts")) n.hid = 0; }
        else if (isa<InlineAsm>(cv)) { n.hid = H_nop; if (!I.getType()->isVoidTy()) n.hid = 0; }
        else n.o.push_back(mkop(CB->getCalledOperand()));
        if (auto *IV = dyn_cast<InvokeInst>(&I)) { n.t0 = bbi[IV->getNormalDest()]; n.t1 = bbi[IV->getUnwindDest()]; }
        if (n.o.size() && CB->arg_size()) n.w0 = tyW(CB->getArgOperand(0)->getType());
        bb.ins.push_back(n); continue;
      }
      for (auto &U : I.operands()) if (!isa<BasicBlock>(U)) n.o.push_back(mkop(U));
      if (auto *SE = dyn_cast<SelectInst>(&I)) if (auto *FC = dyn_cast<FCmpInst>(SE->getCondition())) if (SE->getType()->isDoubleTy() && FC->getOperand(0)->getType()->isDoubleTy()) { n.o.push_back(mkop(FC->getOperand(0))); n.o.push_back(mkop(FC->getOperand(1))); n.imm = FC->getPredicate(); }
      if (I.getNumOperands() && !isa<BasicBlock>(I.getOperand(0))) n.w0 = tyW(I.getOperand(0)->getType());
      if (auto *BI = dyn_cast<BranchInst>(&I)) { n.t0 = bbi[BI->getSuccessor(0)]; if (BI->isConditional()) n.t1 = bbi[BI->getSuccessor(1)]; }
      else if (auto *SI = dyn_cast<SwitchInst>(&I)) { n.o.clear(); n.o.push_back(mkop(SI->getCondition())); n.w0 = tyW(SI->getCondition()->getType()); n.t0 = bbi[SI->getDefaultDest()]; for (auto &c : SI->cases()) n.cases.push_back({c.getCaseValue()->getZExtValue(), bbi[c.getCaseSuccessor()]}); }
      else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
        n.o.clear(); n.o.push_back(mkop(G->getPointerOperand())); int64_t off = 0;
        for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti) {
          Value *ix = gti.getOperand();
          if (StructType *STy = gti.getStructTypeOrNull()) off += DL->getStructLayout(STy)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else { int64_t sc = DL->getTypeAllocSize(gti.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * sc; else { n.o.push_back(mkop(ix)); n.scale.push_back({(int)tyW(ix->getType()), sc}); } }
        }
        n.imm = (uint64_t)off;
      }
      else if (auto *A = dyn_cast<AllocaInst>(&I)) { n.imm = DL->getTypeAllocSize(A->getAllocatedType()); }
      else if (auto *L = dyn_cast<LoadInst>(&I)) { n.imm = DL->getTypeStoreSize(L->getType()); n.idx.push_back(L->isAtomic()); }
      else if (auto *S = dyn_cast<StoreInst>(&I)) { n.ty = S->getValueOperand()->getType(); n.imm = DL->getTypeStoreSize(n.ty); n.idx.push_back(S->isAtomic()); }
      else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) { for (unsigned i : EV->indices()) n.idx.push_back(i); }
      else if (auto *IV = dyn_cast<InsertValueInst>(&I)) { for (unsigned i : IV->indices()) n.idx.push_back(i); }
      else if (auto *C = dyn_cast<CmpInst>(&I)) { n.imm = C->getPredicate(); n.fp = C->getOperand(0)->getType()->isDoubleTy() ? 2 : C->getOperand(0)->getType()->isFloatTy() ? 1 : 0; }
      else if (auto *RW = dyn_cast<AtomicRMWInst>(&I)) { n.imm = RW->getOperation(); n.ty = RW->getValOperand()->getType(); n.w = tyW(n.ty); }
      else if (auto *CX = dyn_cast<AtomicCmpXchgInst>(&I)) { n.ty = CX->getCompareOperand()->getType(); n.w = tyW(n.ty); }
      else if (auto *SV = dyn_cast<ShuffleVectorInst>(&I)) { for (int x : SV->getShuffleMask()) n.scale.push_back({x, 0}); }
      bb.ins.push_back(n);
    }
  }
  return fi;
}

// ------------------------------------------------------------------ scalar arithmetic
static Val intBin(State &s, unsigned opc, const Val &a, const Val &b, unsigned w);
struct Div0 { };
static Val ufApp(const char *name, const Val &a, const Val &b) {
  Z3_sort bs = bvSort(64); Z3_sort d[2] = {bs, bs};
  static std::map<std::string, Z3_func_decl> fds; Z3_func_decl &f = fds[name]; if (!f) { f = Z3_mk_func_decl(Z, Z3_mk_string_symbol(Z, name), 2, d, bs); Z3_inc_ref(Z, Z3_func_decl_to_ast(Z, f)); }
  Z3_ast x[2] = {toBV(a, 64), toBV(b, 64)};
  return mkS(Z3_mk_app(Z, f, 2, x), 64, false);
}
// definitions of the reciprocal, root and absolute-value variables a polynomial mentions become part of the path condition
// only when the polynomial is put to the solver
static void useAux(State &s, PolyN *p) {
  for (auto &t : p->t) for (auto &e : monos[t.m]) { uint32_t v = e.first; auto iv = invPoly.find(v); PolyN *d = nullptr; int k = 0;
    if (iv != invPoly.end()) { d = (PolyN *)iv->second.p; k = 1; } else if (vars[v].sqrtDef >= 0) { d = (PolyN *)polyDefs[vars[v].sqrtDef].p; k = 2; } else if (vars[v].absDef >= 0) { d = (PolyN *)polyDefs[vars[v].absDef].p; k = 3; }
    if (!k || !s.auxActive.insert(v).second) continue;
    useAux(s, d); Z3_ast x = polyToReal(d), y = vars[v].a, zero = Z3_mk_numeral(Z, "0", realSort()), m[2];
    if (k == 1) { m[0] = y; m[1] = x; addPC(s, Z3_mk_eq(Z, Z3_mk_mul(Z, 2, m), Z3_mk_numeral(Z, "1", realSort())), true); }
    else if (k == 2) { m[0] = m[1] = y; Z3_ast c[2] = {Z3_mk_eq(Z, Z3_mk_mul(Z, 2, m), x), Z3_mk_ge(Z, y, zero)}; addPC(s, Z3_mk_and(Z, 2, c), true); }
    else addPC(s, Z3_mk_eq(Z, y, Z3_mk_ite(Z, Z3_mk_ge(Z, x, zero), x, Z3_mk_unary_minus(Z, x))), polyNonlinear(d));
    s.model = IP<Model>(); }
}
static std::map<std::string, uint32_t> auxVars;
static std::string polyKey(PolyN *p) { std::string k; for (auto &t : p->t) { k += std::to_string(t.m) + ":"; union { Q q; unsigned long long u[2]; } x; x.q = t.c; k += std::to_string(x.u[0]) + "," + std::to_string(x.u[1]) + ";"; } return k; }
static Val realInv(State &s, Val d) {
  // cached reciprocal variable with defining constraint t*d = 1
  PolyN *p = d.poly();
  // single monomial with only inverse vars -> product of originals etc. not needed
  std::string k = "inv|" + polyKey(p);
  uint32_t v; auto it = auxVars.find(k);
  if (it == auxVars.end()) {
    v = newVar("inv!" + std::to_string(auxVars.size())); auxVars[k] = v; invPoly[v] = d.p;
    if (p->t.size() == 1 && p->t[0].c == 1 && monos[p->t[0].m].size() == 1 && monos[p->t[0].m][0].second == 1) { uint32_t u = monos[p->t[0].m][0].first; if (vars[u].invOf < 0) { vars[v].invOf = u; vars[u].invOf = v; } }
  } else v = it->second;
  if (s.divSeen.insert(v).second) {
    Q ivl, ivh; if (O.div0 && !(polyRange(p, ivl, ivh) && (ivl > 0 || ivh < 0))) {
      useAux(s, p); Z3_ast z = Z3_mk_eq(Z, polyToReal(p), Z3_mk_numeral(Z, "0", realSort())); Z3_inc_ref(Z, z);
      Z3_lbool r = solve(s, z);
      if (r == Z3_L_TRUE) { record(s, "arith", "division by zero", lastModel); }
      else if (r == Z3_L_UNDEF) incomplete.insert("non-zero divisor not decided");
      Z3_dec_ref(Z, z);
    }
  }
  return mkPoly(polyVar(v));
}
static Val realDiv(State &s, const Val &a, const Val &b) {
  Q c; if (polyIsConst(b.poly(), c)) { if (c == 0) throw Div0(); PolyN *r = new PolyN; r->t = a.poly()->t; for (auto &t : r->t) t.c /= c; return mkPoly(r); }
  if (b.poly()->t.size() == 1) { // scaled monomial: factor out coefficient and each variable
    Val r = a; Q k = b.poly()->t[0].c; PolyN *q = new PolyN; q->t = r.poly()->t; for (auto &t : q->t) t.c /= k; r = mkPoly(q);
    for (auto &e : monos[b.poly()->t[0].m]) { Val iv = realInv(s, mkPoly(polyVar(e.first))); for (uint32_t i = 0; i < e.second; i++) r = polyMul(r, iv); }
    return r;
  }
  // normalise leading coefficient
  Q k = b.poly()->t[0].c; PolyN *q = new PolyN; q->t = b.poly()->t; for (auto &t : q->t) t.c /= k; Val nb = mkPoly(q);
  Val iv = realInv(s, nb); PolyN *a2 = new PolyN; a2->t = a.poly()->t; for (auto &t : a2->t) t.c /= k;
  return polyMul(mkPoly(a2), iv);
}
static Val realSqrt(State &s, const Val &a) {
  Q c; if (polyIsConst(a.poly(), c)) { double d = (double)c; return Val::C(bits(std::sqrt(d))); }
  std::string k = "sqrt|" + polyKey(a.poly()); uint32_t v; auto it = auxVars.find(k);
  if (it == auxVars.end()) { v = newVar("sqrt!" + std::to_string(auxVars.size())); auxVars[k] = v; polyDefs.push_back(a.p); vars[v].sqrtDef = polyDefs.size() - 1; } else v = it->second;
  return mkPoly(polyVar(v));
}
static Val realAbs(State &s, Val a) {
  PolyN *p = a.poly(); Q lo, hi; if (polyRange(p, lo, hi)) { if (lo >= 0) return a; if (hi <= 0) return polyScale(a, -1); }
  if (p->t[0].c < 0) a = polyScale(a, -1);
  std::string k = "abs|" + polyKey(a.poly()); uint32_t v; auto it = auxVars.find(k);
  if (it == auxVars.end()) { v = newVar("abs!" + std::to_string(auxVars.size())); auxVars[k] = v; polyDefs.push_back(a.p); vars[v].absDef = polyDefs.size() - 1; } else v = it->second;
  return mkPoly(polyVar(v));
}
static Val fpBin(State &s, unsigned opc, const Val &a, const Val &b, int fp) {
  if (a.k == V_U || b.k == V_U) return Val();
  if (a.conc() && b.conc()) {
    if (fp == 1) { float x, y; uint32_t ca = a.c, cb = b.c; memcpy(&x, &ca, 4); memcpy(&y, &cb, 4); float r; switch (opc) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmodf(x, y); } uint32_t c; memcpy(&c, &r, 4); return Val::C(c); }
    double x = dbl(a.c), y = dbl(b.c), r; switch (opc) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmod(x, y); } return Val::C(bits(r));
  }
  if (a.k == V_S || b.k == V_S) {
    static const char *nm[] = {"fadd", "fsub", "fmul", "fdiv", "frem"}; int i = opc == Instruction::FAdd ? 0 : opc == Instruction::FSub ? 1 : opc == Instruction::FMul ? 2 : opc == Instruction::FDiv ? 3 : 4;
    if (a.k == V_R || b.k == V_R) unsup("mixing opaque and real doubles");
    Val x = a, y = b;
    if (i == 0 || i == 2) { // exact identities of IEEE for bit-level opaque values are not assumed; only commutativity
      if (Z3_get_ast_id(Z, toBV(x, 64)) > Z3_get_ast_id(Z, toBV(y, 64))) std::swap(x, y);
    }
    return ufApp(nm[i], x, y);
  }
  if (fp == 1) unsup("float arithmetic on symbolic");
  Val x = toR(a), y = toR(b);
  switch (opc) {
  case Instruction::FAdd: return normR(polyAdd(x, y, 1));
  case Instruction::FSub: return normR(polyAdd(x, y, -1));
  case Instruction::FMul: return normR(polyMul(x, y));
  case Instruction::FDiv: return normR(realDiv(s, x, y));
  }
  unsup("frem symbolic");
}
static Val realCmp(State &s, unsigned pred, const Val &a, const Val &b) {
  Val d = polyAdd(toR(a), toR(b), -1); Q c;
  unsigned p = pred; // map to 0 lt 1 le 2 gt 3 ge 4 eq 5 ne
  int k;
  switch (p) {
  case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: k = 0; break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: k = 1; break;
  case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: k = 2; break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: k = 3; break;
  case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: k = 4; break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: k = 5; break;
  case CmpInst::FCMP_ORD: case CmpInst::FCMP_TRUE: return Val::C(1); case CmpInst::FCMP_UNO: case CmpInst::FCMP_FALSE: return Val::C(0);
  default: unsup("fcmp");
  }
  if (polyIsConst(d.poly(), c)) { bool r = k == 0 ? c < 0 : k == 1 ? c <= 0 : k == 2 ? c > 0 : k == 3 ? c >= 0 : k == 4 ? c == 0 : c != 0; return Val::C(r); }
  { Q lo, hi; if (polyRange(d.poly(), lo, hi)) { int r = -1; switch (k) { case 0: r = hi < 0 ? 1 : lo > 0 ? 0 : -1; break; case 1: r = hi < 0 ? 1 : lo > 0 ? 0 : -1; break; case 2: case 3: r = lo > 0 ? 1 : hi < 0 ? 0 : -1; break; case 4: r = lo > 0 || hi < 0 ? 0 : -1; break; default: r = lo > 0 || hi < 0 ? 1 : -1; } if (r >= 0) { ST.intervalCmp++; return Val::C(r); } } }
  if (hasInv(d.poly())) { int g = polySign(d.poly()); if (g) { bool r = k == 0 || k == 1 ? g < 0 : k == 2 || k == 3 ? g > 0 : k == 5; ST.intervalCmp++; return Val::C(r); } }
  // denominators of known sign are cleared: sign(A/D + B) = sign(A + B*D) for D > 0
  for (int round = 0; round < 8; round++) {
    int64_t v = -1; bool many = false; for (auto &t : d.poly()->t) for (auto &e : monos[t.m]) if (invPoly.count(e.first)) { if (e.second > 1) many = true; if ((int64_t)e.first > v) v = e.first; }
    if (v < 0 || many) break; Val D; D.k = V_R; D.p = invPoly[v]; Q lo, hi; if (!polyRange(D.poly(), lo, hi) || (lo < 0 && hi > 0)) break; if (hi > 0 && hi < 1e-30Q) break;
    PolyN *A = new PolyN, *B = new PolyN; for (auto &t : d.poly()->t) { Mono m; bool has = false; for (auto &e : monos[t.m]) if ((int64_t)e.first == v) has = true; else m.push_back(e); (has ? A : B)->t.push_back({internMono(m), t.c}); }
    std::sort(A->t.begin(), A->t.end(), [](const Term &a, const Term &b) { return a.m < b.m; }); Val va = mkPoly(A), vb = mkPoly(B);
    d = polyAdd(va, polyMul(vb, D), 1); if (hi <= 0) d = polyScale(d, -1);
    if (polyIsConst(d.poly(), c)) { bool r = k == 0 ? c < 0 : k == 1 ? c <= 0 : k == 2 ? c > 0 : k == 3 ? c >= 0 : k == 4 ? c == 0 : c != 0; return Val::C(r); }
    if (polyRange(d.poly(), lo, hi)) { int r = -1; switch (k) { case 0: r = hi < 0 ? 1 : lo >= 0 ? 0 : -1; break; case 1: r = hi <= 0 ? 1 : lo > 0 ? 0 : -1; break; case 2: r = lo > 0 ? 1 : hi <= 0 ? 0 : -1; break; case 3: r = lo >= 0 ? 1 : hi < 0 ? 0 : -1; break; case 4: r = lo > 0 || hi < 0 ? 0 : -1; break; default: r = lo > 0 || hi < 0 ? 1 : -1; } if (r >= 0) { ST.intervalCmp++; return Val::C(r); } }
  }
  useAux(s, d.poly());
  Z3_ast e = polyToReal(d.poly()), z = Z3_mk_numeral(Z, "0", realSort()), r;
  switch (k) { case 0: r = Z3_mk_lt(Z, e, z); break; case 1: r = Z3_mk_le(Z, e, z); break; case 2: r = Z3_mk_gt(Z, e, z); break; case 3: r = Z3_mk_ge(Z, e, z); break; case 4: r = Z3_mk_eq(Z, e, z); break; default: r = mkNot(Z3_mk_eq(Z, e, z)); }
  if (polyNonlinear(d.poly())) s.nonlin = true;
  return mkS(r, 1, true);
}
static Val fcmp(State &s, unsigned pred, const Val &a, const Val &b, int fp) {
  if (a.k == V_U || b.k == V_U) return Val();
  if (a.conc() && b.conc()) {
    double x, y; if (fp == 1) { float f; uint32_t c = a.c; memcpy(&f, &c, 4); x = f; c = b.c; memcpy(&f, &c, 4); y = f; } else { x = dbl(a.c); y = dbl(b.c); }
    bool un = std::isnan(x) || std::isnan(y), r;
    switch (pred) { case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_ORD: r = !un; break; case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_TRUE: r = true; break; default: r = false; }
    return Val::C(r);
  }
  if (a.k == V_S || b.k == V_S) {
    // opaque doubles: exact IEEE comparison through the FP theory
    if (a.k == V_R || b.k == V_R) unsup("compare opaque with real");
    static Z3_sort fs; if (!fs) { fs = Z3_mk_fpa_sort_double(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, fs)); } Z3_ast x = Z3_mk_fpa_to_fp_bv(Z, toBV(a, 64), fs), y = Z3_mk_fpa_to_fp_bv(Z, toBV(b, 64), fs), r;
    auto nan = [&]() { Z3_ast o[2] = {Z3_mk_fpa_is_nan(Z, x), Z3_mk_fpa_is_nan(Z, y)}; return Z3_mk_or(Z, 2, o); };
    switch (pred) { case CmpInst::FCMP_OEQ: r = Z3_mk_fpa_eq(Z, x, y); break; case CmpInst::FCMP_UNE: r = mkNot(Z3_mk_fpa_eq(Z, x, y)); break; case CmpInst::FCMP_OLT: r = Z3_mk_fpa_lt(Z, x, y); break; case CmpInst::FCMP_OLE: r = Z3_mk_fpa_leq(Z, x, y); break; case CmpInst::FCMP_OGT: r = Z3_mk_fpa_gt(Z, x, y); break; case CmpInst::FCMP_OGE: r = Z3_mk_fpa_geq(Z, x, y); break; case CmpInst::FCMP_UNO: r = nan(); break; case CmpInst::FCMP_ORD: r = mkNot(nan()); break;
      case CmpInst::FCMP_UGE: r = mkNot(Z3_mk_fpa_lt(Z, x, y)); break; case CmpInst::FCMP_UGT: r = mkNot(Z3_mk_fpa_leq(Z, x, y)); break; case CmpInst::FCMP_ULE: r = mkNot(Z3_mk_fpa_gt(Z, x, y)); break; case CmpInst::FCMP_ULT: r = mkNot(Z3_mk_fpa_geq(Z, x, y)); break; default: unsup("fcmp opaque predicate"); }
    return fromBool(r);
  }
  if ((a.conc() && !std::isfinite(dbl(a.c))) || (b.conc() && !std::isfinite(dbl(b.c)))) {
    // reals are finite: compare against +-inf / nan
    bool ac = a.conc() && !std::isfinite(dbl(a.c)); double v = ac ? dbl(a.c) : dbl(b.c);
    if (std::isnan(v)) return Val::C(pred >= CmpInst::FCMP_UNO);
    double x = ac ? v : 0, y = ac ? 0 : v; return fcmp(s, pred, Val::C(bits(x)), Val::C(bits(y)), 2);
  }
  return realCmp(s, pred, a, b);
}
static Val intBin(State &s, unsigned opc, const Val &a, const Val &b, unsigned w) {
  if (a.k == V_U || b.k == V_U) {
    if (opc == Instruction::And && ((a.conc() && a.c == 0) || (b.conc() && b.c == 0))) return Val::C(0);
    // masking an uninitialised word (bit vectors): keep the defined bits exact, the others arbitrary
    if ((opc == Instruction::And || opc == Instruction::Or) && w <= 64 && (a.conc() || b.conc())) { static uint64_t k = 0; Val u = mkS(Z3_mk_const(Z, Z3_mk_string_symbol(Z, ("undef!" + std::to_string(k++)).c_str()), bvSort(w)), w, false); return a.conc() ? intBin(s, opc, a, u, w) : intBin(s, opc, u, b, w); }
    return Val();
  }
  if (a.conc() && b.conc() && w <= 64) {
    uint64_t x = maskw(a.c, w), y = maskw(b.c, w), r = 0;
    switch (opc) {
    case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break;
    case Instruction::UDiv: if (!y) throw Div0(); r = x / y; break; case Instruction::URem: if (!y) throw Div0(); r = x % y; break;
    case Instruction::SDiv: { if (!y) throw Div0(); int64_t p = sextw(x, w), q = sextw(y, w); if (q == -1) r = -(uint64_t)p; else r = p / q; break; }
    case Instruction::SRem: { if (!y) throw Div0(); int64_t p = sextw(x, w), q = sextw(y, w); r = q == -1 ? 0 : p % q; break; }
    case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
    case Instruction::Shl: r = y >= w ? 0 : x << y; break; case Instruction::LShr: r = y >= w ? 0 : x >> y; break; case Instruction::AShr: r = (uint64_t)(sextw(x, w) >> (y >= w ? w - 1 : y)); break;
    default: unsup("int op");
    }
    return Val::C(maskw(r, w));
  }
  if ((opc == Instruction::And) && ((a.conc() && maskw(a.c, w) == 0) || (b.conc() && maskw(b.c, w) == 0))) return Val::C(0);
  if ((opc == Instruction::Add || opc == Instruction::Or || opc == Instruction::Xor || opc == Instruction::Sub || opc == Instruction::Shl || opc == Instruction::LShr) && b.conc() && maskw(b.c, w) == 0) return a;
  if ((opc == Instruction::Add || opc == Instruction::Or || opc == Instruction::Xor) && a.conc() && maskw(a.c, w) == 0) return b;
  if (w == 1) {
    Z3_ast x = toBool(a), y = toBool(b); Z3_ast z[2] = {x, y};
    switch (opc) { case Instruction::And: case Instruction::Mul: return fromBool(Z3_mk_and(Z, 2, z)); case Instruction::Or: return fromBool(Z3_mk_or(Z, 2, z)); case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return fromBool(Z3_mk_xor(Z, x, y)); default: unsup("i1 op"); }
  }
  if (a.k == V_R || b.k == V_R) unsup("integer operation on the bits of a real-sorted double");
  Z3_ast x = toBV(a, w), y = toBV(b, w), r;
  Z3_inc_ref(Z, x); Z3_inc_ref(Z, y);
  switch (opc) {
  case Instruction::Add: r = Z3_mk_bvadd(Z, x, y); break; case Instruction::Sub: r = Z3_mk_bvsub(Z, x, y); break; case Instruction::Mul: r = Z3_mk_bvmul(Z, x, y); break;
  case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem: {
    if (b.conc()) { if (!maskw(b.c, w)) throw Div0(); }
    else { Z3_ast z = Z3_mk_eq(Z, y, bvNum(0, w)); if (solve(s, z) == Z3_L_TRUE) record(s, "arith", "integer division by zero", lastModel); addPC(s, mkNot(Z3_mk_eq(Z, y, bvNum(0, w)))); s.model = IP<Model>(); }
    r = opc == Instruction::UDiv ? Z3_mk_bvudiv(Z, x, y) : opc == Instruction::URem ? Z3_mk_bvurem(Z, x, y) : opc == Instruction::SDiv ? Z3_mk_bvsdiv(Z, x, y) : Z3_mk_bvsrem(Z, x, y); break; }
  case Instruction::And: r = Z3_mk_bvand(Z, x, y); break; case Instruction::Or: r = Z3_mk_bvor(Z, x, y); break; case Instruction::Xor: r = Z3_mk_bvxor(Z, x, y); break;
  case Instruction::Shl: r = Z3_mk_bvshl(Z, x, y); break; case Instruction::LShr: r = Z3_mk_bvlshr(Z, x, y); break; case Instruction::AShr: r = Z3_mk_bvashr(Z, x, y); break;
  default: unsup("int op");
  }
  Val v = fromBV(r, w); Z3_dec_ref(Z, x); Z3_dec_ref(Z, y); return v;
}
static Val icmp(State &s, unsigned pred, const Val &a, const Val &b, unsigned w) {
  if (a.k == V_U || b.k == V_U) return Val();
  if (a.conc() && b.conc() && w <= 64) {
    uint64_t x = maskw(a.c, w), y = maskw(b.c, w); int64_t p = sextw(x, w), q = sextw(y, w); bool r;
    switch (pred) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = p > q; break; case CmpInst::ICMP_SGE: r = p >= q; break; case CmpInst::ICMP_SLT: r = p < q; break; default: r = p <= q; break; }
    return Val::C(r);
  }
  if (a.k == V_R || b.k == V_R) { if (pred == CmpInst::ICMP_EQ) return realCmp(s, CmpInst::FCMP_OEQ, a, b); if (pred == CmpInst::ICMP_NE) return realCmp(s, CmpInst::FCMP_UNE, a, b); unsup("ordered integer comparison of the bits of a real-sorted double"); }
  if (w == 1) { Z3_ast x = toBool(a), y = toBool(b); Z3_ast r = pred == CmpInst::ICMP_EQ ? Z3_mk_iff(Z, x, y) : pred == CmpInst::ICMP_NE ? Z3_mk_xor(Z, x, y) : nullptr; if (!r) { x = toBV(a, 1); y = toBV(b, 1); r = pred == CmpInst::ICMP_UGT ? Z3_mk_bvugt(Z, x, y) : pred == CmpInst::ICMP_ULT ? Z3_mk_bvult(Z, x, y) : pred == CmpInst::ICMP_UGE ? Z3_mk_bvuge(Z, x, y) : Z3_mk_bvule(Z, x, y); } return fromBool(r); }
  Z3_ast x = toBV(a, w), y = toBV(b, w), r; Z3_inc_ref(Z, x); Z3_inc_ref(Z, y);
  switch (pred) { case CmpInst::ICMP_EQ: r = Z3_mk_eq(Z, x, y); break; case CmpInst::ICMP_NE: r = mkNot(Z3_mk_eq(Z, x, y)); break; case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(Z, x, y); break; case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(Z, x, y); break; case CmpInst::ICMP_ULT: r = Z3_mk_bvult(Z, x, y); break; case CmpInst::ICMP_ULE: r = Z3_mk_bvule(Z, x, y); break; case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(Z, x, y); break; case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(Z, x, y); break; case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(Z, x, y); break; default: r = Z3_mk_bvsle(Z, x, y); break; }
  Val v = fromBool(r); Z3_dec_ref(Z, x); Z3_dec_ref(Z, y); return v;
}

// typed load/store incl. aggregates and vectors
static Val loadT(State &s, uint64_t a, Type *T, bool atomic) {
  if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
    Val v; v.k = V_A; AggN *g = new AggN; v.p = IP<Node>(g);
    if (T->isStructTy()) { auto *SL = DL->getStructLayout(cast<StructType>(T)); for (unsigned i = 0; i < T->getStructNumElements(); i++) g->v.push_back(loadT(s, a + SL->getElementOffset(i), T->getStructElementType(i), atomic)); }
    else { Type *E = T->isArrayTy() ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType(); unsigned n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements(); uint64_t es = DL->getTypeAllocSize(E); for (unsigned i = 0; i < n; i++) g->v.push_back(loadT(s, a + i * es, E, atomic)); }
    return v;
  }
  unsigned n = DL->getTypeStoreSize(T);
  Val v = loadN(s, a, n, atomic);
  unsigned w = tyW(T);
  if (v.k == V_S && w < 8 * n) { if (w == 1) v = fromBool(mkNot(Z3_mk_eq(Z, toBV(v, 8), bvNum(0, 8)))); else v = fromBV(Z3_mk_extract(Z, w - 1, 0, toBV(v, 8 * n)), w); }
  return v;
}
static void storeT(State &s, uint64_t a, Type *T, const Val &v, bool atomic) {
  if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
    bool u = v.k == V_U; auto el = [&](unsigned i) { return u ? Val() : v.agg()[i]; };
    if (T->isStructTy()) { auto *SL = DL->getStructLayout(cast<StructType>(T)); for (unsigned i = 0; i < T->getStructNumElements(); i++) storeT(s, a + SL->getElementOffset(i), T->getStructElementType(i), el(i), atomic); }
    else { Type *E = T->isArrayTy() ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType(); unsigned n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements(); uint64_t es = DL->getTypeAllocSize(E); for (unsigned i = 0; i < n; i++) storeT(s, a + i * es, E, el(i), atomic); }
    return;
  }
  unsigned n = DL->getTypeStoreSize(T), w = tyW(T);
  if (v.k == V_S && w < 8 * n && w > 1) { storeN(s, a, n, fromBV(Z3_mk_zero_ext(Z, 8 * n - w, toBV(v, w)), 8 * n), atomic); return; }
  storeN(s, a, n, v, atomic);
}

// ------------------------------------------------------------------ control helpers
static inline const Val &ev(State &s, Frame &f, const Op &o) { return o.reg >= 0 ? f.regs[o.reg] : o.v; }
static inline void setDst(Frame &f, const Ins &n, Val v) { if (n.dst >= 0) f.regs[n.dst] = std::move(v); }
static void jump(Frame &f, int bb) {
  int prev = f.bb; BB &B = f.f->bb[bb];
  if (B.nphi) {
    Val tmp[8]; std::vector<Val> big; Val *t = tmp; if (B.nphi > 8) { big.resize(B.nphi); t = big.data(); }
    for (unsigned i = 0; i < B.nphi; i++) { Ins &p = B.ins[i]; bool ok = false; for (auto &x : p.phi) if (x.first == prev) { t[i] = x.second.reg >= 0 ? f.regs[x.second.reg] : x.second.v; ok = true; break; } if (!ok) unsup("phi"); }
    for (unsigned i = 0; i < B.nphi; i++) f.regs[B.ins[i].dst] = std::move(t[i]);
  }
  f.bb = bb; f.pc = B.nphi;
}
static State *cloneState(State &s) { ST.states++; return new State(s); }
// concretise an operand: fork over all feasible values. Current state continues with one value. Returns false if state infeasible.
static const unsigned MAXENUM = 4096;
static bool concretize(State &s, Frame &f, const Op &o, unsigned w) {
  Val v = f.regs[o.reg]; Z3_ast e = (v.k == V_S && v.bv()->isBool) ? toBV(v, w) : toBV(v, w); Z3_inc_ref(Z, e);
  std::vector<std::pair<uint64_t, IP<Model>>> vals;
  // enumerate
  std::vector<Z3_ast> blocked; 
  State probe(s); unsigned k = 0;
  IP<Model> m = s.model;
  while (true) {
    if (!m) { Z3_lbool r = solve(probe, nullptr); if (r == Z3_L_FALSE) break; if (r == Z3_L_UNDEF) unsup("solver unknown while concretising"); m = lastModel; }
    Z3_ast x; uint64_t c; if (!Z3_model_eval(Z, m->m, e, true, &x)) unsup("model eval"); Z3_inc_ref(Z, x); if (!Z3_get_numeral_uint64(Z, x, &c)) unsup("concretise non-numeral"); Z3_dec_ref(Z, x);
    vals.push_back({c, m});
    if (++k > MAXENUM) unsup("too many values for a symbolic address/size");
    addPC(probe, mkNot(Z3_mk_eq(Z, e, bvNum(c, w)))); m = IP<Model>();
  }
  if (vals.empty()) { Z3_dec_ref(Z, e); return false; }
  for (size_t i = 1; i < vals.size(); i++) {
    State *n = cloneState(s); ST.forks++; addPC(*n, Z3_mk_eq(Z, e, bvNum(vals[i].first, w))); n->model = vals[i].second; n->F().regs[o.reg] = Val::C(vals[i].first); work.push_back(n);
  }
  if (vals.size() > 1) { addPC(s, Z3_mk_eq(Z, e, bvNum(vals[0].first, w))); }
  s.model = vals[0].second; f.regs[o.reg] = Val::C(vals[0].first);
  Z3_dec_ref(Z, e); return true;
}
static void popFrame(State &s) { Frame &f = s.F(); for (uint32_t id : f.allocas) freeObj(s, id); s.T().st.pop_back(); }
static void pushFrame(State &s, Function *F, const std::vector<Val> &args) {
  FInfo *fi = getF(F); if (fi->bb.empty()) unsup("call to undefined function " + demangle(fi->name));
  fi->hits++; if (s.T().st.size() > 4000) throw MemErr{"stack overflow (recursion depth 4000)"};
  Frame f; f.f = fi; f.regs.resize(fi->nregs);
  for (size_t i = 0; i < fi->args.size(); i++) f.regs[fi->args[i]] = i < args.size() ? args[i] : Val();
  s.T().st.push_back(std::move(f));
}
// switch to another runnable thread. returns false if none
static bool runnable(State &s, int p, int t) { Proc &P = s.procs[p]; return !P.done && P.th[t].status == TH_RUN; }
static bool schedule(State &s, bool includeSelf) {
  std::vector<std::pair<int, int>> all; int cur = -1;
  for (int p = 0; p < (int)s.procs.size(); p++) for (int t = 0; t < (int)s.procs[p].th.size(); t++) { if (p == s.cp && t == s.ct) cur = all.size(); all.push_back({p, t}); }
  int n = all.size(); if (cur < 0) cur = n - 1;
  for (int i = 1; i <= n; i++) { auto x = all[(cur + i) % n]; if (x.first == s.cp && x.second == s.ct && !includeSelf) continue; if (runnable(s, x.first, x.second)) { s.cp = x.first; s.ct = x.second; ST.switches++; return true; } }
  return false;
}
// thread-level yield inside one process
static bool scheduleInProc(State &s) {
  int n = s.P().th.size(); for (int i = 1; i <= n; i++) { int t = (s.ct + i) % n; if (t != s.ct && s.P().th[t].status == TH_RUN) { s.ct = t; ST.switches++; return true; } } return false;
}
static Res endPath(State &s) { ST.paths++; return R_KILL; }
static void sample(State &s) { // inputs of a completed path (used to validate the engine against the natively compiled code)
  if (sampleLines.size() >= 2) return;
  if (!s.model && solve(s, nullptr) == Z3_L_TRUE) s.model = lastModel;
  std::string c = "{\"symbols\": ["; bool first = true;
  for (auto &r : s.syms) { if (!first) c += ", "; first = false; c += "[\"" + jsonEsc(r.name) + "\", \"" + (r.sort ? "r" : "b") + "\", \"" + symValue(s, r, s.model ? s.model->m : nullptr, true) + "\"]"; }
  c += "], \"reached\": ["; first = true; for (auto &t : s.tags) { if (!first) c += ", "; first = false; c += "\"" + jsonEsc(t) + "\""; }
  c += "], \"path_conditions\": " + std::to_string(s.pc.size()) + ", \"instructions\": " + std::to_string(s.steps) + "}";
  sampleLines.push_back(c);
}
static Res procDone(State &s) {
  s.P().done = true; s.ver++; s.idle = 0;
  bool all = true; for (auto &p : s.procs) if (!p.done) all = false;
  if (all) { sample(s); return endPath(s); }
  if (!schedule(s, false)) { fail(s, "hang", "deadlock: some ranks finished while the others wait forever"); return endPath(s); }
  return R_SWITCH;
}
// exceptions -----------------------------------------------------
static bool tiMatch(State &s, uint64_t thrown, uint64_t want) {
  if (!want || thrown == want) return true;
  // compare by type name string then follow single inheritance
  for (int d = 0; d < 8 && thrown; d++) {
    if (thrown == want) return true;
    Obj *o = objR(s, idOf(thrown)); Obj *w = objR(s, idOf(want));
    if (o && w && o->name == w->name) return true;
    if (!o || o->size < 24) return false;
    Val b = loadN(s, thrown + 16, 8); if (!b.conc()) return false; thrown = b.c;
  }
  return false;
}
static Res unwind(State &s) {
  while (!s.T().st.empty()) {
    Frame &f = s.F();
    Ins &n = f.f->bb[f.bb].ins[f.pc];
    if (auto *IV = dyn_cast<InvokeInst>(n.I)) {
      auto *LP = cast<LandingPadInst>(IV->getLandingPadInst()); bool take = LP->isCleanup(); uint64_t sel = 0;
      for (unsigned i = 0; i < LP->getNumClauses(); i++) if (LP->isCatch(i)) { uint64_t ti = constVal(LP->getClause(i)).c; if (tiMatch(s, s.P().exc.ti, ti)) { take = true; sel = idOf(ti) & 0x7fffffff; if (!ti) sel = 1; break; } }
      if (take) {
        int prev = f.bb; (void)prev; jump(f, n.t1);
        // next instruction is the landingpad; stash selector
        s.flags["__sel"] = sel; return R_JUMPED;
      }
    }
    if (f.ompRoot) break;
    popFrame(s);
  }
  std::string nm = "?"; Obj *o = objR(s, idOf(s.P().exc.ti)); if (o) nm = o->name;
  if (s.flags.count("abort_ok") && s.flags["abort_ok"]) { reach["<expected stop>"]++; return endPath(s); }
  fail(s, "exception", "uncaught exception " + demangle(nm)); return endPath(s);
}
static bool asDouble(const Val &v, double &d) { if (v.k != V_C) return false; d = dbl(v.c); return true; }

static Val selectV(State &s, const Val &c, const Val &a, const Val &b, unsigned w, bool &fork);
#include "handlers.inc"

// ------------------------------------------------------------------ one instruction
static Res doReturn(State &s, Val rv) {
  Frame &f = s.F();
  if (f.ompRoot) {
    Thread &T = s.T();
    if (T.tid != 0 || s.ct != 0) { popFrame(s); T.status = TH_DONE; }
    else T.status = TH_JOIN;
    Proc &P = s.P();
    s.idle = 0;
    // barrier release if all the remaining are waiting
    bool allDone = true; for (size_t i = 1; i < P.th.size(); i++) if (P.th[i].status != TH_DONE) allDone = false;
    if (allDone && P.th[0].status == TH_JOIN) {
      for (size_t i = 1; i < P.th.size(); i++) joinVC(P.th[0].vc, P.th[i].vc);
      P.th.resize(1); P.teamN = 1; P.race = IP<RaceMem>(); s.ct = 0; P.th[0].status = TH_RUN;
      popFrame(s); Frame &g = s.F(); Ins &n = g.f->bb[g.bb].ins[g.pc]; if (n.t0 >= 0) jump(g, n.t0); else g.pc++;
      return R_SWITCH;
    }
    if (!scheduleInProc(s)) { if (!schedule(s, false)) { fail(s, "hang", "threads deadlock at end of parallel region"); return endPath(s); } }
    return R_SWITCH;
  }
  bool wasCtor = f.isCtor; (void)wasCtor;
  popFrame(s);
  if (s.T().st.empty()) return procDone(s);
  Frame &g = s.F(); Ins &n = g.f->bb[g.bb].ins[g.pc];
  setDst(g, n, rv);
  if (n.t0 >= 0 && isa<InvokeInst>(n.I)) jump(g, n.t0); else g.pc++;
  return R_JUMPED;
}
static Res branchOn(State &s, Frame &f, const Ins &n, const Val &c) {
  if (c.k == V_C) { jump(f, (c.c & 1) ? n.t0 : n.t1); return R_JUMPED; }
  if (c.k == V_U) { fail(s, "memory", "branch depends on an uninitialised value"); return endPath(s); }
  Z3_ast b = toBool(c); Z3_inc_ref(Z, b); ST.symBranches++;
  IP<Model> mt, mf; int r = feas(s, b, mt, mf);
  Res res = R_JUMPED;
  if (r == 3) {
    State *o = cloneState(s); ST.forks++;
    addPC(*o, mkNot(b)); o->model = mf; jump(o->F(), n.t1); work.push_back(o);
    addPC(s, b); s.model = mt; jump(f, n.t0);
  } else if (r == 1) { s.model = mt; jump(f, n.t0); }
  else if (r == 2) { s.model = mf; jump(f, n.t1); }
  else { ST.infeasible++; res = R_KILL; }
  Z3_dec_ref(Z, b);
  return res;
}
static Val selectV(State &s, const Val &c, const Val &a, const Val &b, unsigned w, bool &fork) {
  fork = false;
  if (c.k == V_C) return (c.c & 1) ? a : b;
  if (c.k == V_U) return Val();
  if (a.k == V_C && b.k == V_C && a.c == b.c) return a;
  if (w == 0 || a.k == V_R || b.k == V_R || a.k == V_B || b.k == V_B || a.k == V_A || b.k == V_A || a.k == V_U || b.k == V_U) { fork = true; return Val(); }
  if (w == 1) return fromBool(Z3_mk_ite(Z, toBool(c), toBool(a), toBool(b)));
  return fromBV(Z3_mk_ite(Z, toBool(c), toBV(a, w), toBV(b, w)), w);
}
// x < y ? a : b with a - b = k (y - x) is b + k max(y - x, 0): absolute values, maxima and minima written as comparisons stay one path
static bool selectAbs(State &s, unsigned pred, Val x, Val y, Val a, Val b, Val &r) {
  auto real = [](const Val &v) { return v.k == V_R || (v.k == V_C && std::isfinite(dbl(v.c))); }; if (!real(x) || !real(y) || !real(a) || !real(b)) return false;
  switch (pred) { case CmpInst::FCMP_OLT: case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULT: case CmpInst::FCMP_ULE: break; case CmpInst::FCMP_OGT: case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGT: case CmpInst::FCMP_UGE: std::swap(x, y); break; default: return false; }
  Val d1 = polyAdd(toR(a), toR(b), -1), d2 = polyAdd(toR(y), toR(x), -1); Q c; if (d1.poly()->t.empty() || d1.poly()->t.size() != d2.poly()->t.size()) return false;
  Q k = d1.poly()->t[0].c / d2.poly()->t[0].c; for (size_t i = 0; i < d1.poly()->t.size(); i++) { auto &p = d1.poly()->t[i], &q = d2.poly()->t[i]; if (p.m != q.m) return false; Q e = p.c - k * q.c; if (e < 0) e = -e; Q m = p.c < 0 ? -p.c : p.c; if (e > m * 1e-30Q) return false; }
  if (polyIsConst(d2.poly(), c)) return false;
  Val ab = realAbs(s, d2); r = polyAdd(toR(b), polyScale(polyAdd(ab, d2, 1), k / 2), 1); return true;
}
static Res step(State &s) {
  Frame &f = s.F();
  Ins &n = f.f->bb[f.bb].ins[f.pc];
  ST.steps++; s.steps++;
  switch (n.opc) {
  case Instruction::Ret: return doReturn(s, n.o.empty() ? Val() : ev(s, f, n.o[0]));
  case Instruction::Br: if (n.t1 < 0) { jump(f, n.t0); return R_JUMPED; } return branchOn(s, f, n, ev(s, f, n.o[0]));
  case Instruction::Switch: {
    Val c = ev(s, f, n.o[0]);
    if (c.k == V_U) { fail(s, "memory", "switch on an uninitialised value"); return endPath(s); }
    if (c.k == V_C) { uint64_t x = maskw(c.c, n.w0); for (auto &k : n.cases) if (k.first == x) { jump(f, k.second); return R_JUMPED; } jump(f, n.t0); return R_JUMPED; }
    // fork per case
    Z3_ast e = toBV(c, n.w0); Z3_inc_ref(Z, e);
    std::vector<std::pair<int, Z3_ast>> outs; std::map<int, std::vector<Z3_ast>> byT; std::vector<Z3_ast> alln;
    for (auto &k : n.cases) { Z3_ast q = Z3_mk_eq(Z, e, bvNum(k.first, n.w0)); Z3_inc_ref(Z, q); byT[k.second].push_back(q); Z3_ast nq = mkNot(q); Z3_inc_ref(Z, nq); alln.push_back(nq); }
    for (auto &k : byT) outs.push_back({k.first, k.second.size() == 1 ? k.second[0] : Z3_mk_or(Z, k.second.size(), k.second.data())});
    outs.push_back({n.t0, alln.size() == 1 ? alln[0] : Z3_mk_and(Z, alln.size(), alln.data())});
    for (auto &x : outs) Z3_inc_ref(Z, x.second);
    std::vector<std::pair<size_t, IP<Model>>> fe;
    for (size_t i = 0; i < outs.size(); i++) { Z3_lbool r = solve(s, outs[i].second); if (r != Z3_L_FALSE) fe.push_back({i, lastModel}); }
    if (fe.empty()) { ST.infeasible++; return R_KILL; }
    for (size_t i = 1; i < fe.size(); i++) { State *o = cloneState(s); ST.forks++; addPC(*o, outs[fe[i].first].second); o->model = fe[i].second; jump(o->F(), outs[fe[i].first].first); work.push_back(o); }
    addPC(s, outs[fe[0].first].second); s.model = fe[0].second; jump(f, outs[fe[0].first].first);
    return R_JUMPED;
  }
  case Instruction::Unreachable: fail(s, "ub", "unreachable code executed"); return endPath(s);
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
  case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
    const Val &a = ev(s, f, n.o[0]), &b = ev(s, f, n.o[1]);
    if (n.w == 0) { // vector
      if (a.k != V_A || b.k != V_A) { setDst(f, n, Val()); break; }
      Val v; v.k = V_A; AggN *g = new AggN; v.p = IP<Node>(g); unsigned w = tyW(cast<FixedVectorType>(n.ty)->getElementType()); for (size_t i = 0; i < a.agg().size(); i++) g->v.push_back(intBin(s, n.opc, a.agg()[i], b.agg()[i], w)); setDst(f, n, v); break; }
    setDst(f, n, intBin(s, n.opc, a, b, n.w)); break; }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
    const Val a = ev(s, f, n.o[0]), b = ev(s, f, n.o[1]);
    if (n.w == 0) { if (a.k != V_A || b.k != V_A) { setDst(f, n, Val()); break; } Val v; v.k = V_A; AggN *g = new AggN; v.p = IP<Node>(g); for (size_t i = 0; i < a.agg().size(); i++) g->v.push_back(fpBin(s, n.opc, a.agg()[i], b.agg()[i], 2)); setDst(f, n, v); break; }
    if (n.fp == 0) unsup("floating type");
    setDst(f, n, fpBin(s, n.opc, a, b, n.fp)); break; }
  case Instruction::FNeg: {
    const Val a = ev(s, f, n.o[0]); auto neg = [&](const Val &x, int fp) -> Val { if (x.k == V_U) return x; if (x.conc()) return Val::C(fp == 1 ? (x.c ^ 0x80000000u) : x.c ^ (1ull << 63)); if (x.k == V_R) return polyScale(x, -1); return fromBV(Z3_mk_bvxor(Z, toBV(x, 64), bvNum(1ull << 63, 64)), 64); };
    if (n.w == 0) { if (a.k == V_U) { setDst(f, n, Val()); break; } Val v; v.k = V_A; AggN *g = new AggN; v.p = IP<Node>(g); for (auto &x : a.agg()) g->v.push_back(neg(x, 2)); setDst(f, n, v); break; }
    setDst(f, n, neg(a, n.fp)); break; }
  case Instruction::ICmp: {
    const Val &a = ev(s, f, n.o[0]), &b = ev(s, f, n.o[1]);
    if (n.w0 == 0) { if (a.k != V_A || b.k != V_A) { setDst(f, n, Val()); break; } Val v; v.k = V_A; AggN *g = new AggN; v.p = IP<Node>(g); unsigned w = tyW(cast<FixedVectorType>(n.I->getOperand(0)->getType())->getElementType()); for (size_t i = 0; i < a.agg().size(); i++) g->v.push_back(icmp(s, n.imm, a.agg()[i], b.agg()[i], w)); setDst(f, n, v); break; }
    setDst(f, n, icmp(s, n.imm, a, b, n.w0)); break; }
  case Instruction::FCmp: { const Val a = ev(s, f, n.o[0]), b = ev(s, f, n.o[1]); if (n.w0 == 0) unsup("vector fcmp"); setDst(f, n, fcmp(s, n.imm, a, b, n.fp)); break; }
  case Instruction::Select: {
    const Val c = ev(s, f, n.o[0]); if (c.k == V_A) { const Val a = ev(s, f, n.o[1]), b = ev(s, f, n.o[2]); Val v; v.k = V_A; AggN *g = new AggN; v.p = IP<Node>(g); for (size_t i = 0; i < c.agg().size(); i++) { if (!c.agg()[i].conc()) unsup("vector select symbolic"); g->v.push_back((c.agg()[i].c & 1) ? a.agg()[i] : b.agg()[i]); } setDst(f, n, v); break; }
    bool fk; Val r = selectV(s, c, ev(s, f, n.o[1]), ev(s, f, n.o[2]), n.w, fk);
    if (fk && n.o.size() == 5 && s.flags.count("lazyabs") && s.flags["lazyabs"]) { Val m; if (selectAbs(s, n.imm, ev(s, f, n.o[3]), ev(s, f, n.o[4]), ev(s, f, n.o[1]), ev(s, f, n.o[2]), m)) { setDst(f, n, m); break; } }
    if (!fk) { setDst(f, n, r); break; }
    Z3_ast b = toBool(c); Z3_inc_ref(Z, b); IP<Model> mt, mf; int fe = feas(s, b, mt, mf);
    if (fe == 0) { ST.infeasible++; Z3_dec_ref(Z, b); return R_KILL; }
    if (fe == 3) { State *o = cloneState(s); ST.forks++; addPC(*o, mkNot(b)); o->model = mf; Frame &g = o->F(); setDst(g, n, ev(*o, g, n.o[2])); g.pc++; work.push_back(o); addPC(s, b); s.model = mt; setDst(f, n, ev(s, f, n.o[1])); }
    else setDst(f, n, ev(s, f, n.o[fe == 1 ? 1 : 2]));
    Z3_dec_ref(Z, b); break; }
  case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
    const Val &a = ev(s, f, n.o[0]);
    auto cv = [&](const Val &a, unsigned w0, unsigned w) -> Val {
      if (a.k == V_U) return Val();
      if (a.conc() && w <= 64) { if (n.opc == Instruction::SExt) return Val::C(maskw((uint64_t)sextw(a.c, w0), w)); return Val::C(maskw(maskw(a.c, w0), w)); }
      if (a.k == V_R) unsup("integer conversion of real bits");
      if (a.k == V_S && a.bv()->isBool && n.opc != Instruction::Trunc) return fromBV(Z3_mk_ite(Z, a.bv()->a, n.opc == Instruction::ZExt ? bvNum(1, w) : bvNum(maskw(~0ull, w), w), bvNum(0, w)), w);
      Z3_ast x = toBV(a, w0);
      if (n.opc == Instruction::ZExt) return fromBV(Z3_mk_zero_ext(Z, w - w0, x), w);
      if (n.opc == Instruction::SExt) return fromBV(Z3_mk_sign_ext(Z, w - w0, x), w);
      if (w == 1) return fromBool(Z3_mk_eq(Z, Z3_mk_extract(Z, 0, 0, x), bvNum(1, 1)));
      return fromBV(Z3_mk_extract(Z, w - 1, 0, x), w); };
    if (n.w == 0) { if (a.k != V_A) { setDst(f, n, Val()); break; } Val v; v.k = V_A; AggN *g = new AggN; v.p = IP<Node>(g); unsigned w0 = tyW(cast<FixedVectorType>(n.I->getOperand(0)->getType())->getElementType()), w = tyW(cast<FixedVectorType>(n.ty)->getElementType()); for (auto &x : a.agg()) g->v.push_back(cv(x, w0, w)); setDst(f, n, v); break; }
    setDst(f, n, cv(a, n.w0, n.w)); break; }
  case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
    const Val a = ev(s, f, n.o[0]);
    if (n.w0 == 0 || n.w == 0) { if (n.w0 == 0 && n.w == 0) { setDst(f, n, a); break; } unsup("vector bitcast"); }
    if (n.w0 != n.w && a.k == V_S) { setDst(f, n, n.w < n.w0 ? fromBV(Z3_mk_extract(Z, n.w - 1, 0, toBV(a, n.w0)), n.w) : fromBV(Z3_mk_zero_ext(Z, n.w - n.w0, toBV(a, n.w0)), n.w)); break; }
    setDst(f, n, a); break; }
  case Instruction::Freeze: { const Val a = ev(s, f, n.o[0]); setDst(f, n, a.k == V_U ? Val::C(0) : a); break; }
  case Instruction::FPExt: { const Val a = ev(s, f, n.o[0]); if (a.k == V_U) { setDst(f, n, a); break; } if (!a.conc() || n.fp != 2) unsup("fpext symbolic"); float x; uint32_t c = a.c; memcpy(&x, &c, 4); setDst(f, n, Val::C(bits((double)x))); break; }
  case Instruction::FPTrunc: { const Val a = ev(s, f, n.o[0]); if (a.k == V_U) { setDst(f, n, a); break; } if (!a.conc() || n.fp != 1) unsup("fptrunc symbolic"); float x = (float)dbl(a.c); uint32_t c; memcpy(&c, &x, 4); setDst(f, n, Val::C(c)); break; }
  case Instruction::UIToFP: case Instruction::SIToFP: {
    const Val a = ev(s, f, n.o[0]); if (a.k == V_U) { setDst(f, n, a); break; }
    if (!a.conc()) { if (n.o[0].reg < 0) unsup("itofp"); if (n.w0 == 1) { if (!concretize(s, f, n.o[0], 1)) { ST.infeasible++; return R_KILL; } return R_JUMPED; } if (!concretize(s, f, n.o[0], n.w0)) { ST.infeasible++; return R_KILL; } return R_JUMPED; }
    double d = n.opc == Instruction::UIToFP ? (double)maskw(a.c, n.w0) : (double)sextw(a.c, n.w0);
    if (n.fp == 1) { float x = (float)d; uint32_t c; memcpy(&c, &x, 4); setDst(f, n, Val::C(c)); } else setDst(f, n, Val::C(bits(d))); break; }
  case Instruction::FPToUI: case Instruction::FPToSI: {
    const Val a = ev(s, f, n.o[0]); if (a.k == V_U) { setDst(f, n, a); break; }
    if (a.conc()) {
      double d; if (n.w0 == 32) { float x; uint32_t c = a.c; memcpy(&x, &c, 4); d = x; } else d = dbl(a.c);
      double lim = n.opc == Instruction::FPToUI ? ldexp(1.0, n.w) : ldexp(1.0, n.w - 1);
      if (!(d < lim && d > (n.opc == Instruction::FPToUI ? -1.0 : -lim - 1.0))) { if (s.flags.count("fpconv_ub") && s.flags["fpconv_ub"]) { fail(s, "ub", "floating point value out of range of the integer type"); return endPath(s); } 
        // model x86-64 code generation
        uint64_t r; if (n.w == 64) r = n.opc == Instruction::FPToUI ? ((d >= 9223372036854775808.0) ? ((uint64_t)(int64_t)0x8000000000000000ull ^ 0x8000000000000000ull) : (uint64_t)(int64_t)0x8000000000000000ull) : 0x8000000000000000ull; else r = maskw(0x80000000ull, n.w); if (n.opc == Instruction::FPToUI && d < 0 && d > -9223372036854775808.0) r = (uint64_t)(int64_t)d; setDst(f, n, Val::C(maskw(r, n.w))); break; }
      setDst(f, n, Val::C(maskw(n.opc == Instruction::FPToUI ? (uint64_t)d : (uint64_t)(int64_t)d, n.w))); break; }
    if (a.k == V_R) { Z3_ast ip = Z3_mk_real2int(Z, polyToReal(a.poly())); (void)ip; unsup("real to int of symbolic"); }
    unsup("fptoi"); }
  case Instruction::GetElementPtr: {
    const Val &base = ev(s, f, n.o[0]);
    if (n.w == 0) unsup("vector gep");
    if (base.k == V_U) { setDst(f, n, Val()); break; }
    Val r;
    if (base.conc()) r = Val::C(base.c + n.imm); else r = intBin(s, Instruction::Add, base, Val::C(n.imm), 64);
    for (size_t i = 0; i < n.scale.size(); i++) {
      const Val &x = ev(s, f, n.o[i + 1]); if (x.k == V_U) { r = Val(); break; }
      if (x.conc() && r.conc()) r.c += (uint64_t)sextw(x.c, n.scale[i].first) * n.scale[i].second;
      else { Val xi = x; if (n.scale[i].first < 64) { if (x.conc()) xi = Val::C((uint64_t)sextw(x.c, n.scale[i].first)); else xi = fromBV(Z3_mk_sign_ext(Z, 64 - n.scale[i].first, toBV(x, n.scale[i].first)), 64); } r = intBin(s, Instruction::Add, r, intBin(s, Instruction::Mul, xi, Val::C(n.scale[i].second), 64), 64); }
    }
    setDst(f, n, r); break; }
  case Instruction::Alloca: {
    const Val c = ev(s, f, n.o[0]); if (!c.conc()) { if (c.k == V_U) { fail(s, "memory", "uninitialised array size"); return endPath(s); } if (!concretize(s, f, n.o[0], n.w0)) { ST.infeasible++; return R_KILL; } return R_JUMPED; }
    uint64_t a = allocObj(s, n.imm * c.c, OK_STACK, false); f.allocas.push_back(idOf(a)); setDst(f, n, Val::C(a)); break; }
  case Instruction::Load: {
    const Val p = ev(s, f, n.o[0]);
    if (p.k == V_U) { fail(s, "memory", "read through an uninitialised pointer"); return endPath(s); }
    if (!p.conc()) { ST.symBranches++; if (p.k != V_S) unsup("pointer kind"); if (!concretize(s, f, n.o[0], 64)) { ST.infeasible++; return R_KILL; } return R_JUMPED; }
    bool at = n.idx[0];
    setDst(f, n, loadT(s, p.c, n.ty, at));
    if (at && s.P().teamN > 1) { // spin detection: let the other threads go on
      f.pc++; s.idle++; if (s.idle > 20000) { fail(s, "hang", "threads or ranks wait forever (no progress)"); return endPath(s); } schedule(s, true); return R_SWITCH; }
    break; }
  case Instruction::Store: {
    const Val p = ev(s, f, n.o[1]);
    if (p.k == V_U) { fail(s, "memory", "write through an uninitialised pointer"); return endPath(s); }
    if (!p.conc()) { if (p.k != V_S) unsup("pointer kind"); if (!concretize(s, f, n.o[1], 64)) { ST.infeasible++; return R_KILL; } return R_JUMPED; }
    storeT(s, p.c, n.ty, ev(s, f, n.o[0]), n.idx[0]);
    if (n.idx[0]) s.idle = 0;
    break; }
  case Instruction::AtomicRMW: {
    const Val p = ev(s, f, n.o[0]); if (!p.conc()) unsup("atomicrmw pointer");
    Val old = loadT(s, p.c, n.ty, true), x = ev(s, f, n.o[1]), r;
    switch (n.imm) {
    case AtomicRMWInst::Xchg: r = x; break; case AtomicRMWInst::Add: r = intBin(s, Instruction::Add, old, x, n.w); break; case AtomicRMWInst::Sub: r = intBin(s, Instruction::Sub, old, x, n.w); break;
    case AtomicRMWInst::And: r = intBin(s, Instruction::And, old, x, n.w); break; case AtomicRMWInst::Or: r = intBin(s, Instruction::Or, old, x, n.w); break; case AtomicRMWInst::Xor: r = intBin(s, Instruction::Xor, old, x, n.w); break;
    case AtomicRMWInst::FAdd: r = fpBin(s, Instruction::FAdd, old, x, 2); break; case AtomicRMWInst::FSub: r = fpBin(s, Instruction::FSub, old, x, 2); break;
    case AtomicRMWInst::UMax: { Val c = icmp(s, CmpInst::ICMP_UGT, old, x, n.w); bool fk; r = selectV(s, c, old, x, n.w, fk); break; }
    case AtomicRMWInst::UMin: { Val c = icmp(s, CmpInst::ICMP_ULT, old, x, n.w); bool fk; r = selectV(s, c, old, x, n.w, fk); break; }
    default: unsup("atomicrmw op"); }
    storeT(s, p.c, n.ty, r, true); setDst(f, n, old); s.idle = 0;
    if (s.P().teamN > 1 && s.preempt > 0) { // bounded preemption: the other threads may run now
      f.pc++; State *o = cloneState(s); ST.forks++; o->preempt--; if (scheduleInProc(*o)) work.push_back(o); else delete o; return R_JUMPED; }
    break; }
  case Instruction::AtomicCmpXchg: {
    const Val p = ev(s, f, n.o[0]); if (!p.conc()) unsup("cmpxchg pointer"); Val old = loadT(s, p.c, n.ty, true), c = ev(s, f, n.o[1]), x = ev(s, f, n.o[2]);
    Val eq; if (old.k == V_S && c.k == V_S && old.p.p == c.p.p) eq = Val::C(1); else if (old.k == V_R && c.k == V_R && old.p.p == c.p.p) eq = Val::C(1); else eq = icmp(s, CmpInst::ICMP_EQ, old, c, n.w);
    if (!eq.conc()) unsup("cmpxchg symbolic");
    if (eq.c) storeT(s, p.c, n.ty, x, true);
    Val v; v.k = V_A; AggN *g = new AggN; g->v = {old, eq}; v.p = IP<Node>(g); setDst(f, n, v); s.idle = 0; break; }
  case Instruction::Fence: break;
  case Instruction::ExtractValue: { Val v = ev(s, f, n.o[0]); for (unsigned i : n.idx) { if (v.k == V_U) break; Val t = v.agg()[i]; v = t; } setDst(f, n, v); break; }
  case Instruction::InsertValue: {
    std::function<Val(Val, Type *, size_t)> ins = [&](Val a, Type *T, size_t d) -> Val {
      if (d == n.idx.size()) return ev(s, f, n.o[1]);
      unsigned cnt = T->isStructTy() ? T->getStructNumElements() : T->getArrayNumElements(); AggN *g = new AggN; if (a.k == V_A) g->v = a.agg(); else g->v.resize(cnt);
      g->v[n.idx[d]] = ins(g->v[n.idx[d]], T->isStructTy() ? T->getStructElementType(n.idx[d]) : T->getArrayElementType(), d + 1); Val v; v.k = V_A; v.p = IP<Node>(g); return v; };
    setDst(f, n, ins(ev(s, f, n.o[0]), n.ty, 0)); break; }
  case Instruction::ExtractElement: { const Val v = ev(s, f, n.o[0]), i = ev(s, f, n.o[1]); if (v.k == V_U) { setDst(f, n, v); break; } if (!i.conc()) unsup("extractelement symbolic index"); setDst(f, n, v.agg()[i.c]); break; }
  case Instruction::InsertElement: { const Val v = ev(s, f, n.o[0]), x = ev(s, f, n.o[1]), i = ev(s, f, n.o[2]); if (!i.conc()) unsup("insertelement"); AggN *g = new AggN; if (v.k == V_A) g->v = v.agg(); else g->v.resize(cast<FixedVectorType>(n.ty)->getNumElements()); g->v[i.c] = x; Val r; r.k = V_A; r.p = IP<Node>(g); setDst(f, n, r); break; }
  case Instruction::ShuffleVector: { const Val a = ev(s, f, n.o[0]), b = ev(s, f, n.o[1]); AggN *g = new AggN; size_t na = cast<FixedVectorType>(n.I->getOperand(0)->getType())->getNumElements(); for (auto &x : n.scale) { if (x.first < 0) g->v.push_back(Val()); else if ((size_t)x.first < na) g->v.push_back(a.k == V_A ? a.agg()[x.first] : Val()); else g->v.push_back(b.k == V_A ? b.agg()[x.first - na] : Val()); } Val r; r.k = V_A; r.p = IP<Node>(g); setDst(f, n, r); break; }
  case Instruction::LandingPad: { Val v; v.k = V_A; AggN *g = new AggN; g->v = {Val::C(s.P().exc.obj), Val::C(s.flags["__sel"])}; v.p = IP<Node>(g); setDst(f, n, v); break; }
  case Instruction::Resume: { popFrame(s); return unwind(s); }
  case Instruction::Call: case Instruction::Invoke: {
    size_t na = cast<CallBase>(n.I)->arg_size();
    Function *cf = n.callee; int hid = n.hid;
    if (!cf && hid != H_nop) {
      Val c = ev(s, f, n.o[na]);
      if (c.k == V_U) { fail(s, "memory", "call through an uninitialised pointer"); return endPath(s); }
      if (!c.conc()) { if (!concretize(s, f, n.o[na], 64)) { ST.infeasible++; return R_KILL; } return R_JUMPED; }
      cf = fnOfAddr(c.c); if (!cf) { fail(s, "memory", "call through an invalid function pointer"); return endPath(s); } hid = handlerFor(cf);
    }
    if (hid == 0 && cf && cf->isDeclaration()) unsup("call to external function " + cf->getName().str());
    std::vector<Val> args(na); for (size_t i = 0; i < na; i++) args[i] = ev(s, f, n.o[i]);
    if (hid > 0) return handle(s, n, hid, args, cf);
    // byval arguments
    auto *CB = cast<CallBase>(n.I);
    std::vector<uint32_t> byv;
    for (size_t i = 0; i < na; i++) if (CB->isByValArgument(i)) { uint64_t sz = DL->getTypeAllocSize(CB->getParamByValType(i)); uint64_t a = allocObj(s, sz, OK_STACK, false); memCopy(s, a, args[i].c, sz); args[i] = Val::C(a); byv.push_back(idOf(a)); }
    pushFrame(s, cf, args); for (auto id : byv) s.F().allocas.push_back(id);
    return R_JUMPED; }
  default: unsup(std::string("instruction ") + n.I->getOpcodeName());
  }
  f.pc++;
  return R_NEXT;
}
#include "main.inc"
