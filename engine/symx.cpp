// symx - symbolic executor for LLVM IR with an SMT back end (z3).
//  * executes LLVM bitcode compiled from the real sources + a harness
//  * inputs are symbolic (bit vectors, opaque 64-bit doubles, or exact reals)
//  * every branch / assertion is decided by the SMT solver under the path condition
//  * several "ranks" (separate memory images) and OpenMP threads are modelled
#include "symx.hh"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/StringExtras.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
using namespace llvm;
#include <sys/mman.h>
#include <sys/prctl.h>
#include <errno.h>

// every created term is kept alive until the current instruction is finished
static std::vector<Z3_ast> trail;
extern Z3_context Z;
static inline Z3_ast TR(Z3_ast a) { if (a) { Z3_inc_ref(Z, a); trail.push_back(a); } return a; }
static inline void flushTrail() { if (trail.size() > 256) { for (auto a : trail) Z3_dec_ref(Z, a); trail.clear(); } }
#define Z3_get_algebraic_number_lower(...) TR(Z3_get_algebraic_number_lower(__VA_ARGS__))
#define Z3_mk_unary_minus(...) TR(Z3_mk_unary_minus(__VA_ARGS__))
#define Z3_mk_add(...) TR(Z3_mk_add(__VA_ARGS__))
#define Z3_mk_and(...) TR(Z3_mk_and(__VA_ARGS__))
#define Z3_mk_app(...) TR(Z3_mk_app(__VA_ARGS__))
#define Z3_mk_bvadd(...) TR(Z3_mk_bvadd(__VA_ARGS__))
#define Z3_mk_bvadd_no_overflow(...) TR(Z3_mk_bvadd_no_overflow(__VA_ARGS__))
#define Z3_mk_bvadd_no_underflow(...) TR(Z3_mk_bvadd_no_underflow(__VA_ARGS__))
#define Z3_mk_bvand(...) TR(Z3_mk_bvand(__VA_ARGS__))
#define Z3_mk_bvashr(...) TR(Z3_mk_bvashr(__VA_ARGS__))
#define Z3_mk_bvlshr(...) TR(Z3_mk_bvlshr(__VA_ARGS__))
#define Z3_mk_bvmul(...) TR(Z3_mk_bvmul(__VA_ARGS__))
#define Z3_mk_bvmul_no_overflow(...) TR(Z3_mk_bvmul_no_overflow(__VA_ARGS__))
#define Z3_mk_bvmul_no_underflow(...) TR(Z3_mk_bvmul_no_underflow(__VA_ARGS__))
#define Z3_mk_bvor(...) TR(Z3_mk_bvor(__VA_ARGS__))
#define Z3_mk_bvsdiv(...) TR(Z3_mk_bvsdiv(__VA_ARGS__))
#define Z3_mk_bvsge(...) TR(Z3_mk_bvsge(__VA_ARGS__))
#define Z3_mk_bvsgt(...) TR(Z3_mk_bvsgt(__VA_ARGS__))
#define Z3_mk_bvshl(...) TR(Z3_mk_bvshl(__VA_ARGS__))
#define Z3_mk_bvsle(...) TR(Z3_mk_bvsle(__VA_ARGS__))
#define Z3_mk_bvslt(...) TR(Z3_mk_bvslt(__VA_ARGS__))
#define Z3_mk_bvsrem(...) TR(Z3_mk_bvsrem(__VA_ARGS__))
#define Z3_mk_bvsub(...) TR(Z3_mk_bvsub(__VA_ARGS__))
#define Z3_mk_bvsub_no_overflow(...) TR(Z3_mk_bvsub_no_overflow(__VA_ARGS__))
#define Z3_mk_bvsub_no_underflow(...) TR(Z3_mk_bvsub_no_underflow(__VA_ARGS__))
#define Z3_mk_bvudiv(...) TR(Z3_mk_bvudiv(__VA_ARGS__))
#define Z3_mk_bvuge(...) TR(Z3_mk_bvuge(__VA_ARGS__))
#define Z3_mk_bvugt(...) TR(Z3_mk_bvugt(__VA_ARGS__))
#define Z3_mk_bvule(...) TR(Z3_mk_bvule(__VA_ARGS__))
#define Z3_mk_bvult(...) TR(Z3_mk_bvult(__VA_ARGS__))
#define Z3_mk_bvurem(...) TR(Z3_mk_bvurem(__VA_ARGS__))
#define Z3_mk_bvxor(...) TR(Z3_mk_bvxor(__VA_ARGS__))
#define Z3_mk_concat(...) TR(Z3_mk_concat(__VA_ARGS__))
#define Z3_mk_const(...) TR(Z3_mk_const(__VA_ARGS__))
#define Z3_mk_eq(...) TR(Z3_mk_eq(__VA_ARGS__))
#define Z3_mk_extract(...) TR(Z3_mk_extract(__VA_ARGS__))
#define Z3_mk_false(...) TR(Z3_mk_false(__VA_ARGS__))
#define Z3_mk_fpa_eq(...) TR(Z3_mk_fpa_eq(__VA_ARGS__))
#define Z3_mk_fpa_geq(...) TR(Z3_mk_fpa_geq(__VA_ARGS__))
#define Z3_mk_fpa_gt(...) TR(Z3_mk_fpa_gt(__VA_ARGS__))
#define Z3_mk_fpa_is_nan(...) TR(Z3_mk_fpa_is_nan(__VA_ARGS__))
#define Z3_mk_fpa_leq(...) TR(Z3_mk_fpa_leq(__VA_ARGS__))
#define Z3_mk_fpa_lt(...) TR(Z3_mk_fpa_lt(__VA_ARGS__))
#define Z3_mk_fpa_to_fp_bv(...) TR(Z3_mk_fpa_to_fp_bv(__VA_ARGS__))
#define Z3_mk_ge(...) TR(Z3_mk_ge(__VA_ARGS__))
#define Z3_mk_gt(...) TR(Z3_mk_gt(__VA_ARGS__))
#define Z3_mk_iff(...) TR(Z3_mk_iff(__VA_ARGS__))
#define Z3_mk_ite(...) TR(Z3_mk_ite(__VA_ARGS__))
#define Z3_mk_le(...) TR(Z3_mk_le(__VA_ARGS__))
#define Z3_mk_lt(...) TR(Z3_mk_lt(__VA_ARGS__))
#define Z3_mk_mul(...) TR(Z3_mk_mul(__VA_ARGS__))
#define Z3_mk_not(...) TR(Z3_mk_not(__VA_ARGS__))
#define Z3_mk_numeral(...) TR(Z3_mk_numeral(__VA_ARGS__))
#define Z3_mk_or(...) TR(Z3_mk_or(__VA_ARGS__))
#define Z3_mk_real2int(...) TR(Z3_mk_real2int(__VA_ARGS__))
#define Z3_mk_sign_ext(...) TR(Z3_mk_sign_ext(__VA_ARGS__))
#define Z3_mk_true(...) TR(Z3_mk_true(__VA_ARGS__))
#define Z3_mk_unsigned_int64(...) TR(Z3_mk_unsigned_int64(__VA_ARGS__))
#define Z3_mk_xor(...) TR(Z3_mk_xor(__VA_ARGS__))
#define Z3_mk_zero_ext(...) TR(Z3_mk_zero_ext(__VA_ARGS__))
#define Z3_simplify(...) TR(Z3_simplify(__VA_ARGS__))

Z3_context Z;
static Module *M;
static const DataLayout *DL;
static LLVMContext LC;

// ------------------------------------------------------------------ options / stats
static struct {
  double timeout = 600; int jobs = 1; unsigned qtimeout = 20000; uint64_t maxSteps = 4000000000ull;
  std::string out, repo = "/repo"; uint64_t maxPaths = 0; bool verbose = false; bool race = true; long maxViol = 1;
  bool div0 = true; std::map<std::string,std::string> params; size_t memMB = 3500; bool trace=false;
} O;
struct Stats {
  uint64_t steps = 0, paths = 0, forks = 0, q = 0, qsat = 0, qunsat = 0, qunk = 0, asserts = 0, assertsTriv = 0, assertsSolver = 0, infeasible = 0, aborted = 0;
  uint64_t assertsNF = 0, intervalCmp = 0; uint64_t states = 0, switches = 0, raceChecks = 0, symBranches = 0, oblig = 0;
  double qtime = 0, qmax = 0;
} ST;
static std::map<std::string, uint64_t> reach;
static std::map<std::string, uint64_t> fnHits;
static std::map<std::string, std::string> symRange;
static std::vector<std::string> sampleLines;
struct Viol { std::string kind, msg, where, cex; };
static std::vector<Viol> viols;
static std::set<std::string> violKeys;
static std::string engineError;
static std::set<std::string> incomplete;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double T0;

struct Unsupported { std::string m; };
[[noreturn]] static void unsup(const std::string &m) { throw Unsupported{m}; }

// ------------------------------------------------------------------ z3 helpers
static Z3_sort bvSort(unsigned w) { static std::map<unsigned, Z3_sort> c; auto &x = c[w]; if (!x) { x = Z3_mk_bv_sort(Z, w); Z3_inc_ref(Z, Z3_sort_to_ast(Z, x)); } return x; }
static Z3_sort realSort() { static Z3_sort x; if (!x) { x = Z3_mk_real_sort(Z); Z3_inc_ref(Z, Z3_sort_to_ast(Z, x)); } return x; }
static Z3_ast bvNum(uint64_t c, unsigned w) { return Z3_mk_unsigned_int64(Z, c, bvSort(w)); }
static uint64_t maskw(uint64_t c, unsigned w) { return w >= 64 ? c : c & ((1ull << w) - 1); }
static int64_t sextw(uint64_t c, unsigned w) { if (w >= 64) return (int64_t)c; uint64_t m = 1ull << (w - 1); c = maskw(c, w); return (int64_t)((c ^ m) - m); }

static Val mkS(Z3_ast a, unsigned w, bool isBool) { Val v; v.k = V_S; v.p = IP<Node>(new BVN(a, w, isBool)); return v; }
// make value from z3 expr, folding constants
static Val fromBV(Z3_ast a, unsigned w) {
  Z3_inc_ref(Z, a);
  Z3_ast s = a;
  if (Z3_get_ast_kind(Z, a) != Z3_NUMERAL_AST) s = Z3_simplify(Z, a);
  Z3_inc_ref(Z, s); Z3_dec_ref(Z, a);
  Val r;
  uint64_t c;
  if (w <= 64 && Z3_get_ast_kind(Z, s) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(Z, s, &c)) r = Val::C(c);
  else r = mkS(s, w, false);
  Z3_dec_ref(Z, s);
  return r;
}
static Val fromBool(Z3_ast a) {
  Z3_inc_ref(Z, a);
  Z3_ast s = Z3_simplify(Z, a);
  Z3_inc_ref(Z, s); Z3_dec_ref(Z, a);
  Z3_lbool b = Z3_get_bool_value(Z, s);
  Val r;
  if (b == Z3_L_TRUE) r = Val::C(1); else if (b == Z3_L_FALSE) r = Val::C(0); else r = mkS(s, 1, true);
  Z3_dec_ref(Z, s);
  return r;
}
static Z3_ast toBool(const Val &v) {
  if (v.k == V_C) return (v.c & 1) ? Z3_mk_true(Z) : Z3_mk_false(Z);
  if (v.k == V_S) { if (v.bv()->isBool) return v.bv()->a; return Z3_mk_eq(Z, v.bv()->a, bvNum(1, v.bv()->w)); }
  unsup("toBool of non-bool");
}
static Z3_ast polyToReal(PolyN *p);
static Z3_ast toBV(const Val &v, unsigned w) {
  if (v.k == V_C) return bvNum(maskw(v.c, w), w);
  if (v.k == V_S) {
    if (v.bv()->isBool) return Z3_mk_ite(Z, v.bv()->a, bvNum(1, w), bvNum(0, w));
    if (v.bv()->w != w) unsup("bv width mismatch");
    return v.bv()->a;
  }
  if (v.k == V_R || v.k == V_B) unsup("bit-level use of a real-sorted value");
  unsup("toBV of undefined value");
}

// ------------------------------------------------------------------ polynomials over reals
struct VarInfo { std::string name; Z3_ast a; int sqrtDef = -1; int invOf = -1; int absDef = -1; bool bounded = false; int ivState = 0; Q lo = 0, hi = 0; };  // sqrtDef: index in polyDefs; invOf: var it is inverse of
static std::vector<VarInfo> vars;
static std::vector<IP<Node>> polyDefs;
typedef std::vector<std::pair<uint32_t, uint32_t>> Mono;
static std::vector<Mono> monos(1);
static std::map<Mono, uint32_t> monoId = {{Mono(), 0}};
static uint32_t internMono(const Mono &m) { auto it = monoId.find(m); if (it != monoId.end()) return it->second; uint32_t id = monos.size(); monos.push_back(m); monoId[m] = id; return id; }
static uint32_t newVar(const std::string &name) {
  VarInfo v; v.name = name;
  v.a = Z3_mk_const(Z, Z3_mk_string_symbol(Z, name.c_str()), realSort()); Z3_inc_ref(Z, v.a);
  vars.push_back(v); return vars.size() - 1;
}
static Val mkPoly(PolyN *p) { Val v; v.k = V_R; v.p = IP<Node>(p); return v; }
static PolyN *polyConst(Q c) { PolyN *p = new PolyN; if (c != 0) p->t.push_back({0, c}); return p; }
static PolyN *polyVar(uint32_t v) { PolyN *p = new PolyN; p->t.push_back({internMono({{v, 1}}), (Q)1}); return p; }
static double dbl(uint64_t c) { double d; memcpy(&d, &c, 8); return d; }
static uint64_t bits(double d) { uint64_t c; memcpy(&c, &d, 8); return c; }
static bool polyIsConst(PolyN *p, Q &c) { if (p->t.empty()) { c = 0; return true; } if (p->t.size() == 1 && p->t[0].m == 0) { c = p->t[0].c; return true; } return false; }
static Val normR(Val v) { Q c; if (v.k == V_R && polyIsConst(v.poly(), c)) { double d = (double)c; if ((Q)d == c) return Val::C(bits(d)); } return v; }
static Val toR(const Val &v) {
  if (v.k == V_R) return v;
  if (v.k == V_C) { double d = dbl(v.c); if (!std::isfinite(d)) unsup("non-finite concrete double mixed with a real"); return mkPoly(polyConst((Q)d)); }
  unsup("toR");
}
static Val polyAdd(const Val &a, const Val &b, int sgn) {
  PolyN *x = a.poly(), *y = b.poly(), *r = new PolyN;
  size_t i = 0, j = 0;
  r->t.reserve(x->t.size() + y->t.size());
  while (i < x->t.size() || j < y->t.size()) {
    if (j >= y->t.size() || (i < x->t.size() && x->t[i].m < y->t[j].m)) r->t.push_back(x->t[i++]);
    else if (i >= x->t.size() || y->t[j].m < x->t[i].m) { Term t = y->t[j++]; if (sgn < 0) t.c = -t.c; r->t.push_back(t); }
    else { Term t = x->t[i++]; if (sgn < 0) t.c -= y->t[j++].c; else t.c += y->t[j++].c; if (t.c != 0) r->t.push_back(t); }
  }
  return mkPoly(r);
}
static Val polyScale(const Val &a, Q c) { PolyN *r = new PolyN; if (c != 0) { r->t = a.poly()->t; for (auto &t : r->t) t.c *= c; } return mkPoly(r); }
static Val polyMul(const Val &a, const Val &b);
static void reduceInto(std::map<uint32_t, Q> &acc, Mono m, Q c) {
  // cancel inverse pairs, reduce squares of sqrt variables
  for (size_t i = 0; i < m.size(); i++) {
    int inv = vars[m[i].first].invOf;
    if (inv >= 0) for (size_t j = 0; j < m.size(); j++) if ((int)m[j].first == inv) {
      uint32_t k = std::min(m[i].second, m[j].second); m[i].second -= k; m[j].second -= k;
      Mono n; for (auto &e : m) if (e.second) n.push_back(e);
      reduceInto(acc, n, c); return;
    }
  }
  for (size_t i = 0; i < m.size(); i++) if (vars[m[i].first].sqrtDef >= 0 && m[i].second >= 2) {
    Val def; def.k = V_R; def.p = polyDefs[vars[m[i].first].sqrtDef];
    Mono n; for (size_t j = 0; j < m.size(); j++) { auto e = m[j]; if (j == i) e.second -= 2; if (e.second) n.push_back(e); }
    PolyN *rest = new PolyN; rest->t.push_back({internMono(n), c});
    Val pr = polyMul(mkPoly(rest), def);
    for (auto &t : pr.poly()->t) { Q &q = acc[t.m]; q += t.c; }
    return;
  }
  acc[internMono(m)] += c;
}
static Val polyMul(const Val &a, const Val &b) {
  Q c;
  if (polyIsConst(a.poly(), c)) return polyScale(b, c);
  if (polyIsConst(b.poly(), c)) return polyScale(a, c);
  std::map<uint32_t, Q> acc;
  for (auto &x : a.poly()->t) for (auto &y : b.poly()->t) {
    const Mono &p = monos[x.m], &q = monos[y.m];
    Mono m; size_t i = 0, j = 0; bool special = false;
    while (i < p.size() || j < q.size()) {
      if (j >= q.size() || (i < p.size() && p[i].first < q[j].first)) m.push_back(p[i++]);
      else if (i >= p.size() || q[j].first < p[i].first) m.push_back(q[j++]);
      else { m.push_back({p[i].first, p[i].second + q[j].second}); i++; j++; }
    }
    for (auto &e : m) if (vars[e.first].invOf >= 0 || (vars[e.first].sqrtDef >= 0 && e.second >= 2)) special = true;
    Q cc = x.c * y.c;
    if (special) reduceInto(acc, m, cc); else acc[internMono(m)] += cc;
  }
  PolyN *r = new PolyN;
  for (auto &kv : acc) if (kv.second != 0) r->t.push_back({kv.first, kv.second});
  return mkPoly(r);
}
static std::string pow2str(int e) { static std::map<int, std::string> c; auto it = c.find(e); if (it != c.end()) return it->second; std::string s = "1"; for (int i = 0; i < e; i++) { int carry = 0; for (int k = (int)s.size() - 1; k >= 0; k--) { int d = (s[k] - '0') * 2 + carry; s[k] = '0' + d % 10; carry = d / 10; } if (carry) s.insert(s.begin(), '0' + carry); } return c[e] = s; }
static std::string u128str(unsigned __int128 v) { if (v == 0) return "0"; std::string s; while (v) { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } return s; }
static std::string mulstr(const std::string &a, const std::string &b) { std::vector<int> r(a.size() + b.size(), 0); for (int i = a.size() - 1; i >= 0; i--) for (int j = b.size() - 1; j >= 0; j--) { int t = (a[i] - '0') * (b[j] - '0') + r[i + j + 1]; r[i + j + 1] = t % 10; r[i + j] += t / 10; } std::string s; for (int d : r) if (!(s.empty() && d == 0)) s += '0' + d; return s.empty() ? "0" : s; }
static Z3_ast qNum(Q q) {
  union { Q q; unsigned __int128 u; } x; x.q = q;
  bool neg = (x.u >> 127) & 1; int e = (int)((x.u >> 112) & 0x7fff); unsigned __int128 m = x.u & ((((unsigned __int128)1) << 112) - 1);
  if (e == 0x7fff) unsup("non-finite real");
  if (e == 0) { if (m == 0) return Z3_mk_numeral(Z, "0", realSort()); } else m |= ((unsigned __int128)1) << 112;
  int ex = (e == 0 ? 1 : e) - 16383 - 112;
  while (!(m & 1)) { m >>= 1; ex++; }
  std::string s = u128str(m);
  if (ex > 0) s = mulstr(s, pow2str(ex)); else if (ex < 0) s = s + "/" + pow2str(-ex);
  if (neg) s = "-" + s;
  return Z3_mk_numeral(Z, s.c_str(), realSort());
}
static int coefBits = 0;   // sx_set("coefbits"): coefficients are rounded to this many bits in solver queries
static Q roundCoef(Q c) { if (!coefBits || c == 0) return c; int e = 0; Q a = c < 0 ? -c : c; frexpl((long double)a, &e); Q g = (Q)ldexpl(1.0L, e - coefBits); return (Q)rintl((long double)(c / g)) * g; }
static Z3_ast polyToReal(PolyN *p) {
  if (p->cache) return p->cache;
  std::vector<Z3_ast> ts;
  for (auto &t : p->t) {
    std::vector<Z3_ast> f;
    if (t.c != 1 || t.m == 0) f.push_back(qNum(roundCoef(t.c)));
    for (auto &e : monos[t.m]) for (uint32_t i = 0; i < e.second; i++) f.push_back(vars[e.first].a);
    Z3_ast a = f.size() == 1 ? f[0] : Z3_mk_mul(Z, f.size(), f.data());
    Z3_inc_ref(Z, a); ts.push_back(a);
  }
  Z3_ast r = ts.empty() ? Z3_mk_numeral(Z, "0", realSort()) : ts.size() == 1 ? ts[0] : Z3_mk_add(Z, ts.size(), ts.data());
  Z3_inc_ref(Z, r);
  for (auto a : ts) Z3_dec_ref(Z, a);
  return p->cache = r;
}
static std::map<uint32_t, IP<Node>> invPoly;   // reciprocal variable -> polynomial it is the reciprocal of
// Clears the denominators of p (multiplies by the polynomials its reciprocal variables stand for, which are non-zero on the path)
// and tells whether the numerator is identically zero, up to the rounding of the 113-bit coefficient arithmetic.
static bool provedZero(PolyN *p0) {
  IP<Node> keep(p0); PolyN *p = p0; Q scale = 0; for (auto &t : p->t) { Q a = t.c < 0 ? -t.c : t.c; if (a > scale) scale = a; }
  for (int round = 0; round < 200; round++) {
    int64_t v = -1; uint32_t mx = 0;
    for (auto &t : p->t) for (auto &e : monos[t.m]) if (invPoly.count(e.first)) { if ((int64_t)e.first > v) { v = e.first; mx = e.second; } else if ((int64_t)e.first == v && e.second > mx) mx = e.second; }
    if (v < 0) { for (auto &t : p->t) { Q a = t.c < 0 ? -t.c : t.c; if (a > scale * 1e-12Q) { if (getenv("DBGZ")) fprintf(stderr, "notzero rel %g scale %g terms %zu\n", (double)(a / scale), (double)scale, p->t.size()); return false; } } return true; }
    std::vector<PolyN *> part(mx + 1, nullptr); for (auto &q : part) q = new PolyN;
    for (auto &t : p->t) { uint32_t k = 0; Mono m; for (auto &e : monos[t.m]) if ((int64_t)e.first == v) k = e.second; else m.push_back(e); part[k]->t.push_back({internMono(m), t.c}); }
    Val D; D.k = V_R; D.p = invPoly[v]; Val acc = mkPoly(part[0]);
    // Horner: sum_k part_k * D^(mx-k)
    for (uint32_t k = 1; k <= mx; k++) { std::sort(part[k]->t.begin(), part[k]->t.end(), [](const Term &a, const Term &b) { return a.m < b.m; }); if (k == 1) std::sort(acc.poly()->t.begin(), acc.poly()->t.end(), [](const Term &a, const Term &b) { return a.m < b.m; });
      acc = polyAdd(polyMul(acc, D), mkPoly(part[k]), 1); if (acc.poly()->t.size() > 400000) return false; for (auto &t : acc.poly()->t) { Q a = t.c < 0 ? -t.c : t.c; if (a > scale) scale = a; } }
    PolyN *n = new PolyN; for (auto &t : acc.poly()->t) { Q a = t.c < 0 ? -t.c : t.c; if (a > scale * 1e-26Q) n->t.push_back(t); }
    keep = IP<Node>(n); p = n;
  }
  return false;
}
// Interval of a polynomial from the declared ranges of its variables (sx_real_in); reciprocals and square roots are bounded
// through what they stand for.  False when some variable has no known range.
static bool polyRange(PolyN *p, Q &lo, Q &hi);
static bool varRange(uint32_t v, Q &lo, Q &hi) {
  if (vars[v].bounded) { lo = vars[v].lo; hi = vars[v].hi; return true; }
  if (vars[v].ivState == 2) return false;
  if (vars[v].ivState == 0) {
    bool ok = false; Q a, b; auto it = invPoly.find(v);
    if (it != invPoly.end()) { if (polyRange((PolyN *)it->second.p, a, b) && (a > 1e-9Q || b < -1e-9Q)) { ok = true; vars[v].lo = 1 / b; vars[v].hi = 1 / a; } }
    else if (vars[v].sqrtDef >= 0 && polyRange((PolyN *)polyDefs[vars[v].sqrtDef].p, a, b)) { ok = true; vars[v].lo = a <= 0 ? 0 : (Q)std::sqrt((double)a) * (1 - 1e-15Q); vars[v].hi = b <= 0 ? 0 : (Q)std::sqrt((double)b) * (1 + 1e-15Q); }
    else if (vars[v].absDef >= 0) { if (polyRange((PolyN *)polyDefs[vars[v].absDef].p, a, b)) { ok = true; Q na = a < 0 ? -a : a, nb = b < 0 ? -b : b; vars[v].hi = na > nb ? na : nb; vars[v].lo = a > 0 ? a : b < 0 ? -b : 0; } }
    vars[v].ivState = 2; if (ok) { vars[v].bounded = true; lo = vars[v].lo; hi = vars[v].hi; return true; }
  }
  return false;
}
static bool polyRange(PolyN *p, Q &lo, Q &hi) {
  lo = hi = 0; if (p->t.size() > 20000) return false; Q mag = 0; bool allPos = true, allNeg = true;
  for (auto &t : p->t) { Q a = t.c, b = t.c;
    for (auto &e : monos[t.m]) { Q x, y; if (!varRange(e.first, x, y)) return false;
      Q px = 1, py = 1; for (uint32_t i = 0; i < e.second; i++) { px *= x; py *= y; } if (e.second % 2 == 0) { Q m = px < py ? px : py; Q M = px < py ? py : px; if (x <= 0 && y >= 0) m = 0; px = m; py = M; }
      Q q[4] = {a * px, a * py, b * px, b * py}; a = b = q[0]; for (int i = 1; i < 4; i++) { if (q[i] < a) a = q[i]; if (q[i] > b) b = q[i]; } }
    if (a < 0) allPos = false; if (b > 0) allNeg = false; lo += a; hi += b; Q k = a < 0 ? -a : a, l = b < 0 ? -b : b; mag += k > l ? k : l; }
  lo -= mag * 1e-28Q; hi += mag * 1e-28Q; if (allPos && lo < 0) lo = 0; if (allNeg && hi > 0) hi = 0; return true;
}
// 1 / -1 when the signs of the variables alone make the polynomial positive / negative
static int varSign(uint32_t v) { Q x, y; if (varRange(v, x, y)) return x >= 0 ? 1 : y <= 0 ? -1 : 0; auto it = invPoly.find(v); if (it != invPoly.end() && polyRange((PolyN *)it->second.p, x, y)) return x >= 0 ? 1 : y <= 0 ? -1 : 0; return vars[v].sqrtDef >= 0 || vars[v].absDef >= 0 ? 1 : 0; }
static int polySign(PolyN *p) {
  int r = 0; bool cst = false; for (auto &t : p->t) { int k = t.c > 0 ? 1 : -1; if (t.m == 0) cst = true; for (auto &e : monos[t.m]) { int v = varSign(e.first); if (e.second % 2 == 0) v = v ? 1 : 1; if (!v) return 0; if (e.second % 2) k *= v; } if (r && r != k) return 0; r = k; }
  return cst ? r : 0; }
static bool hasInv(PolyN *p) { for (auto &t : p->t) for (auto &e : monos[t.m]) if (invPoly.count(e.first)) return true; return false; }
static bool polyNonlinear(PolyN *p) { for (auto &t : p->t) { uint32_t d = 0; for (auto &e : monos[t.m]) d += e.second; if (d > 1) return true; } return false; }

// ------------------------------------------------------------------ program representation
struct Op { int reg = -1; Val v; };
struct FInfo;
struct Ins {
  const Instruction *I = nullptr; uint16_t opc = 0; int dst = -1; unsigned w = 0, w0 = 0; int fp = 0; 
  std::vector<Op> o; uint64_t imm = 0; std::vector<std::pair<int, int64_t>> scale; int t0 = -1, t1 = -1;
  Function *callee = nullptr; int hid = -1; std::vector<unsigned> idx; Type *ty = nullptr;
  std::vector<std::pair<uint64_t, int>> cases; std::vector<std::pair<int, Op>> phi; bool term = false;
};
struct BB { std::vector<Ins> ins; unsigned nphi = 0; };
struct FInfo { Function *F; std::string name; std::vector<BB> bb; int nregs = 0; std::vector<int> args; bool repo = false; uint64_t hits = 0; bool va = false; };

typedef std::vector<uint32_t> VC;
struct Frame { FInfo *f; int bb = 0, pc = 0; std::vector<Val> regs; std::vector<uint32_t> allocas; bool ompRoot = false; bool isCtor = false; };
enum { TH_RUN = 0, TH_BAR = 1, TH_JOIN = 2, TH_DONE = 3 };
struct Thread { std::vector<Frame> st; int status = TH_RUN; int tid = 0; VC vc; std::vector<uint64_t> spin; };
struct Shadow { int wt = -1; uint32_t wc = 0; bool watomic = false; std::vector<std::pair<int, uint32_t>> rd; std::vector<std::pair<int,uint32_t>> ard; };
struct RaceMem { int rc = 0; std::unordered_map<uint64_t, Shadow> sh; std::unordered_map<uint64_t, VC> sync; static void destroy(RaceMem *r) { delete r; } };
struct Exc { bool active = false; uint64_t obj = 0, ti = 0; };
struct Proc {
  ObjTab tab; uint32_t nextId = 1; std::vector<Thread> th; int rank = 0; bool done = false; int ompN = 1; int teamN = 1; int pushN = 0;
  IP<RaceMem> race; std::unordered_map<uint64_t, int> locks; std::map<uint64_t,uint64_t> dispatch; Exc exc; std::vector<uint64_t> caught; int barCount = 0; int singleCount = 0; std::map<int,uint64_t> singles;
};
struct SymRec { std::string name; Z3_ast a; int sort; unsigned w; }; // sort 0 bv, 1 real
struct Model { int rc = 0; Z3_model m; Model(Z3_model m) : m(m) { Z3_model_inc_ref(Z, m); } ~Model() { Z3_model_dec_ref(Z, m); } static void destroy(Model *m) { delete m; } };
struct State {
  std::vector<Proc> procs; ObjTab shared; uint32_t nextShared = SHARED_ID;
  int cp = 0, ct = 0;
  std::vector<IP<Node>> pc; bool nonlin = false;
  IP<Model> model;
  std::vector<SymRec> syms; std::map<std::string, int> occ;
  std::vector<std::string> notes; std::vector<std::string> tags;
  uint64_t steps = 0, idle = 0, ver = 0; int preempt = 0;
  std::map<std::string, int64_t> flags;
  std::set<uint32_t> auxActive, divSeen;   // reciprocal / root / absolute-value variables whose definition is part of pc; divisors already checked
  std::map<std::string,Val> ufApps;
  Proc &P() { return procs[cp]; }
  Thread &T() { return procs[cp].th[ct]; }
  Frame &F() { return procs[cp].th[ct].st.back(); }
};
static std::vector<State *> work;

static std::unordered_map<const Function *, FInfo *> finfo;
static std::unordered_map<const Function *, uint32_t> fnIdx; static std::vector<Function *> fnList;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static uint64_t addrOfFn(Function *f) { auto it = fnIdx.find(f); if (it != fnIdx.end()) return ((uint64_t)(FUNC_ID | it->second)) << IDSHIFT; uint32_t i = fnList.size(); fnList.push_back(f); fnIdx[f] = i; return ((uint64_t)(FUNC_ID | i)) << IDSHIFT; }
static Function *fnOfAddr(uint64_t a) { uint32_t id = idOf(a); if (!(id & FUNC_ID)) return nullptr; id &= ~FUNC_ID; if (id >= fnList.size() || (a & OFFMASK)) return nullptr; return fnList[id]; }

// ------------------------------------------------------------------ solver
static Z3_solver SOL; static std::vector<IP<Node>> solStack;
static Z3_solver mkSolver(bool nl, unsigned to) {
  Z3_solver s;
  if (nl) { Z3_tactic t1 = Z3_mk_tactic(Z, "simplify"); Z3_tactic_inc_ref(Z, t1); Z3_tactic t2 = Z3_mk_tactic(Z, "qfnra-nlsat"); Z3_tactic_inc_ref(Z, t2); Z3_tactic t0 = Z3_mk_tactic(Z, "solve-eqs"); Z3_tactic_inc_ref(Z, t0); Z3_tactic t3 = Z3_tactic_and_then(Z, t1, Z3_tactic_and_then(Z, t0, t2)); Z3_tactic_inc_ref(Z, t3); s = Z3_mk_solver_from_tactic(Z, t3); }
  else s = Z3_mk_solver(Z);
  Z3_solver_inc_ref(Z, s);
  Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p);
  Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), to);
  Z3_solver_set_params(Z, s, p); Z3_params_dec_ref(Z, p);
  return s;
}
static void syncSolver(State &s) {
  size_t k = 0; while (k < solStack.size() && k < s.pc.size() && solStack[k].p == s.pc[k].p) k++;
  if (k < solStack.size()) { Z3_solver_pop(Z, SOL, solStack.size() - k); solStack.resize(k); }
  for (; k < s.pc.size(); k++) { Z3_solver_push(Z, SOL); Z3_solver_assert(Z, SOL, ((BVN *)s.pc[k].p)->a); solStack.push_back(s.pc[k]); }
}
static IP<Model> lastModel;
static Z3_lbool solve(State &s, Z3_ast extra, bool nl = false) {
  double t = now(); ST.q++;
  Z3_lbool r; lastModel = IP<Model>();
  if (extra) Z3_inc_ref(Z, extra);
  nl = nl || s.nonlin;
  if (!nl) {
    syncSolver(s);
    Z3_solver_push(Z, SOL); if (extra) Z3_solver_assert(Z, SOL, extra);
    r = Z3_solver_check(Z, SOL);
    if (r == Z3_L_TRUE) lastModel = IP<Model>(new Model(Z3_solver_get_model(Z, SOL)));
    Z3_solver_pop(Z, SOL, 1);
  } else r = Z3_L_UNDEF;
  if (r == Z3_L_UNDEF) {
    for (int k = 0; k < 2 && r == Z3_L_UNDEF; k++) {
      Z3_solver z = mkSolver(k == 0, O.qtimeout);
      for (auto &c : s.pc) Z3_solver_assert(Z, z, ((BVN *)c.p)->a);
      if (extra) Z3_solver_assert(Z, z, extra);
      r = Z3_solver_check(Z, z);
      if (r == Z3_L_TRUE) lastModel = IP<Model>(new Model(Z3_solver_get_model(Z, z)));
      Z3_solver_dec_ref(Z, z);
    }
  }
  if (extra) Z3_dec_ref(Z, extra);
  double d = now() - t; ST.qtime += d; if (d > ST.qmax) ST.qmax = d;
  if (getenv("SXSLOW") && d > 1) { fprintf(stderr, "[slow query %.1fs -> %d nl %d]\n", d, (int)r, (int)nl); for (auto &c : s.pc) fprintf(stderr, "  pc %.300s\n", Z3_ast_to_string(Z, ((BVN *)c.p)->a)); if (extra) fprintf(stderr, "  extra %.3000s\n", Z3_ast_to_string(Z, extra)); }
  if (r == Z3_L_TRUE) ST.qsat++; else if (r == Z3_L_FALSE) ST.qunsat++; else ST.qunk++;
  return r;
}
static void addPC(State &s, Z3_ast a, bool nl = false) { s.pc.push_back(IP<Node>(new BVN(a, 1, true))); if (nl) s.nonlin = true; }
static bool modelTrue(State &s, Z3_ast c, bool &val) {
  if (!s.model) return false;
  Z3_ast r; if (!Z3_model_eval(Z, s.model->m, c, true, &r)) return false;
  Z3_inc_ref(Z, r); Z3_lbool b = Z3_get_bool_value(Z, r); Z3_dec_ref(Z, r);
  if (b == Z3_L_UNDEF) return false; val = b == Z3_L_TRUE; return true;
}
static Z3_ast mkNot(Z3_ast a) { return Z3_mk_not(Z, a); }

// feasibility of both sides; returns bitmask 1: true side, 2: false side. models returned
static int feas(State &s, Z3_ast c, IP<Model> &mt, IP<Model> &mf) {
  Z3_inc_ref(Z, c); Z3_ast nc = mkNot(c); Z3_inc_ref(Z, nc);
  int r = 0; bool v;
  if (modelTrue(s, c, v)) { if (v) { r |= 1; mt = s.model; } else { r |= 2; mf = s.model; } }
  if (!(r & 1)) { Z3_lbool b = solve(s, c); if (b != Z3_L_FALSE) { r |= 1; mt = b == Z3_L_TRUE ? lastModel : IP<Model>(); if (b == Z3_L_UNDEF) incomplete.insert("solver returned unknown on a branch (both sides explored)"); } }
  if (!(r & 2)) { Z3_lbool b = solve(s, nc); if (b != Z3_L_FALSE) { r |= 2; mf = b == Z3_L_TRUE ? lastModel : IP<Model>(); if (b == Z3_L_UNDEF) incomplete.insert("solver returned unknown on a branch (both sides explored)"); } }
  Z3_dec_ref(Z, c); Z3_dec_ref(Z, nc);
  return r;
}

// ------------------------------------------------------------------ violations
static std::string jsonEsc(const std::string &s) { std::string r; for (char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch == '\n') r += "\\n"; else if ((unsigned char)ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; } return r; }
static std::string where(State &s) {
  std::string r;
  for (auto it = s.T().st.rbegin(); it != s.T().st.rend(); ++it) {
    FInfo *f = it->f; std::string l = demangle(f->name); size_t p = l.find('('); if (p != std::string::npos) l = l.substr(0, p);
    if (it->pc < (int)f->bb[it->bb].ins.size()) { const Instruction *I = f->bb[it->bb].ins[it->pc].I; if (I && I->getDebugLoc()) { l += "@" + I->getDebugLoc()->getFilename().str() + ":" + std::to_string(I->getDebugLoc()->getLine()); } }
    if (!r.empty()) r += " < "; r += l; if (r.size() > 700) break;
  }
  return r;
}
static std::string symValue(State &s, SymRec &r, Z3_model m, bool decimal) {
  if (!m) return "0";
  Z3_ast v; if (!Z3_model_eval(Z, m, r.a, true, &v)) return "0"; Z3_inc_ref(Z, v);
  std::string out = "0"; uint64_t c;
  if (r.sort == 0) { if (Z3_get_ast_kind(Z, v) == Z3_NUMERAL_AST && Z3_get_numeral_uint64(Z, v, &c)) out = std::to_string(c); }
  else {
    if (Z3_get_ast_kind(Z, v) == Z3_NUMERAL_AST) { double d = Z3_get_numeral_double(Z, v); char b[64]; snprintf(b, 64, "%.17g", d); out = b; }
    else if (Z3_is_algebraic_number(Z, v)) { Z3_ast lo = Z3_get_algebraic_number_lower(Z, v, 60); Z3_inc_ref(Z, lo); char b[64]; snprintf(b, 64, "%.17g", Z3_get_numeral_double(Z, lo)); out = b; Z3_dec_ref(Z, lo); }
  }
  Z3_dec_ref(Z, v); return out;
}
static std::string kindFilter;   // --kinds: only these kinds of violation are looked for
static bool wanted(const std::string &kind) { return kindFilter.empty() || kindFilter.find("," + kind + ",") != std::string::npos; }
static void record(State &s, const std::string &kind, const std::string &msg, IP<Model> m, bool unknown = false) {
  if (!wanted(kind)) return;
  std::string key = kind + "|" + msg;
  if (violKeys.count(key)) return;
  violKeys.insert(key);
  Viol v; v.kind = kind; v.msg = msg; v.where = where(s);
  std::string c = "{\n \"kind\": \"" + jsonEsc(kind) + "\",\n \"message\": \"" + jsonEsc(msg) + "\",\n \"where\": \"" + jsonEsc(v.where) + "\",\n \"rank\": " + std::to_string(s.P().rank) + ",\n \"symbols\": [\n";
  bool first = true;
  for (auto &r : s.syms) { if (!first) c += ",\n"; first = false; c += "  [\"" + jsonEsc(r.name) + "\", \"" + (r.sort ? "r" : "b") + "\", \"" + symValue(s, r, m ? m->m : nullptr, true) + "\"]"; }
  c += "\n ],\n \"notes\": [";
  first = true; for (auto &n : s.notes) { if (!first) c += ","; first = false; c += "\n  \"" + jsonEsc(n) + "\""; }
  c += "\n ]\n}\n";
  v.cex = c;
  viols.push_back(v);
}
// definite violation on the current path
static void fail(State &s, const std::string &kind, const std::string &msg) {
  if (!wanted(kind)) return;
  Z3_lbool b = solve(s, nullptr);
  if (b == Z3_L_FALSE) { ST.infeasible++; return; }
  if (b == Z3_L_UNDEF) { incomplete.insert("violation candidate on path with unknown feasibility: " + kind + " " + msg); return; }
  record(s, kind, msg, lastModel);
}

enum Res { R_NEXT, R_JUMPED, R_KILL, R_SWITCH };   // after executing one instruction

// ------------------------------------------------------------------ memory ops
static uint64_t allocObj(State &s, uint64_t size, uint8_t kind, bool init, const std::string &name = "") {
  Obj *o = new Obj; o->kind = kind; o->size = size; if (size > (1ull << 30)) unsup("huge allocation " + std::to_string(size));
  o->b.assign(size, 0); o->tag.assign(size, init ? T_CONC : T_UNINIT); o->name = name;
  uint32_t id = s.P().nextId++;
  if (id >= SHARED_ID) unsup("object ids exhausted");
  s.P().tab.slot(id) = IP<Obj>(o);
  return ((uint64_t)id) << IDSHIFT;
}
static Obj *objR(State &s, uint32_t id) { if (id & FUNC_ID) return nullptr; if (id & SHARED_ID) return s.shared.get(id & ~SHARED_ID); return s.P().tab.get(id); }
static Obj *objW(State &s, uint32_t id) { if (id & FUNC_ID) return nullptr; if (id & SHARED_ID) return s.shared.getW(id & ~SHARED_ID); return s.P().tab.getW(id); }
static bool freeObj(State &s, uint32_t id) { if (!s.P().tab.get(id)) return false; s.P().tab.slot(id) = IP<Obj>(); return true; }

struct MemErr { std::string m; };
static Obj *chk(State &s, uint64_t a, uint64_t n, bool wr) {
  uint32_t id = idOf(a); uint64_t off = a & OFFMASK;
  if (id == 0) throw MemErr{"null pointer dereference"};
  Obj *o = objR(s, id);
  if (!o) { 
    if (off > (OFFMASK - (1ull<<32))) throw MemErr{std::string(wr ? "write" : "read") + " before the start of an object"};
    throw MemErr{(id & FUNC_ID) ? "access to function memory" : (id < s.P().nextId ? std::string(wr ? "write" : "read") + " after free / after scope end" : "wild pointer dereference")}; }
  if (off > o->size || n > o->size - off) throw MemErr{std::string(wr ? "write" : "read") + " out of bounds (offset " + std::to_string((int64_t)(off > OFFMASK/2 ? off - OFFMASK - 1 : off)) + " size " + std::to_string(n) + " in object of " + std::to_string(o->size) + " bytes)"};
  if (wr && o->kind == OK_CONST) throw MemErr{"write to constant memory"};
  if (wr) o = objW(s, id);
  return o;
}
static Val extractByte(const Val &v, unsigned nbytes, unsigned i) {
  if (v.k == V_C) return Val::C((v.c >> (8 * i)) & 255);
  if (v.k == V_U) return v;
  if (v.k == V_B || (v.k == V_R && nbytes == 8)) { Val b; b.k = V_B; b.p = v.p; b.c = (v.k == V_B ? v.c : 0) + i; return b; }
  if (v.k == V_R) unsup("partial access to a real-sorted value");
  return fromBV(Z3_mk_extract(Z, 8 * i + 7, 8 * i, toBV(v, nbytes * 8)), 8);
}
static void setCell(Obj *o, uint32_t off, uint32_t n, const Val &v) { Cell c; c.v = v; c.n = n; o->cells[off] = c; for (uint32_t i = 0; i < n; i++) o->tag[off + i] = T_SYM; }
static void splitCell(Obj *o, uint32_t off) {   // break cell starting at off into byte cells
  Cell c = o->cells[off]; o->cells.erase(off);
  for (uint32_t i = 0; i < c.n; i++) { Val b = extractByte(c.v, c.n, i); if (b.k == V_C) { o->b[off + i] = (uint8_t)b.c; o->tag[off + i] = T_CONC; } else if (b.k == V_U) o->tag[off + i] = T_UNINIT; else setCell(o, off + i, 1, b); }
}
// remove symbolic cells overlapping [off, off+n)
static void clearCells(Obj *o, uint32_t off, uint32_t n) {
  if (o->cells.empty()) return;
  auto it = o->cells.lower_bound(off);
  if (it != o->cells.begin()) { auto p = std::prev(it); if (p->first + p->second.n > off) { splitCell(o, p->first); } }
  it = o->cells.lower_bound(off);
  while (it != o->cells.end() && it->first < off + n) {
    if (it->first + it->second.n > off + n) { uint32_t k = it->first; splitCell(o, k); it = o->cells.lower_bound(off); continue; }
    it = o->cells.erase(it);
  }
}
static void raceCheck(State &s, uint64_t a, unsigned n, bool wr, bool atomic);
static void storeN(State &s, uint64_t a, unsigned n, const Val &v, bool atomic = false) {
  Obj *o = chk(s, a, n, true); uint32_t off = a & OFFMASK;
  if (s.P().teamN > 1) raceCheck(s, a, n, true, atomic);
  clearCells(o, off, n);
  if (v.k == V_C) { for (unsigned i = 0; i < n; i++) { o->b[off + i] = i < 8 ? (uint8_t)(v.c >> (8 * i)) : 0; o->tag[off + i] = T_CONC; } }
  else if (v.k == V_U) { for (unsigned i = 0; i < n; i++) o->tag[off + i] = T_UNINIT; }
  else {
    Val w = v;
    if (v.k == V_S && v.bv()->isBool) w = mkS(toBV(v, 8 * n), 8 * n, false);
    setCell(o, off, n, w);
  }
}
static Val loadN(State &s, uint64_t a, unsigned n, bool atomic = false) {
  Obj *o = chk(s, a, n, false); uint32_t off = a & OFFMASK;
  if (s.P().teamN > 1) raceCheck(s, a, n, false, atomic);
  uint8_t all = 0; bool same = true; all = o->tag[off]; for (unsigned i = 1; i < n; i++) if (o->tag[off + i] != all) { same = false; break; }
  if (same && all == T_CONC) { uint64_t c = 0; for (unsigned i = 0; i < n && i < 8; i++) c |= (uint64_t)o->b[off + i] << (8 * i); return Val::C(c); }
  if (same && all == T_UNINIT) return Val();
  auto it = o->cells.find(off);
  if (it != o->cells.end() && it->second.n == n) return it->second.v;
  // general case: byte concat
  std::vector<Val> bs(n);
  for (unsigned i = 0; i < n; i++) {
    if (o->tag[off + i] == T_CONC) bs[i] = Val::C(o->b[off + i]);
    else if (o->tag[off + i] == T_UNINIT) return Val();
    else { auto j = o->cells.upper_bound(off + i); --j; bs[i] = extractByte(j->second.v, j->second.n, off + i - j->first); if (bs[i].k == V_U) return Val(); }
  }
  if (bs[0].k == V_B) {   // the bytes of one real, in order: the real itself (all eight) or a piece of it
    bool run = true; for (unsigned i = 1; i < n; i++) if (bs[i].k != V_B || bs[i].p.p != bs[0].p.p || bs[i].c != bs[0].c + i) run = false;
    if (run) { Val v = bs[0]; if (n == 8 && !v.c) v.k = V_R; return v; }
  }
  Z3_ast r = toBV(bs[n - 1], 8); Z3_inc_ref(Z, r);
  for (int i = (int)n - 2; i >= 0; i--) { Z3_ast q = Z3_mk_concat(Z, r, toBV(bs[i], 8)); Z3_inc_ref(Z, q); Z3_dec_ref(Z, r); r = q; }
  Val v = fromBV(r, 8 * n); Z3_dec_ref(Z, r); return v;
}
static void memCopy(State &s, uint64_t d, uint64_t src, uint64_t n) {
  if (!n) return;
  Obj *so = chk(s, src, n, false); IP<Obj> hold(so);
  uint32_t soff = src & OFFMASK;
  if (s.P().teamN > 1) for (uint64_t i = 0; i < n; i += 8) { raceCheck(s, src + i, n - i < 8 ? n - i : 8, false, false); raceCheck(s, d + i, n - i < 8 ? n - i : 8, true, false); }
  std::vector<uint8_t> tb(so->b.begin() + soff, so->b.begin() + soff + n), tt(so->tag.begin() + soff, so->tag.begin() + soff + n);
  std::vector<std::pair<uint32_t, Cell>> cs;
  if (!so->cells.empty()) {
    auto it = so->cells.lower_bound(soff);
    if (it != so->cells.begin()) { auto p = std::prev(it); if (p->first + p->second.n > soff) { for (uint32_t i = 0; i < p->second.n; i++) { uint32_t k = p->first + i; if (k >= soff && k < soff + n) { Cell c; c.v = extractByte(p->second.v, p->second.n, i); c.n = 1; cs.push_back({k - soff, c}); } } } }
    for (; it != so->cells.end() && it->first < soff + n; ++it) {
      if (it->first + it->second.n <= soff + n) cs.push_back({(uint32_t)(it->first - soff), it->second});
      else for (uint32_t i = 0; i < it->second.n; i++) { uint32_t k = it->first + i; if (k < soff + n) { Cell c; c.v = extractByte(it->second.v, it->second.n, i); c.n = 1; cs.push_back({k - soff, c}); } }
    }
  }
  Obj *o = chk(s, d, n, true); uint32_t off = d & OFFMASK;
  clearCells(o, off, n);
  std::copy(tb.begin(), tb.end(), o->b.begin() + off); std::copy(tt.begin(), tt.end(), o->tag.begin() + off);
  for (auto &c : cs) { if (c.second.v.k == V_C) { o->b[off + c.first] = (uint8_t)c.second.v.c; o->tag[off + c.first] = T_CONC; } else if (c.second.v.k == V_U) o->tag[off + c.first] = T_UNINIT; else setCell(o, off + c.first, c.second.n, c.second.v); }
}
static std::string readStr(State &s, uint64_t a) { std::string r; for (int i = 0; i < 4096; i++) { Val v = loadN(s, a + i, 1); if (v.k != V_C) { r += '?'; continue; } if (!v.c) break; r += (char)v.c; } return r; }

// ------------------------------------------------------------------ race detection (happens-before)
static RaceMem &rm(State &s) { Proc &p = s.P(); if (!p.race) p.race = IP<RaceMem>(new RaceMem); else if (p.race->rc > 1) { RaceMem *n = new RaceMem(*p.race.p); n->rc = 0; p.race = IP<RaceMem>(n); } return *p.race; }
struct RaceErr { std::string m; };
static void joinVC(VC &a, const VC &b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static bool hb(const VC &vc, int t, uint32_t c) { return (size_t)t < vc.size() && vc[t] >= c; }
static void raceCheck(State &s, uint64_t a, unsigned n, bool wr, bool atomic) {
  if (!O.race || (idOf(a) & SHARED_ID)) return;
  ST.raceChecks++;
  Thread &T = s.T(); RaceMem &r = rm(s);
  uint64_t lo = a & ~7ull, hi = (a + n - 1) & ~7ull;
  if (atomic && wr) { VC &sv = r.sync[a]; joinVC(T.vc, sv); }
  if (atomic && !wr) { VC &sv = r.sync[a]; joinVC(T.vc, sv); }
  bool sub = n < 8;
  for (uint64_t k = lo; k <= hi; k += 8) {
    // sub-word accesses tracked per byte, others per 8-byte word
    for (unsigned i = 0; i < (sub ? n : 1); i++) {
      uint64_t key = sub ? ((a + i) | (1ull << 63)) : k;
      Shadow &h = r.sh[key];
      if (h.wt >= 0 && h.wt != T.tid && !hb(T.vc, h.wt, h.wc) && !(atomic && h.watomic)) throw RaceErr{std::string("data race: ") + (wr ? "write" : "read") + " not ordered after a write by another thread"};
      if (wr) {
        for (auto &x : h.rd) if (x.first != T.tid && !hb(T.vc, x.first, x.second)) throw RaceErr{"data race: write not ordered after a read by another thread"};
        if (!atomic) for (auto &x : h.ard) if (x.first != T.tid && !hb(T.vc, x.first, x.second)) throw RaceErr{"data race: write not ordered after an atomic read by another thread"};
        h.rd.clear(); if (!atomic) h.ard.clear(); h.wt = T.tid; h.wc = T.vc[T.tid]; h.watomic = atomic;
      } else {
        auto &L = atomic ? h.ard : h.rd; bool f = false; for (auto &x : L) if (x.first == T.tid) { x.second = T.vc[T.tid]; f = true; } if (!f) L.push_back({T.tid, T.vc[T.tid]});
      }
    }
    if (sub) break;
  }
  if (atomic) { VC &sv = r.sync[a]; joinVC(sv, T.vc); T.vc[T.tid]++; }
}

// ------------------------------------------------------------------ globals
static Val constVal(const Constant *C);
static uint64_t constAddr(const Constant *C);
static void initConst(State &s, Obj *o, uint64_t off, const Constant *C) {
  Type *T = C->getType(); uint64_t sz = DL->getTypeStoreSize(T);
  if (isa<UndefValue>(C)) { for (uint64_t i = 0; i < sz; i++) { o->b[off + i] = 0; } return; }
  if (C->isNullValue() ) { return; }
  if (auto *CD = dyn_cast<ConstantDataSequential>(C)) { StringRef r = CD->getRawDataValues(); memcpy(&o->b[off], r.data(), r.size()); return; }
  if (auto *CS = dyn_cast<ConstantStruct>(C)) { const StructLayout *SL = DL->getStructLayout(CS->getType()); for (unsigned i = 0; i < CS->getNumOperands(); i++) initConst(s, o, off + SL->getElementOffset(i), CS->getOperand(i)); return; }
  if (auto *CA = dyn_cast<ConstantArray>(C)) { uint64_t es = DL->getTypeAllocSize(CA->getType()->getElementType()); for (unsigned i = 0; i < CA->getNumOperands(); i++) initConst(s, o, off + i * es, CA->getOperand(i)); return; }
  if (auto *CV = dyn_cast<ConstantVector>(C)) { uint64_t es = DL->getTypeAllocSize(CV->getType()->getElementType()); for (unsigned i = 0; i < CV->getNumOperands(); i++) initConst(s, o, off + i * es, CV->getOperand(i)); return; }
  Val v = constVal(C); for (unsigned i = 0; i < sz; i++) o->b[off + i] = i < 8 ? (uint8_t)(v.c >> (8 * i)) : 0;
}
static uint64_t constAddr(const Constant *C) {
  if (auto *F = dyn_cast<Function>(C)) return addrOfFn(const_cast<Function *>(F));
  if (auto *GA = dyn_cast<GlobalAlias>(C)) return constAddr(GA->getAliasee());
  if (auto *G = dyn_cast<GlobalVariable>(C)) { auto it = gaddr.find(G); if (it == gaddr.end()) unsup("global without address " + G->getName().str()); return it->second; }
  Val v = constVal(C); return v.c;
}
static Val constVal(const Constant *C) {
  Type *T = C->getType();
  if (auto *ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() > 64) { if (ci->getValue().getActiveBits() > 64) { return mkS(Z3_mk_numeral(Z, llvm::toString(ci->getValue(), 10, false).c_str(), bvSort(ci->getBitWidth())), ci->getBitWidth(), false); } } return Val::C(ci->getValue().extractBitsAsZExtValue(std::min(64u, ci->getBitWidth()), 0)); }
  if (auto *cf = dyn_cast<ConstantFP>(C)) return Val::C(cf->getValueAPF().bitcastToAPInt().extractBitsAsZExtValue(std::min(64u, cf->getValueAPF().bitcastToAPInt().getBitWidth()), 0));
  if (isa<ConstantPointerNull>(C)) return Val::C(0);
  if (isa<UndefValue>(C)) { if (T->isAggregateType() || T->isVectorTy()) { Val v; v.k = V_A; AggN *a = new AggN; unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements(); a->v.resize(n); v.p = IP<Node>(a); return v; } return Val(); }
  if (isa<GlobalValue>(C)) return Val::C(constAddr(C));
  if (T->isAggregateType() || T->isVectorTy()) {
    Val v; v.k = V_A; AggN *a = new AggN; unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
    for (unsigned i = 0; i < n; i++) a->v.push_back(constVal(C->getAggregateElement(i))); v.p = IP<Node>(a); return v;
  }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    switch (CE->getOpcode()) {
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constVal(CE->getOperand(0));
    case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) unsup("const gep"); return Val::C(constVal(CE->getOperand(0)).c + off.getSExtValue()); }
    case Instruction::Sub: return Val::C(constVal(CE->getOperand(0)).c - constVal(CE->getOperand(1)).c);
    case Instruction::Add: return Val::C(constVal(CE->getOperand(0)).c + constVal(CE->getOperand(1)).c);
    case Instruction::Trunc: return Val::C(maskw(constVal(CE->getOperand(0)).c, CE->getType()->getIntegerBitWidth()));
    case Instruction::ICmp: { uint64_t a = constVal(CE->getOperand(0)).c, b = constVal(CE->getOperand(1)).c; switch (CE->getPredicate()) { case CmpInst::ICMP_EQ: return Val::C(a == b); case CmpInst::ICMP_NE: return Val::C(a != b); default: unsup("const icmp"); } }
    default: unsup(std::string("constant expression ") + CE->getOpcodeName());
    }
  }
  unsup("constant kind");
}

#include "exec.inc"
