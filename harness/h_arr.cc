// C24: the array classes. Index tuples are arbitrary; addresses the accessors return are compared.
#include "common.hh"
static int K; static U D[4]; static int N; // class, extents, number of indices
template<class Q> static auto setSides(Q *q, U n, int) -> decltype((void)q->c_nSides, true) { q->c_nSides = n; return true; }
template<class Q> static bool setSides(Q *, U, long) { return false; }
template<class Q> static auto shape1(Q *q, double *v, int) -> decltype((void)q->c_v, (void)q->c_xlen, true) { q->c_xlen = D[0]; q->c_v = v; return true; }
template<class Q> static bool shape1(Q *, double *, long) { return false; }
template<class Q> static auto shape2(Q *q, double *v, int) -> decltype((void)q->c_ylen, shape1(q, v, 0)) { q->c_ylen = D[1]; return shape1(q, v, 0); }
template<class Q> static bool shape2(Q *, double *, long) { return false; }
template<class Q> static auto shape3(Q *q, double *v, int) -> decltype((void)q->c_zlen, shape2(q, v, 0)) { q->c_zlen = D[2]; return shape2(q, v, 0); }
template<class Q> static bool shape3(Q *, double *, long) { return false; }
template<class Q> static auto shapeB(Q *q, double *v, int) -> decltype((void)q->c_data, (void)q->c_ng, (void)q->c_ns, true) { q->c_ng = D[0]; q->c_nv = D[1]; q->c_na = D[2]; q->c_ns = D[3]; q->c_data = v; return true; }
template<class Q> static bool shapeB(Q *, double *, long) { return false; }
static Mat1<double> *m1; static Mat2<double> *m2; static Mat3<double> *m3; static PsiData *ps; static PsiBoundData *pb; static PhiData *ph;
static double *at(const U *i, bool cst = false) {
  switch (K) { case 0: return cst ? (double *)&(*(const Mat1<double> *)m1)(i[0]) : &(*m1)(i[0]); case 1: return cst ? (double *)&(*(const Mat2<double> *)m2)(i[0], i[1]) : &(*m2)(i[0], i[1]); case 2: return cst ? (double *)&(*(const Mat3<double> *)m3)(i[0], i[1], i[2]) : &(*m3)(i[0], i[1], i[2]);
    case 3: return cst ? (double *)&(*(const PsiData *)ps)(i[0], i[1], i[2], i[3]) : &(*ps)(i[0], i[1], i[2], i[3]); case 4: return cst ? (double *)&(*(const PsiBoundData *)pb)(i[0], i[1], i[2], i[3]) : &(*pb)(i[0], i[1], i[2], i[3]); default: return cst ? (double *)&(*(const PhiData *)ph)(i[0], i[1], i[2]) : &(*ph)(i[0], i[1], i[2]); } }
static double *raw(U i, bool cst = false) { switch (K) { case 0: return cst ? (double *)&(*(const Mat1<double> *)m1)[i] : &(*m1)[i]; case 1: return cst ? (double *)&(*(const Mat2<double> *)m2)[i] : &(*m2)[i]; case 2: return cst ? (double *)&(*(const Mat3<double> *)m3)[i] : &(*m3)[i]; case 3: return cst ? (double *)&(*(const PsiData *)ps)[i] : &(*ps)[i]; case 4: return cst ? (double *)&(*(const PsiBoundData *)pb)[i] : &(*pb)[i]; default: return cst ? (double *)&(*(const PhiData *)ph)[i] : &(*ph)[i]; } }
static U size() { switch (K) { case 0: return m1->size(); case 1: return m2->size(); case 2: return m3->size(); case 3: return ps->size(); case 4: return pb->size(); default: return ph->size(); } }
static void tuple(U *i, bool in) { int ok = 1; for (int k = 0; k < N; k++) { i[k] = sx_u64("index"); ok &= i[k] < D[k]; } sx_assume(ok == in); }
extern "C" int sx_main() {
  K = P("class", 0); int kind = P("kind", 0), ext = P("ext", 4); static const int NI[] = {1, 2, 3, 4, 4, 3}; N = NI[K]; U total = 1; if (kind != 3) for (int k = 0; k < N; k++) { D[k] = (K > 2 && k == 1) ? (K == 4 ? 3 : 4) : P("zero", 0) + sx_choose(ext, "extent") + (P("zero", 0) ? -1 : 1); total *= D[k]; }
  double *mine = 0; int how = 0; sxmpi_init();
  if (kind == 3) { // huge arrays whose storage is never touched: offsets beyond 32 bits
    static const U BIG[] = {2, 1 << 16, 1 << 20}; total = 1; int big = 0; for (int k = 0; k < N; k++) { int b = (K > 2 && k == 1) ? -1 : (int)sx_choose(3, "extent"); D[k] = b < 0 ? (K == 4 ? 3 : 4) : BIG[b]; total *= D[k]; } sx_assume(total < (1ull << 58)); sx_assume(total > (1ull << 33) || N == 1);
    g_nGroups = D[0]; g_nAngles = D[2]; mine = new double[8]; bool ok = true; switch (K) { case 0: m1 = new Mat1<double>(); ok = shape1(m1, mine, 0); break; case 1: m2 = new Mat2<double>(); ok = shape2(m2, mine, 0); break; case 2: m3 = new Mat3<double>(); ok = shape3(m3, mine, 0); break; case 3: g_nCells = D[3]; ps = new PsiData(mine); break; case 5: g_nCells = D[2]; ph = new PhiData(mine); break;
      default: { U d3 = D[3], d0 = D[0], d2 = D[2]; g_nGroups = 1; g_nAngles = 1; g_tychoMesh = (TychoMesh *)calloc(1, sizeof(TychoMesh)); setSides(g_tychoMesh, 1, 0); pb = new PsiBoundData(); g_nGroups = d0; g_nAngles = d2; (void)d3; ok = shapeB(pb, mine, 0); } }
    if (!ok) { sx_reach("done"); return 0; } kind = 0;
  } else { how = sx_choose(2, "how"); g_nGroups = D[0]; g_nAngles = D[2]; // how: constructed or resized / own or borrowed storage
  if (K == 0) { m1 = how ? new Mat1<double>(7) : new Mat1<double>(D[0]); if (how) { (*m1)[5] = 3; m1->resize(D[0]); } }
  if (K == 1) { m2 = how ? new Mat2<double>() : new Mat2<double>(D[0], D[1]); if (how) { if (kind == 2) { m2->resize(2, 9); (*m2)(1, 1) = 3; } m2->resize(D[0], D[1]); } }
  if (K == 2) { m3 = how ? new Mat3<double>() : new Mat3<double>(D[0], D[1], D[2]); if (how) { if (kind == 2) { m3->resize(2, 9, 3); (*m3)(1, 1, 2) = 3; } m3->resize(D[0], D[1], D[2]); } }
  if (K == 3) { g_nCells = D[3]; if (how) { mine = new double[total]; for (U i = 0; i < total; i++) mine[i] = 7; } ps = how ? new PsiData(mine) : new PsiData(); }
  if (K == 5) { g_nCells = D[2]; if (how) { mine = new double[total]; for (U i = 0; i < total; i++) mine[i] = 7; } ph = how ? new PhiData(mine) : new PhiData(); }
  if (K == 4) { g_tychoMesh = (TychoMesh *)calloc(1, sizeof(TychoMesh)); if (!setSides(g_tychoMesh, D[3], 0)) { sx_reach("done"); return 0; } pb = new PsiBoundData(); }
  }
  sx_assert(size() == total, "number of elements");
  if (kind == 0) { U i[4], j[4]; tuple(i, true); tuple(j, true); double *p = at(i), *q = at(j); int same = 1; for (int k = 0; k < N; k++) same &= i[k] == j[k];
    double *base = raw(0); U x = (U)((char *)p - (char *)base), y = (U)((char *)q - (char *)base); sx_assert((x % 8 == 0) & (x < 8 * total), "an element lies outside the storage"); sx_assert((x != y) | same, "two index tuples share an element");
    sx_assert(at(i, true) == p, "reading and writing access different elements"); sx_assert(raw(x / 8) == p, "the linear index is not the position in the storage"); sx_assert(raw(x / 8, true) == p, "reading and writing by linear index differ"); if (K > 2) { int step = i[0] + 1 == j[0]; for (int k = 1; k < N; k++) step &= i[k] == j[k]; sx_assert((y == x + 8) | !step, "the energy group does not vary fastest"); }
    if (mine) sx_assert(base == mine, "borrowed storage is not used"); sx_reach("two elements");
  } else if (kind == 1) { U i[4]; int lin = sx_choose(2, "linear"); U k = 0; if (lin) { k = sx_u64("index"); sx_assume(k >= total); } else tuple(i, false); sx_set("abort_ok", 1); double *p = lin ? raw(k, how) : at(i, how); sx_set("abort_ok", 0); sx_assert(p == 0 && false, "an index out of range is not reported");
  } else { for (U i = 0; i < total; i++) sx_assert(sx_same(*raw(i), mine ? 7.0 : 0.0), "initial content"); double v = sx_opaque("value"); std::vector<double> d(total); for (double &x : d) x = sx_opaque("value");
    if (K == 1) { m2->setAll(v); for (U i = 0; i < total; i++) sx_assert(sx_same(*raw(i), v), "set to one value"); m2->setData(d.data()); for (U i = 0; i < total; i++) sx_assert(sx_same(*raw(i), d[i]), "copied content"); }
    if (K >= 3) { K == 3 ? ps->setToValue(v) : K == 4 ? pb->setToValue(v) : ph->setToValue(v); for (U i = 0; i < total; i++) sx_assert(sx_same(*raw(i), v), "set to one value"); }
    if (total) { double *p = raw(0); switch (K) { case 0: delete m1; break; case 1: delete m2; break; case 2: delete m3; break; case 3: delete ps; break; case 4: delete pb; break; default: delete ph; } sx_assert(sx_mem_live(p, 8) == (mine != 0), mine ? "borrowed storage was freed" : "own storage is not freed"); } sx_reach("content"); }
  sx_reach("done"); return 0;
}
