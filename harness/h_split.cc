// C23: how the directions are split over threads: the index function for arbitrary counts, the sets the scheduled sweep hands to its schedules, the threads the graph traversal really uses.
#include "GraphTraverser.cc"
#include "common.hh"
#include "SweepSchedule.hh"
#include "Sweeper.hh"
template<class A> static auto indexOf(A a, int) -> decltype((U)angleGroupIndex(a)) { return angleGroupIndex(a); }   // may not exist under this name
template<class A> static U indexOf(A, long) { return NONE; }
static std::vector<std::vector<UINT>> *sets;
SweepSchedule::SweepSchedule(const std::vector<UINT> &angles, const UINT, const UINT, const UINT) { sets->push_back(angles); }
class Rec : public TraverseData { public: std::vector<U> thr; Rec() : thr(g_nCells * g_nAngles, NONE) {}
  const char *getData(UINT, UINT, UINT) { return (const char *)&thr[0]; } void setSideData(UINT, UINT, const char *) {} UINT getPriority(UINT, UINT) { return 0; }
  void update(UINT c, UINT a, UINT[4], BoundaryType[4]) { thr[c * g_nAngles + a] = omp_get_thread_num(); } };
static void checkSplit(const std::vector<U> &g, U n, U T) { // group of each direction
  U cnt[16] = {0}; for (U a = 0; a < n; a++) { sx_assert(g[a] < T, "a direction belongs to no thread"); cnt[g[a]]++; if (a) sx_assert(g[a] >= g[a - 1], "the directions of a thread are not contiguous"); }
  U lo = NONE, hi = 0; for (U t = 0; t < T; t++) { if (cnt[t] < lo) lo = cnt[t]; if (cnt[t] > hi) hi = cnt[t]; } sx_assert(hi - lo <= 1, "the numbers of directions of two threads differ by more than one"); }
extern "C" int sx_main() {
  int kind = P("kind", 0); sxmpi_init();
  if (kind == 0) { U T = P("t", 0) ? P("t", 0) : 1 + sx_choose(P("maxt", 8), "threads"), n = sx_u64("directions"), a = sx_u64("direction"); sx_assume(n >= 1); sx_assume(n <= (U)P("maxn", 1000000)); sx_assume(a < n); g_nAngles = n; g_nThreads = g_nAngleGroups = T; g_snOrder = 2;
    U g = indexOf(a, 0); if (g == NONE && P("optional", 1)) { sx_reach("done"); return 0; }
    U q = n / T, r = n % T, q1 = q + (r != 0); sx_assert(g < T, "a direction belongs to no thread");
    if (a + 1 < n) { U h = indexOf(a + 1, 0); sx_assert(h >= g, "the directions of a thread are not contiguous"); if (n >= T) sx_assert(h <= g + 1, "a thread has no direction although there are enough"); }
    if (a == 0 && n >= T) sx_assert(g == 0, "the first thread has no direction"); if (a + 1 == n && n >= T) sx_assert(g == T - 1, "the last thread has no direction");
    if (a + q1 < n) sx_assert(indexOf(a + q1, 0) != g, "a thread has too many directions");
    if (q && (a == 0 || indexOf(a - 1, 0) != g)) { sx_assert(a + q <= n, "a thread has too few directions"); sx_assert(indexOf(a + q - 1, 0) == g, "a thread has too few directions"); }
    sx_reach("index function");
  } else if (kind == 1) { U T = 1 + sx_choose(P("maxt", 6), "groups"), n = sx_u64("directions"); sx_assume(n >= 1); sx_assume(n <= (U)P("maxn", 24)); n = sx_conc(n); g_nCells = 0; g_nGroups = 1; g_nAngles = n; g_nThreads = g_nAngleGroups = T; sets = new std::vector<std::vector<UINT>>;
    Sweeper *s = new Sweeper(); (void)s; sx_assert(sets->size() == T, "not one schedule per thread"); std::vector<U> g(n, NONE);
    for (U t = 0; t < T; t++) for (UINT a : (*sets)[t]) { sx_assert(a < n, "a direction out of range is scheduled"); sx_assert(g[a] == NONE, "a direction is scheduled by two threads"); g[a] = t; }
    checkSplit(g, n, T); for (U a = 0; a < n; a++) { U h = indexOf((UINT)a, 0); if (h != NONE) sx_assert(h == g[a], "the scheduled sweep and the graph traversal split the directions differently"); }
    sx_reach("scheduled sweep");
  } else { U T = 1 + sx_choose(P("maxt", 4), "threads"), n = 1 + sx_choose(P("maxn", 8), "directions"); MeshDef m; meshDef(P("mesh", 1), m); SerialMesh s; toSerial(m, s, 1); splitAndWrite(s, std::vector<U>(m.nt), 1, "m.pmesh"); basicGlobals(T, 1, 8); if (n > 8) { delete g_quadrature; g_quadrature = new Quadrature(4); } g_nAngles = n;
    sx_spawn(1); int argc = 0; MPI_Init(&argc, 0); g_tychoMesh = new TychoMesh("m.pmesh"); Rec r; GraphTraverser G(P("backward", 0) ? Direction_Backward : Direction_Forward, false, 8); G.traverse(1 + sx_choose(2, "limit") * 100, r);
    for (U c = 0; c < g_nCells; c++) { std::vector<U> g(n); for (U a = 0; a < n; a++) { g[a] = r.thr[c * n + a]; sx_assert(g[a] == r.thr[a], "two cells of one direction are computed by different threads"); } checkSplit(g, n, T); }
    sx_reach("graph traversal"); }
  sx_reach("done"); return 0;
}
