// C20: the real main() up to the solve, with arbitrary option texts and numbers in the input deck. The solve of every sweeper is replaced by one that records which sweeper runs.
#include "common.hh"
#include "Sweeper.hh"
#include "SweeperTraverse.hh"
#include "SweeperPBJ.hh"
#include "SweeperSchur.hh"
#include "Problem.hh"
#include "Util.hh"
int tycho_main(int argc, char *argv[]);
static int ran = -1, solves = 0; static double st1, ss1, st2, ss2;
static void rec(int k) { ran = k; solves++; }
void Sweeper::solve() { rec(100); }
void SweeperTraverse::solve() { rec(2); }
void SweeperPBJ::solve() { rec(3); }
void SweeperPBJOuter::solve() { rec(4); }
void SweeperSchur::solve() { rec(5); }
void SweeperSchurOuter::solve() { rec(6); }
void SweeperPBJSI::solve() { rec(7); }
void SweeperSchurKrylov::solve() { rec(8); }
namespace Problem { void createCrossSections(std::vector<double> &t, std::vector<double> &s, double a, double b, double c, double d) { st1 = a; ss1 = b; st2 = c; ss2 = d; t.assign(g_nCells, 1.0); s.assign(g_nCells, 0.0); } double hatL2Error(const PsiData &) { return 0; } void getSource(PsiData &) {} }
namespace Util { double diffBetweenGroups(const PsiData &) { return 0; } }
typedef std::string Str;
static const char *SW[] = {"OriginalTycho1", "OriginalTycho2", "TraverseGraph", "PBJ", "PBJOuter", "Schur", "SchurOuter", "PBJSI", "SchurKrylov"};
static const SweepType SWE[] = {SweepType_OriginalTycho1, SweepType_OriginalTycho2, SweepType_TraverseGraph, SweepType_PBJ, SweepType_PBJOuter, SweepType_Schur, SweepType_SchurOuter, SweepType_PBJSI, SweepType_SchurKrylov};
static const char *GE[] = {"Original", "NoPivot", "CramerGlu", "CramerIntel"}; static const GaussElim GEE[] = {GaussElim_Original, GaussElim_NoPivot, GaussElim_CramerGlu, GaussElim_CramerIntel};
static const char *MT[] = {"TychoTwoSided", "CapsaicinTwoSided"}; static const MPIType MTE[] = {MPIType_TychoTwoSided, MPIType_CapsaicinTwoSided};
static int rng(unsigned char c, int a, int b) { return (c >= a) & (c <= b); }
static int tokCh(unsigned char c) { return rng(c, 'a', 'z') | rng(c, 'A', 'Z') | rng(c, '0', '9') | (c == '+') | (c == '-') | (c == '_') | (c == '.'); }
static unsigned char up(unsigned char c) { return c - 32 * rng(c, 'a', 'z'); }
static bool same(const Str &a, const char *b, bool nocase) { size_t n = strlen(b); if (a.size() != n) return false; int d = 0; for (size_t i = 0; i < n; i++) d |= nocase ? up(a[i]) ^ up(b[i]) : (unsigned char)a[i] ^ (unsigned char)b[i]; return d == 0; }
struct KV { Str k, v; };
static std::vector<KV> deck; static KV &at(const Str &k) { for (auto &x : deck) if (x.k == k) return x; sx_fail("model", "key"); return deck[0]; }
static void add(const char *k, const char *v) { KV x; x.k = k; x.v = v; deck.push_back(x); }
static const char *INTK[] = {"snOrder", "iterMax", "maxCellsPerStep", "intraAngleP", "interAngleP", "nGroups", "DD_IterMax"};
extern "C" int sx_main() {
  int kind = P("kind", 0); sxmpi_init(); MeshDef m; meshDef(0, m); SerialMesh s; toSerial(m, s, 1); splitAndWrite(s, std::vector<U>(1), 1, "m.pmesh");
  add("snOrder", "4"); add("iterMax", "11"); add("errMax", "0.125"); add("maxCellsPerStep", "13"); add("intraAngleP", "3"); add("interAngleP", "2"); add("nGroups", "1"); add("sigmaT1", "2.5"); add("sigmaS1", "0.75"); add("sigmaT2", "8.0"); add("sigmaS2", "0.0625");
  add("OutputFile", "false"); add("OutputFilename", "out.psi"); add("DD_IterMax", "17"); add("DD_ErrMax", "0.03125"); add("SourceIteration", "true"); add("MPIType", "TychoTwoSided"); add("SweepType", "TraverseGraph"); add("GaussElim", "NoPivot");
  int sweep = 2, elim = 1, mpi = 0; U iv[7] = {4, 11, 13, 3, 2, 1, 17}; bool of = false, si = true; Str name = "out.psi"; bool stop = false; // stop: the deck must be refused
  double dv[6] = {0.125, 2.5, 0.75, 8.0, 0.0625, 0.03125}; static const char *DK[] = {"errMax", "sigmaT1", "sigmaS1", "sigmaT2", "sigmaS2", "DD_ErrMax"};
  bool noclaim = false;
  if (kind == 0) { // documented options, all combinations
    sweep = sx_choose(9, "SweepType"); elim = sx_choose(4, "GaussElim"); mpi = sx_choose(2, "MPIType"); at("SweepType").v = SW[sweep]; at("GaussElim").v = GE[elim]; at("MPIType").v = MT[mpi]; of = sx_choose(2, "OutputFile"); si = sx_choose(2, "SourceIteration"); at("OutputFile").v = of ? "true" : "false"; at("SourceIteration").v = si ? "true" : "false";
  } else if (kind == 1) { // an arbitrary text for one option
    static const char *K[] = {"SweepType", "GaussElim", "MPIType"}; int w = P("option", 0); int len = P("len", 0) ? P("len", 0) : 1 + sx_choose(P("maxlen", 18), "length"); Str v; for (int i = 0; i < len; i++) { uint8_t c = sx_u8("char"); sx_assume(tokCh(c)); v += (char)c; } at(K[w]).v = v;
    stop = true; int n = w == 0 ? 9 : w == 1 ? 4 : 2; for (int i = 0; i < n; i++) { const char *nm = w == 0 ? SW[i] : w == 1 ? GE[i] : MT[i]; if (same(v, nm, false)) { stop = false; (w == 0 ? sweep : w == 1 ? elim : mpi) = i; break; } if (same(v, nm, true)) { stop = false; noclaim = true; (w == 0 ? sweep : w == 1 ? elim : mpi) = i; break; } }
  } else if (kind == 2) { // an arbitrary number for one key
    int w = P("key", 0); int dig = P("digits", 2); Str v; U x = 0; if (w == 0) { x = sx_choose(P("max", 40), "snOrder") + 1; v = std::to_string(x); } else for (int i = 0; i < dig; i++) { uint8_t c = sx_u8("digit"); sx_assume(rng(c, '0', '9')); v += (char)c; x = x * 10 + (c - '0'); } sx_assume(x >= 1); if (P("max", 0)) sx_assume(x <= (U)P("max", 0)); at(INTK[w]).v = v; iv[w] = x; if (w == 0) stop = (x % 2 == 1) | (x > 30);
  } else if (kind == 3) { // numbers with fractions
    int w = sx_choose(6, "key"); uint8_t a = sx_u8("digit"), b = sx_u8("digit"); sx_assume(rng(a, '0', '9') & rng(b, '0', '9')); a = sx_conc(a); b = sx_conc(b); Str v; v += (char)a; v += '.'; v += (char)b; v += "e-2"; at(DK[w]).v = v; dv[w] = ((a - '0') + (b - '0') / 10.0) / 100.0;
  } else if (kind == 4) { // a missing key
    int w = sx_choose(deck.size(), "missing"); deck.erase(deck.begin() + w); stop = true;
  } else if (kind == 5) { // file name, order and case of the keys
    name = ""; for (int i = 0; i < 4; i++) { uint8_t c = sx_u8("char"); sx_assume(tokCh(c)); name += (char)c; } at("OutputFilename").v = name; std::vector<KV> d2; U k = sx_choose(deck.size(), "rotate"); for (size_t i = 0; i < deck.size(); i++) d2.push_back(deck[(deck.size() - i + k) % deck.size()]); deck = d2; for (auto &x : deck) for (size_t i = 0; i < x.k.size(); i++) x.k[i] = (char)up(x.k[i]);
  } else if (kind == 6) { int w = sx_choose(2, "flag"); int len = 4 + sx_choose(2, "length"); Str v; for (int i = 0; i < len; i++) { uint8_t c = sx_u8("char"); sx_assume(tokCh(c)); v += (char)c; } at(w ? "OutputFile" : "SourceIteration").v = v; bool val = sx_conc(same(v, "true", true)); stop = !val && !same(v, "false", true); (w ? of : si) = val; }
  Str t; for (auto &x : deck) t += x.k + " " + x.v + "\n"; sx_file_write("in.deck", t.data(), t.size()); sx_threads(1);
  char a0[] = "sweep.x", a1[] = "m.pmesh", a2[] = "in.deck"; char *av[] = {a0, a1, a2, 0};
  if (stop || noclaim) sx_set("abort_ok", 1);
  int rc = -1; bool refused = false; try { rc = tycho_main(3, av); } catch (...) { refused = true; } sx_set("abort_ok", 0);
  if (refused) { sx_assert(stop || noclaim, "a valid deck is refused"); sx_reach("refused"); return 0; }
  sx_assert(!stop, "a deck with an unknown option, a missing key or a value of the wrong type is not refused"); sx_assert(rc == 0, "the program ended with an error");
  sx_assert(solves == 1 && ran == (sweep <= 1 ? 100 : sweep), "another sweep method runs than the deck names"); sx_assert(g_sweepType == SWE[sweep], "sweep type"); sx_assert(g_gaussElim == GEE[elim], "another elimination method is selected than the deck names"); sx_assert(g_mpiType == MTE[mpi], "another communication mode is selected than the deck names");
  sx_assert(g_snOrder == iv[0], "snOrder"); sx_assert(g_nAngles == 2 * iv[0] * iv[0], "number of directions"); sx_assert(g_iterMax == iv[1], "iterMax"); sx_assert(g_maxCellsPerStep == iv[2], "maxCellsPerStep"); sx_assert(g_intraAngleP == iv[3], "intraAngleP"); sx_assert(g_interAngleP == iv[4], "interAngleP"); sx_assert(g_nGroups == iv[5], "nGroups"); sx_assert(g_ddIterMax == iv[6], "DD_IterMax");
  double got[6] = {g_errMax, st1, ss1, st2, ss2, g_ddErrMax}; for (int i = 0; i < 6; i++) { double d = got[i] - dv[i]; sx_assert(d < 1e-12 && d > -1e-12, DK[i]); }
  sx_assert(g_outputFile == of, "OutputFile"); sx_assert(g_useSourceIteration == si, "SourceIteration"); sx_assert(g_outputFilename.size() == name.size() && sx_same_bytes(g_outputFilename.data(), name.data(), name.size()), "OutputFilename");
  of = sx_conc(of); if (kind != 5) sx_assert((sx_fs_find("out.psi", false) != 0) == of, of ? "no output file was written" : "an output file was written that the deck does not ask for");
  sx_reach("configured"); return 0;
}
