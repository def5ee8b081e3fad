// C19: input deck reader on arbitrary text. '?' in a template stands for any byte, '@' for any character a value may be made of; the oracle is a separate parser of the same bytes.
#include "sx.h"
#include <string>
#include <vector>
#include <cstring>
#include <cmath>
#include "KeyValueReader.hh"
using CKG_Utils::KeyValueReader; typedef std::string Str; typedef int64_t L;
static L P(const char *n, L d) { return sx_param(n, d); }
static int rng(unsigned char c, int a, int b) { return (c >= a) & (c <= b); }
static int tokCh(unsigned char c) { return rng(c, 'a', 'z') | rng(c, 'A', 'Z') | rng(c, '0', '9') | (c == '+') | (c == '-') | (c == '_') | (c == '.'); }
static unsigned char up(unsigned char c) { return c - 32 * rng(c, 'a', 'z'); }
static unsigned char swapc(unsigned char c) { return c + 32 * rng(c, 'A', 'Z') - 32 * rng(c, 'a', 'z'); }
static bool sameNoCase(const Str &a, const Str &b) { if (a.size() != b.size()) return false; int d = 0; for (size_t i = 0; i < a.size(); i++) d |= up(a[i]) ^ up(b[i]); return d == 0; }
static bool sameStr(const Str &a, const Str &b) { if (a.size() != b.size()) return false; int d = 0; for (size_t i = 0; i < a.size(); i++) d |= (unsigned char)a[i] ^ (unsigned char)b[i]; return d == 0; }
static Str swapAll(Str s) { for (size_t i = 0; i < s.size(); i++) s[i] = (char)swapc(s[i]); return s; }
static const char *TEXT[] = {"?????", "a b\n????", "??key??val??", "a b\n? c\nD e", "k1 v1 ??#?\n\tk2\tv2??\n", "x\n????", "a b\r\n???", "A?b c\na?B d\n", "?", "", "k v#?\n??\n#k w\n", "??????", "key ????? x", "k v\n???????", "K? v\nk? w\nk? u"};
static const char *VALUE[] = {"@@@", "-@@@", "21474836@@", "-21474836@@", "1@@@", "@.@", "0@@", "@00000000@", "+@@", "1e@@", "-.@@", "@.@e@", "@@.@", "1.5@-@", "@@@@", "t@@e", "fals@", "@RuE", "12345678901234567890@", "@@@@@", "1E@@@"};
static Str expand(const char *t) { Str s; for (; *t; t++) { if (*t == '?') s += (char)sx_u8("byte"); else if (*t == '@') { uint8_t c = sx_u8("char"); sx_assume(tokCh(c)); s += (char)c; } else s += *t; } return s; }
struct Line { Str k, v; };
// 0 blank, 1 pair, 2 malformed
static int oracleLine(const Str &l, Str &k, Str &v) {
  size_t n = 0; while (n < l.size() && l[n] != '#') n++; size_t p = 0; auto ws = [&]() { size_t q = p; while (p < n && ((l[p] == ' ') | (l[p] == '\t'))) p++; return p - q; }; auto tok = [&]() { size_t q = p; while (p < n && tokCh(l[p])) p++; return l.substr(q, p - q); };
  ws(); if (p == n) return 0; k = tok(); if (k.empty() || !ws()) return 2; v = tok(); if (v.empty()) return 2; ws(); return p == n ? 1 : 2; }
static bool oracle(const Str &t, std::vector<Line> &out) {
  bool ok = true; size_t p = 0; while (p < t.size()) { size_t q = p; while (q < t.size() && t[q] != '\n') q++; Str k, v; int r = oracleLine(t.substr(p, q - p), k, v); p = q + 1;
    if (r == 2) ok = false; if (r == 1) { bool dup = false; for (auto &x : out) if (sameNoCase(x.k, k)) dup = true; if (dup) ok = false; else { Line x; x.k = k; x.v = v; out.push_back(x); } } }
  return ok; }
// decimal integer in the range of int: 0 no, 1 yes
static int oracleInt(const Str &t, L &val) { size_t i = 0; bool neg = false; if (i < t.size() && ((t[i] == '+') | (t[i] == '-'))) { neg = t[i] == '-'; i++; } if (i == t.size()) return 0; uint64_t v = 0; int ok = 1; for (; i < t.size(); i++) { unsigned char c = t[i]; ok &= rng(c, '0', '9'); if (v <= 99999999999ull) v = v * 10 + (unsigned char)(c - '0'); } if (!ok) return 0; val = neg ? -(L)v : (L)v; return (val >= -2147483648ll) & (val <= 2147483647ll); }
// decimal number: 0 not a number, 1 number, 2 spelled otherwise (hexadecimal, inf, nan) or far outside the range: no claim
static int oracleDouble(const Str &t, double &val) {
  size_t i = 0, n = t.size(); bool neg = false; if (i < n && ((t[i] == '+') | (t[i] == '-'))) { neg = sx_conc(t[i] == '-'); i++; }
  auto low = [&](size_t j) { return j < n ? (t[j] | 32) : 0; }; if ((low(i) == 'i' && low(i + 1) == 'n' && low(i + 2) == 'f') || (low(i) == 'n' && low(i + 1) == 'a' && low(i + 2) == 'n')) return 2; if (i + 1 < n && t[i] == '0' && low(i + 1) == 'x') return 2;
  uint64_t m = 0; int ex = 0, digits = 0; bool dot = false; for (; i < n; i++) { if (rng(t[i], '0', '9')) { m = m * 10 + sx_conc((unsigned)(t[i] - '0')); digits++; ex -= dot; } else if (t[i] == '.' && !dot) dot = true; else break; }
  if (!digits) return 0; if (i < n) { if (low(i) != 'e') return 0; i++; bool en = false; if (i < n && ((t[i] == '+') | (t[i] == '-'))) { en = t[i] == '-'; i++; } if (i == n) return 0; int x = 0; for (; i < n; i++) { if (!rng(t[i], '0', '9')) return 0; x = x * 10 + (t[i] - '0'); } x = (int)sx_conc(x); ex += en ? -x : x; }
  double v = (double)sx_conc(m); if (ex > 250 || ex < -250) return 2; v = ex >= 0 ? v * std::pow(10.0, ex) : v / std::pow(10.0, -ex); val = neg ? -v : v; return 1; }
template<class F> static int thrown(F f) { try { f(); } catch (KeyValueReader::Exception e) { return e; } catch (...) { return 100; } return -1; }
extern "C" int sx_main() {
  int kind = P("kind", 0);
  if (kind == 0) {
    Str t = expand(TEXT[P("text", 0)]); sx_file_write("deck", t.data(), t.size()); std::vector<Line> want; bool ok = oracle(t, want);
    KeyValueReader r; int e = thrown([&] { r.readFile("deck"); });
    if (!ok) { sx_assert(e == KeyValueReader::ExceptionParseFileError, "a malformed line or duplicate key is not reported"); sx_reach("malformed"); }
    else { sx_assert(e == -1, "a well-formed deck is refused"); sx_reach("well-formed");
      for (auto &x : want) { Str v = "junk"; e = thrown([&] { r.getString(x.k, v); }); sx_assert(e == -1 && sameStr(v, x.v), "the value is not the one written"); v = "junk"; e = thrown([&] { r.getString(swapAll(x.k), v); }); sx_assert(e == -1 && sameStr(v, x.v), "the key is not found irrespective of case"); sx_reach("value found"); }
      const char *other[] = {"zz", "", "ke", "keyy"}; for (const char *o : other) { bool have = false; for (auto &x : want) if (sameNoCase(x.k, o)) have = true; if (have) continue; Str v = "junk"; e = thrown([&] { r.getString(o, v); }); sx_assert(e == KeyValueReader::ExceptionKeyNotFound, "a missing key is not reported"); sx_assert(v.empty(), "a value is returned for a missing key"); } }
  } else if (kind == 4) { // misuse
    KeyValueReader r; int k = sx_choose(4, "use"); Str v; if (k == 0) { sx_assert(thrown([&] { r.getString("a", v); }) == KeyValueReader::ExceptionFileNotRead, "reading a value before a file"); sx_assert(thrown([&] { r.print(); }) == KeyValueReader::ExceptionFileNotRead, "printing before a file"); }
    else if (k == 1) sx_assert(thrown([&] { r.readFile("absent"); }) == KeyValueReader::ExceptionOpenFileError, "a missing file is not reported");
    else { Str t = "a b\n", u = "a c\nd e\n"; sx_file_write("deck", t.data(), t.size()); sx_file_write("deck2", u.data(), u.size()); sx_assert(thrown([&] { r.readFile("deck"); }) == -1, "a well-formed deck is refused");
      if (k == 2) { sx_assert(thrown([&] { r.readFile("deck2"); }) == KeyValueReader::ExceptionAlreadyReadAFile, "a second file is not reported"); sx_assert(thrown([&] { r.getString("a", v); }) == -1 && v == "b", "value after a refused second file"); }
      else { r.reset(); sx_assert(thrown([&] { r.getString("a", v); }) == KeyValueReader::ExceptionFileNotRead, "reading a value after reset"); sx_assert(thrown([&] { r.readFile("deck2"); }) == -1, "reading after reset"); sx_assert(thrown([&] { r.getString("a", v); }) == -1 && v == "c", "value after reset"); } }
  } else {
    Str v = expand(VALUE[P("value", 0)]), t = "# deck\n  Key " + v + " # c\nother 7\n"; sx_file_write("deck", t.data(), t.size()); KeyValueReader r; sx_assert(thrown([&] { r.readFile("deck"); }) == -1, "a well-formed deck is refused");
    if (kind == 1) { L w = 0; int ok = oracleInt(v, w); int got = 12345; int e = thrown([&] { r.getInt("KEY", got); });
      if (ok) { sx_assert(e == -1, "an integer is refused"); sx_assert(got == w, "the integer read is not the one written"); sx_reach("value found"); } else { sx_assert(e == KeyValueReader::ExceptionStringConversionError, "a value that is not an integer in range is turned into one"); sx_assert(got == 0, "a value is returned with the error"); sx_reach("refused"); } }
    if (kind == 2 || kind == 5) { double w = 0, got = 12345; float gf = 12345; int ok = oracleDouble(v, w); int e = kind == 2 ? thrown([&] { r.getDouble("KEY", got); }) : thrown([&] { r.getFloat("KEY", gf); }); if (kind == 5) { got = gf; if (ok == 1 && (std::fabs(w) > 1e37 || (w != 0 && std::fabs(w) < 1e-36))) ok = 2; }
      if (ok == 1) { sx_assert(e == -1, "a number is refused"); double tol = kind == 5 ? 1e-6 : 1e-14, d = got - w; sx_assert((d < 0 ? -d : d) <= tol * (w < 0 ? -w : w), "the number read is not the one written"); sx_reach("value found"); } else if (ok == 0) { sx_assert(e == KeyValueReader::ExceptionStringConversionError, "a value that is not a number is turned into one"); sx_assert(got == 0, "a value is returned with the error"); sx_reach("refused"); } }
    if (kind == 3) { bool isT = sameNoCase(v, "true"), isF = sameNoCase(v, "false"), got = true; int e = thrown([&] { r.getBool("KEY", got); });
      if (isT || isF) { sx_assert(e == -1 && got == isT, "the boolean read is not the one written"); sx_reach("value found"); } else { sx_assert(e == KeyValueReader::ExceptionStringConversionError && !got, "a value that is not a boolean is turned into one"); sx_reach("refused"); } }
  }
  sx_reach("done"); return 0;
}
