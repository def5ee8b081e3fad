// force-included in the runs that decide what the programs print: printf and puts are recorded as a stream of words and values
#pragma once
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <iostream>
struct SxTok { int kind; uint64_t u; bool neg; double d; };   // 0 word (hash), 1 integer, 2 real with its format (hash)
extern std::vector<SxTok> *sx_print_log;
inline uint64_t sx_hash(const char *p, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)p[i]) * 1099511628211ull; return h; }
inline void sx_tok(int k, uint64_t u, bool neg, double d) { if (sx_print_log) { SxTok t; t.kind = k; t.u = u; t.neg = neg; t.d = d; sx_print_log->push_back(t); } }
inline void sx_words(const std::string &s) { size_t i = 0; while (i < s.size()) { size_t j = i; while (j < s.size() && s[j] != ' ' && s[j] != '\n' && s[j] != '\t') j++; if (j > i) sx_tok(0, sx_hash(s.data() + i, j - i), false, 0); i = j + 1; } }
inline void sx_pval(std::string &pend, const std::string &sp, int len, char c, double v) { sx_words(pend); pend.clear(); sx_tok(2, sx_hash(sp.data(), sp.size()), false, v); }
inline void sx_pval(std::string &pend, const std::string &, int, char, const char *v) { pend += v; }
inline void sx_pval(std::string &pend, const std::string &s, int l, char c, char *v) { sx_pval(pend, s, l, c, (const char *)v); }
template <class T> void sx_pval(std::string &pend, const std::string &, int len, char c, T v0) { uint64_t v = (uint64_t)v0; if (c == 'c') { pend += (char)v; return; } sx_words(pend); pend.clear(); bool sg = c == 'd' || c == 'i';
  if (len == 0) v = sg ? (uint64_t)(int64_t)(int32_t)v : (uint64_t)(uint32_t)v; sx_tok(1, v, sg & (bool)(v >> 63), 0); }
inline const char *sx_lit(std::string &pend, const char *f) { while (*f && !(f[0] == '%' && f[1] != '%')) { pend += *f; if (*f == '%') f++; f++; } return f; }
inline void sx_pf(std::string &pend, const char *f) { sx_lit(pend, f); sx_words(pend); }
template <class A, class... R> void sx_pf(std::string &pend, const char *f, A a, R... r) {
  f = sx_lit(pend, f); if (!*f) { sx_words(pend); return; } f++; std::string sp; int len = 0;
  while (strchr("-+ #0123456789.", *f)) sp += *f++; while (strchr("hlqjzt", *f)) { if (*f != 'h') len = 1; f++; } char c = *f++; sp += c; sx_pval(pend, sp, len, c, a); sx_pf(pend, f, r...); }
template <class... A> int sx_printf(const char *f, A... a) { if (sx_print_log) { std::string p; sx_pf(p, f, a...); } return 1; }
inline int sx_puts(const char *s) { if (sx_print_log) sx_words(s); return 1; }
inline int sx_putchar(int c) { (void)c; return c; }
template <class... A> int sx_fprintf(FILE *fp, const char *f, A... a) { return fp == stdout ? sx_printf(f, a...) : 1; }
inline int sx_fputs(const char *s, FILE *fp) { return fp == stdout ? sx_puts(s) : 1; }
struct SxOut { bool fixed; };
static SxOut sx_cout = {false};
inline SxOut &operator<<(SxOut &o, const char *s) { if (sx_print_log) sx_words(s); return o; }
inline SxOut &operator<<(SxOut &o, const std::string &s) { if (sx_print_log) sx_words(s); return o; }
inline SxOut &operator<<(SxOut &o, char c) { char b[2] = {c, 0}; return o << (const char *)b; }
inline SxOut &operator<<(SxOut &o, uint64_t v) { sx_tok(1, v, false, 0); return o; }
inline SxOut &operator<<(SxOut &o, unsigned v) { return o << (uint64_t)v; }
inline SxOut &operator<<(SxOut &o, unsigned long long v) { return o << (uint64_t)v; }
inline SxOut &operator<<(SxOut &o, long v) { sx_tok(1, (uint64_t)v, v < 0, 0); return o; }
inline SxOut &operator<<(SxOut &o, long long v) { return o << (long)v; }
inline SxOut &operator<<(SxOut &o, int v) { return o << (long)v; }
inline SxOut &operator<<(SxOut &o, double v) { sx_tok(2, sx_hash(o.fixed ? "f" : "g", 1), false, v); return o; }
inline SxOut &operator<<(SxOut &o, std::ostream &(*)(std::ostream &)) { return o; }
inline SxOut &operator<<(SxOut &o, std::ios_base &(*f)(std::ios_base &)) { if (f == (std::ios_base & (*)(std::ios_base &)) std::fixed) o.fixed = true; return o; }
namespace std { using ::sx_fprintf; using ::sx_fputs; using ::sx_cout; using ::sx_printf; using ::sx_puts; using ::sx_putchar; }
#define printf sx_printf
#define puts sx_puts
#define putchar sx_putchar
#define fprintf sx_fprintf
#define fputs sx_fputs
#define cout sx_cout
