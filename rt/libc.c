// The part of libc the symbolic engine has to interpret (plain C, no headers).
typedef unsigned long size_t; typedef long time_t;
extern unsigned long sx_conc(unsigned long); extern void sx_fail(const char *, const char *); extern size_t strlen(const char *);
// ---------------------------------------------------------------- libc
static int sx_errno_v; int *__errno_location(void) { return &sx_errno_v; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isblank(int c) { return c == ' ' || c == 9; }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return isprint(c) && c != ' ' && !isalnum(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static unsigned short ctb[384]; static const unsigned short *ctbp; static int ctInit;
const unsigned short **__ctype_b_loc() { if (!ctInit) { ctInit = 1; ctbp = ctb + 128; for (int c = 0; c < 128; c++) { unsigned short m = 0; if (isupper(c)) m |= 1 << 8; if (islower(c)) m |= 1 << 9; if (isalpha(c)) m |= 1 << 10; if (isdigit(c)) m |= 1 << 11; if (isxdigit(c)) m |= 1 << 12; if (isspace(c)) m |= 1 << 13; if (isprint(c)) m |= 1 << 14; if (isprint(c) && c != ' ') m |= 1 << 15; if (isblank(c)) m |= 1 << 0; if (c < 32 || c == 127) m |= 1 << 1; if (ispunct(c)) m |= 1 << 2; if (isalnum(c)) m |= 1 << 3; ctb[128 + c] = m; } } return &ctbp; }
static int ctu[384], ctl[384]; static const int *ctup, *ctlp;
const int **__ctype_toupper_loc() { if (!ctup) { for (int c = -128; c < 256; c++) ctu[128 + c] = toupper(c); ctup = ctu + 128; } return &ctup; }
const int **__ctype_tolower_loc() { if (!ctlp) { for (int c = -128; c < 256; c++) ctl[128 + c] = tolower(c); ctlp = ctl + 128; } return &ctlp; }
static long sx_strtol(const char *s, char **e, int base, int uns) {
  const char *p = s; while (isspace((unsigned char)*p)) p++; int neg = 0; if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; } else if (base == 0) base = p[0] == '0' ? 8 : 10;
  unsigned long v = 0; int any = 0, over = 0; unsigned long lim = uns ? ~0ul : neg ? 1ul << 63 : ~(1ul << 63);
  for (;; p++) { int d; unsigned char c = *p; if (isdigit(c)) d = c - '0'; else if (isalpha(c)) d = toupper(c) - 'A' + 10; else break; if (d >= base) break; any = 1; if (v > (lim - d) / base) over = 1; else v = v * base + d; }
  if (e) *e = (char *)(any ? p : s); if (over) { *__errno_location() = 34; return uns ? (long)~0ul : neg ? (long)(1ul << 63) : (long)~(1ul << 63); } return neg ? -(long)v : (long)v;
}
long strtol(const char *s, char **e, int b) { return sx_strtol(s, e, b, 0); }
long long strtoll(const char *s, char **e, int b) { return sx_strtol(s, e, b, 0); }
unsigned long strtoul(const char *s, char **e, int b) { return sx_strtol(s, e, b, 1); }
unsigned long long strtoull(const char *s, char **e, int b) { return sx_strtol(s, e, b, 1); }
long __isoc23_strtol(const char *s, char **e, int b) { return sx_strtol(s, e, b, 0); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return sx_strtol(s, e, b, 0); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return sx_strtol(s, e, b, 1); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return sx_strtol(s, e, b, 1); }
int atoi(const char *s) { return (int)sx_strtol(s, 0, 10, 0); }
long atol(const char *s) { return sx_strtol(s, 0, 10, 0); }
// decimal parser: exact for up to 15 significant digits and |exponent| <= 22 (then it equals the correctly rounded value); records the scanned length exactly
double strtod(const char *s, char **e) {
  const char *p = s; while (isspace((unsigned char)*p)) p++; int neg = 0; if (*p == 43 || *p == 45) { neg = (int)sx_conc(*p == 45); p++; }
  if ((p[0] | 32) == 'i' && (p[1] | 32) == 'n' && (p[2] | 32) == 'f') { p += 3; if ((p[0] | 32) == 'i' && (p[1] | 32) == 'n' && (p[2] | 32) == 'i' && (p[3] | 32) == 't' && (p[4] | 32) == 'y') p += 5; if (e) *e = (char *)p; return neg ? -__builtin_inf() : __builtin_inf(); }
  if ((p[0] | 32) == 'n' && (p[1] | 32) == 'a' && (p[2] | 32) == 'n') { p += 3; if (e) *e = (char *)p; return __builtin_nan(""); }
  if (p[0] == '0' && (p[1] | 32) == 'x' && (isxdigit((unsigned char)p[2]) || (p[2] == '.' && isxdigit((unsigned char)p[3])))) { // hexadecimal
    p += 2; unsigned long m = 0; int ex = 0; for (; isxdigit((unsigned char)*p); p++) m = m * 16 + (isdigit((unsigned char)*p) ? *p - '0' : (*p | 32) - 'a' + 10); if (*p == '.') { p++; for (; isxdigit((unsigned char)*p); p++) { m = m * 16 + (isdigit((unsigned char)*p) ? *p - '0' : (*p | 32) - 'a' + 10); ex -= 4; } }
    if ((*p | 32) == 'p') { const char *q = p + 1; int en = 0; if (*q == '+' || *q == '-') { en = *q == '-'; q++; } if (isdigit((unsigned char)*q)) { int x = 0; for (; isdigit((unsigned char)*q); q++) x = x * 10 + (*q - '0'); ex += en ? -x : x; p = q; } }
    double d = (double)sx_conc(m); while (ex > 0) { d *= 2; ex--; } while (ex < 0) { d /= 2; ex++; } if (e) *e = (char *)p; return neg ? -d : d; }
  unsigned long m = 0; int ex = 0; int any = 0; for (; isdigit((unsigned char)*p); p++) { m = m * 10 + sx_conc((unsigned)(*p - '0')); any = 1; }
  if (*p == '.') { const char *q = p + 1; for (; isdigit((unsigned char)*q); q++) { m = m * 10 + sx_conc((unsigned)(*q - '0')); ex--; any = 1; } if (any) p = q; }
  if (!any) { if (e) *e = (char *)s; return 0; }
  if ((*p | 32) == 'e') { const char *q = p + 1; int en = 0; if (*q == '+' || *q == '-') { en = *q == '-'; q++; } if (isdigit((unsigned char)*q)) { int x = 0; for (; isdigit((unsigned char)*q); q++) { if (x < 10000) x = x * 10 + (*q - '0'); } x = (int)sx_conc(x); ex += en ? -x : x; p = q; } }
  double d = (double)sx_conc(m); static const double p10[] = {1, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
  if (d != 0) { while (ex > 0 && d < 1e308) { int k = ex > 22 ? 22 : ex; d *= p10[k]; ex -= k; } while (ex < 0 && d > 0) { int k = -ex > 22 ? 22 : -ex; d /= p10[k]; ex += k; } }
  if (d == __builtin_inf()) *__errno_location() = 34; else if (m != 0 && d < 2.2250738585072014e-308) *__errno_location() = 34;
  if (e) *e = (char *)p; return neg ? -d : d;
}
float strtof(const char *s, char **e) { return (float)strtod(s, e); }
double atof(const char *s) { return strtod(s, 0); }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { char *r = d; while (*d) d++; while ((*d++ = *s++)) {} return r; }
char *strncat(char *d, const char *s, size_t n) { char *r = d; while (*d) d++; while (n-- && *s) *d++ = *s++; *d = 0; return r; }
int strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) break; } return 0; }
int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = toupper((unsigned char)*a), y = toupper((unsigned char)*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { int x = toupper((unsigned char)a[i]), y = toupper((unsigned char)b[i]); if (x != y) return x < y ? -1 : 1; if (!x) break; } return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { char *r = 0; for (;; s++) { if (*s == (char)c) r = (char *)s; if (!*s) return r; } }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (; ; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return 0; } }
int abs(int x) { return x < 0 ? -x : x; }
int gethostname(char *s, size_t n) { if (n) { s[0] = 'h'; if (n > 1) s[1] = 0; } return 0; }
double omp_get_wtime() { return 0; }
time_t time(time_t *t) { if (t) *t = 0; return 0; }
void _ZNSt8ios_base4InitC1Ev(void *) {} void _ZNSt8ios_base4InitC2Ev(void *) {} void _ZNSt8ios_base4InitD1Ev(void *) {}
long _ZNSt6chrono3_V212system_clock3nowEv() { return 0; } long _ZNSt6chrono3_V212steady_clock3nowEv() { return 0; }
int __cxa_guard_acquire(char *g) { return !*g; } void __cxa_guard_release(char *g) { *g = 1; } void __cxa_guard_abort(char *) {}
void __cxa_pure_virtual() { sx_fail("memory", "pure virtual function called"); }
size_t _ZSt11_Hash_bytesPKvmm(const unsigned char *p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 1099511628211ull + p[i]; return h; }

