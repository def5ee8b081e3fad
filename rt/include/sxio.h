// force-included: maps stdio file functions to the in-memory file system
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
struct SxFILE;
extern "C++" {
FILE *sx_fopen(const char *n, const char *m); int sx_fclose(FILE *f); size_t sx_fread(void *p, size_t s, size_t n, FILE *f); size_t sx_fwrite(const void *p, size_t s, size_t n, FILE *f);
int sx_fseek(FILE *f, long o, int w); long sx_ftell(FILE *f); int sx_fprintf(FILE *f, const char *fmt, ...); int sx_feof(FILE *f); int sx_ferror(FILE *f); void sx_rewind(FILE *f); int sx_fgetc(FILE *f); int sx_fflush(FILE *f); int sx_remove(const char *n); char *sx_fgets(char *s, int n, FILE *f); int sx_fputs(const char *s, FILE *f);
}
namespace std { using ::sx_fopen; using ::sx_fclose; using ::sx_fread; using ::sx_fwrite; using ::sx_fseek; using ::sx_ftell; using ::sx_fprintf; using ::sx_feof; using ::sx_ferror; using ::sx_rewind; using ::sx_fgetc; using ::sx_fflush; using ::sx_remove; using ::sx_fgets; using ::sx_fputs; }
#define fopen sx_fopen
#define fclose sx_fclose
#define fread sx_fread
#define fwrite sx_fwrite
#define fseek sx_fseek
#define fseeko sx_fseek
#define ftell sx_ftell
#define ftello sx_ftell
#define fprintf sx_fprintf
#define feof sx_feof
#define ferror sx_ferror
#define rewind sx_rewind
#define fgetc sx_fgetc
#define fgets sx_fgets
#define fputs sx_fputs
#define fflush sx_fflush
