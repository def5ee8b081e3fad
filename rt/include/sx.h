// Interface between harnesses and the symbolic executor (or the native replay runtime).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t sx_u64(const char *name);          // arbitrary 64-bit value
uint32_t sx_u32(const char *name);
uint8_t sx_u8(const char *name);
bool sx_bool(const char *name);
double sx_real(const char *name);           // arbitrary real number (exact real arithmetic)
double sx_real_in(const char *name, double lo, double hi);   // arbitrary real of a closed interval
double sx_opaque(const char *name);         // arbitrary 64-bit pattern carried in a double
uint64_t sx_choose(uint64_t n, const char *name);   // nondeterministic choice 0..n-1 (schedule, configuration)
uint64_t sx_conc(uint64_t v);               // split into one path per feasible value
void sx_assume(bool c);
void sx_assert(bool c, const char *msg);
void sx_assert_near(double a, double b, double tol, const char *msg);
bool sx_same(double a, double b);           // same bits / same real
bool sx_same_bytes(const void *a, const void *b, uint64_t n);
void sx_fail(const char *kind, const char *msg);
void sx_reach(const char *tag);             // reachability witness
void sx_note(const char *txt);
void sx_note_u(const char *txt, uint64_t v);
int  sx_spawn(int nranks);                  // like fork: continue as rank 0..n-1 with separate memory
void sx_join(void);                         // all ranks end except rank 0, which continues
int  sx_rank(void);
int  sx_nranks(void);
int  sx_live_ranks(void);
void sx_yield(void);                        // let other ranks / threads run
void sx_progress(void);                     // the communication state changed
void *sx_shared_alloc(uint64_t n);          // memory shared by all ranks
void sx_threads(int n);                     // number of OpenMP threads
bool sx_mem_live(const void *p, uint64_t n);
void sx_set(const char *flag, int64_t v);
int64_t sx_get(const char *flag);
int64_t sx_param(const char *name, int64_t dflt);
bool sx_is_symbolic(uint64_t v);
void sx_end(void);
uint64_t sx_ite(bool c, uint64_t a, uint64_t b);
}
// in-memory file system shared by all ranks (FILE*, ifstream and MPI-IO are mapped to it)
struct SxFile { char name[96]; uint64_t size, cap, written; int exists; unsigned char *data; };
SxFile *sx_fs_find(const char *name, bool create);
void sx_fs_reset();
void sx_file_write(const char *name, const void *p, uint64_t n);
