// Run-time environment model: in-memory file system, and (for the symbolic engine) the parts of
// libc / libstdc++ that live in binary libraries.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <map>
#include <list>
#undef fopen
struct FS { SxFile f[24]; int n; };
static FS *fs;
static uint64_t fsCap;
extern uint64_t sxfs_cap; uint64_t sxfs_cap = 32768;
void sx_fs_reset() { if (!fs) { fs = (FS *)sx_shared_alloc(sizeof(FS)); memset(fs, 0, sizeof(FS)); } for (int i = 0; i < fs->n; i++) fs->f[i].exists = 0; }
SxFile *sx_fs_find(const char *name, bool create) {
  if (!fs) sx_fs_reset();
  for (int i = 0; i < fs->n; i++) if (!strcmp(fs->f[i].name, name)) { SxFile *f = &fs->f[i]; if (f->exists) return f; if (!create) return 0; f->exists = 1; f->size = 0; f->written = 0; return f; }
  if (!create) return 0;
  if (fs->n >= 24) { sx_fail("model", "too many files"); return 0; }
  SxFile *f = &fs->f[fs->n]; strncpy(f->name, name, 95); f->name[95] = 0; f->cap = sxfs_cap; f->data = (unsigned char *)sx_shared_alloc(sxfs_cap); memset(f->data, 0, sxfs_cap); f->exists = 1; f->size = 0; f->written = 0; fs->n++;
  return f;
}
void sx_file_write(const char *name, const void *p, uint64_t n) { SxFile *f = sx_fs_find(name, true); if (n > f->cap) { sx_fail("model", "file larger than the model allows"); return; } if (n) memcpy(f->data, p, n); f->size = n; }
struct Hnd { SxFile *f; long pos; int eof, err, mode; };
static Hnd *H(FILE *f) { return (Hnd *)f; }
static int openHandles = 0;
int sx_open_handles() { return openHandles; }
FILE *sx_fopen(const char *n, const char *m) {
  SxFile *f = 0; bool plus = strchr(m, '+') != 0;
  if (m[0] == 'r') { f = sx_fs_find(n, false); if (!f) return 0; }
  else if (m[0] == 'w') { f = sx_fs_find(n, true); f->size = 0; }
  else f = sx_fs_find(n, true);
  Hnd *h = (Hnd *)malloc(sizeof(Hnd)); h->f = f; h->pos = m[0] == 'a' ? (long)f->size : 0; h->eof = h->err = 0; h->mode = (m[0] == 'r' ? 1 : 2) | (plus ? 3 : 0); openHandles++;
  return (FILE *)h;
}
int sx_fclose(FILE *f) { openHandles--; free(H(f)); return 0; }
size_t sx_fread(void *p, size_t s, size_t n, FILE *f) {
  Hnd *h = H(f); if (!(h->mode & 1)) { h->err = 1; return 0; } if (s == 0 || n == 0) return 0;
  uint64_t av = (long)h->f->size > h->pos ? h->f->size - h->pos : 0; uint64_t want;
  if (n > 0x40000000ull / s) want = 0x40000000ull; else want = s * n;
  uint64_t k = want; if (k > av) { k = av; h->eof = 1; }
  if (k) memcpy(p, h->f->data + h->pos, k); h->pos += k; return k / s;
}
size_t sx_fwrite(const void *p, size_t s, size_t n, FILE *f) {
  Hnd *h = H(f); if (!(h->mode & 2)) { h->err = 1; return 0; } if (s == 0 || n == 0) return 0; uint64_t k = s * n;
  if (h->pos + k > h->f->cap) { sx_fail("model", "file larger than the model allows"); return 0; }
  memcpy(h->f->data + h->pos, p, k); h->pos += k; if ((uint64_t)h->pos > h->f->size) h->f->size = h->pos; h->f->written += k; return n;
}
int sx_fseek(FILE *f, long o, int w) { Hnd *h = H(f); long b = w == SEEK_SET ? 0 : w == SEEK_CUR ? h->pos : (long)h->f->size; if (b + o < 0) return -1; h->pos = b + o; h->eof = 0; return 0; }
long sx_ftell(FILE *f) { return H(f)->pos; }
int sx_feof(FILE *f) { return H(f)->eof; }
int sx_ferror(FILE *f) { return H(f)->err; }
void sx_rewind(FILE *f) { H(f)->pos = 0; H(f)->eof = 0; }
int sx_fgetc(FILE *f) { Hnd *h = H(f); if (h->pos >= (long)h->f->size) { h->eof = 1; return -1; } return h->f->data[h->pos++]; }
int sx_fflush(FILE *) { return 0; }
int sx_fprintf(FILE *, const char *, ...) { return 0; }
int sx_fputs(const char *, FILE *) { return 0; }
int sx_remove(const char *n) { SxFile *s = sx_fs_find(n, false); if (!s) return -1; s->exists = 0; return 0; }
char *sx_fgets(char *s, int n, FILE *f) { int i = 0; while (i < n - 1) { int c = sx_fgetc(f); if (c < 0) break; s[i++] = c; if (c == '\n') break; } if (!i) return 0; s[i] = 0; return s; }

#ifdef SX_ENGINE
#include <algorithm>
#include <stdexcept>
#include <new>
// ---------------------------------------------------------------- libstdc++
template class std::basic_string<char>;
struct SxStdExc { int kind; };
namespace std {
void __throw_length_error(const char *) { throw std::length_error("x"); }
void __throw_logic_error(const char *) { throw std::logic_error("x"); }
void __throw_out_of_range(const char *) { throw std::out_of_range("x"); }
void __throw_out_of_range_fmt(const char *, ...) { throw std::out_of_range("x"); }
void __throw_invalid_argument(const char *) { throw std::invalid_argument("x"); }
void __throw_bad_alloc() { throw std::bad_alloc(); }
void __throw_bad_array_new_length() { throw std::bad_array_new_length(); }
void __throw_bad_function_call() { throw std::runtime_error("x"); }
void __throw_runtime_error(const char *) { throw std::runtime_error("x"); }
void __throw_bad_cast() { throw std::bad_cast(); }
// exception classes without text
logic_error::logic_error(const char *) {} logic_error::logic_error(const string &) {} logic_error::~logic_error() {} const char *logic_error::what() const noexcept { return "logic_error"; }
length_error::length_error(const char *s) : logic_error(s) {} length_error::~length_error() {}
out_of_range::out_of_range(const char *s) : logic_error(s) {} out_of_range::~out_of_range() {}
out_of_range::out_of_range(const string &s) : logic_error(s) {}
invalid_argument::invalid_argument(const char *s) : logic_error(s) {} invalid_argument::~invalid_argument() {}
invalid_argument::invalid_argument(const string &s) : logic_error(s) {}
runtime_error::runtime_error(const char *) {} runtime_error::runtime_error(const string &) {} runtime_error::~runtime_error() {} const char *runtime_error::what() const noexcept { return "runtime_error"; }
exception::~exception() {} const char *exception::what() const noexcept { return "exception"; }
bad_alloc::~bad_alloc() {} const char *bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_array_new_length::~bad_array_new_length() {} const char *bad_array_new_length::what() const noexcept { return "x"; }
bad_cast::~bad_cast() {} const char *bad_cast::what() const noexcept { return "x"; }
__cow_string::__cow_string() {} __cow_string::~__cow_string() {}
// red-black tree
typedef _Rb_tree_node_base NB;
static NB *inc(NB *x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { NB *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static NB *dec(NB *x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { NB *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { NB *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
NB *_Rb_tree_increment(NB *x) throw() { return inc(x); }
const NB *_Rb_tree_increment(const NB *x) throw() { return inc(const_cast<NB *>(x)); }
NB *_Rb_tree_decrement(NB *x) throw() { return dec(x); }
const NB *_Rb_tree_decrement(const NB *x) throw() { return dec(const_cast<NB *>(x)); }
static void rotL(NB *x, NB *&root) { NB *y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotR(NB *x, NB *&root) { NB *y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, NB *x, NB *p, NB &h) throw() {
  NB *&root = h._M_parent; x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) { NB *const g = x->_M_parent->_M_parent;
    if (x->_M_parent == g->_M_left) { NB *const y = g->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotR(g, root); } }
    else { NB *const y = g->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotL(g, root); } } }
  root->_M_color = _S_black;
}
NB *_Rb_tree_rebalance_for_erase(NB *const z, NB &h) throw() {
  NB *&root = h._M_parent, *&lm = h._M_left, *&rm = h._M_right; NB *y = z, *x = 0, *xp = 0;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z; }
  else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { NB *m = x; while (m->_M_left) m = m->_M_left; lm = m; } }
    if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { NB *m = x; while (m->_M_right) m = m->_M_right; rm = m; } } }
  if (y->_M_color != _S_red) { while (x != root && (!x || x->_M_color == _S_black))
      if (x == xp->_M_left) { NB *w = xp->_M_right; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break; } }
      else { NB *w = xp->_M_left; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break; } }
    if (x) x->_M_color = _S_black; }
  return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
}
}
#include <unordered_map>
namespace std { namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t p[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033, 28411, 57557, 116731}; for (size_t i = 0; i < 16; i++) if (p[i] >= n) { _M_next_resize = p[i]; return p[i]; } return n | 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize || ne + ni > nb) { size_t m = ne + ni + 1; if (m < nb * 2) m = nb * 2; return make_pair(true, _M_next_bkt(m)); } _M_next_resize = nb; return make_pair(false, (size_t)0); }
} }
#endif
// rand(): a fixed generator, the same in the engine and in native replays
static unsigned sxrand_state = 1;
extern "C" void srand(unsigned s) { sxrand_state = s; }
extern "C" int rand() { sxrand_state = sxrand_state * 1103515245u + 12345u; return (sxrand_state >> 16) & 0x7fff; }
