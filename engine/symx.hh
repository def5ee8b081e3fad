// symx - a small KLEE-class symbolic executor for LLVM IR.
// Core data structures.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <set>
#include <memory>
#include <functional>
#include <algorithm>
#include <chrono>
#include <z3.h>

typedef __float128 Q;

// ---------------------------------------------------------------- refcounting
template<class T> struct IP {
  T *p;
  IP() : p(nullptr) {}
  IP(T *q) : p(q) { if (p) ++p->rc; }
  IP(const IP &o) : p(o.p) { if (p) ++p->rc; }
  IP(IP &&o) noexcept : p(o.p) { o.p = nullptr; }
  template<class U> IP(const IP<U> &o) : p(o.p) { if (p) ++p->rc; }
  ~IP() { if (p && --p->rc == 0) T::destroy(p); }
  IP &operator=(const IP &o) { if (o.p) ++o.p->rc; T *q = p; p = o.p; if (q && --q->rc == 0) T::destroy(q); return *this; }
  IP &operator=(IP &&o) noexcept { if (this != &o) { T *q = p; p = o.p; o.p = nullptr; if (q && --q->rc == 0) T::destroy(q); } return *this; }
  T *operator->() const { return p; }
  T &operator*() const { return *p; }
  explicit operator bool() const { return p != nullptr; }
};

struct Node { int rc = 0; uint8_t t; Node(uint8_t t) : t(t) {} virtual ~Node() {} static void destroy(Node *n) { delete n; } };
enum { N_BV = 1, N_POLY = 2, N_AGG = 3 };

extern Z3_context Z;

struct BVN : Node {           // bit vector (w>=1) or Bool (isBool)
  Z3_ast a; unsigned w; bool isBool;
  BVN(Z3_ast x, unsigned w, bool b) : Node(N_BV), a(x), w(w), isBool(b) { Z3_inc_ref(Z, a); }
  ~BVN() { Z3_dec_ref(Z, a); }
};
struct Term { uint32_t m; Q c; };   // monomial id, coefficient
struct PolyN : Node {
  std::vector<Term> t;              // sorted by monomial id, no zero coefs
  Z3_ast cache = nullptr;
  PolyN() : Node(N_POLY) {}
  ~PolyN() { if (cache) Z3_dec_ref(Z, cache); }
};

// ---------------------------------------------------------------- values
enum { V_U = 0, V_C = 1, V_S = 2, V_R = 3, V_A = 4, V_B = 5 };   // V_B: some bytes of a real-sorted double (p: the real, c: index of the first byte)
struct Val {
  uint8_t k = V_U;
  uint64_t c = 0;
  IP<Node> p;
  Val() {}
  static Val C(uint64_t c) { Val v; v.k = V_C; v.c = c; return v; }
  bool conc() const { return k == V_C; }
  BVN *bv() const { return (BVN *)p.p; }
  PolyN *poly() const { return (PolyN *)p.p; }
  std::vector<Val> &agg() const;
};
struct AggN : Node { std::vector<Val> v; AggN() : Node(N_AGG) {} };
inline std::vector<Val> &Val::agg() const { return ((AggN *)p.p)->v; }

// ---------------------------------------------------------------- memory
struct Cell { Val v; uint32_t n; };
enum { T_UNINIT = 0, T_CONC = 1, T_SYM = 2 };
enum { OK_HEAP = 1, OK_STACK = 2, OK_GLOBAL = 3, OK_CONST = 4, OK_FUNC = 5 };
struct Obj {
  int rc = 0;
  uint8_t kind = OK_HEAP; 
  uint64_t size = 0;
  std::vector<uint8_t> b, tag;
  std::map<uint32_t, Cell> cells;
  std::string name;
  static void destroy(Obj *o) { delete o; }
};
static const int IDSHIFT = 36;
static const uint64_t OFFMASK = (1ull << IDSHIFT) - 1;
static const uint32_t SHARED_ID = 1u << 26;
static const uint32_t FUNC_ID = 1u << 27;
inline uint32_t idOf(uint64_t a) { return (uint32_t)(a >> IDSHIFT); }

struct Chunk { int rc = 0; IP<Obj> o[64]; static void destroy(Chunk *c) { delete c; } };
struct ObjTab {
  std::vector<IP<Chunk>> ch;
  Obj *get(uint32_t id) const {
    uint32_t c = id >> 6;
    if (c >= ch.size() || !ch[c]) return nullptr;
    return ch[c]->o[id & 63].p;
  }
  IP<Obj> &slot(uint32_t id) {
    uint32_t c = id >> 6;
    if (c >= ch.size()) ch.resize(c + 1);
    if (!ch[c]) ch[c] = IP<Chunk>(new Chunk);
    else if (ch[c]->rc > 1) { Chunk *n = new Chunk; for (int i = 0; i < 64; i++) n->o[i] = ch[c]->o[i]; ch[c] = IP<Chunk>(n); }
    return ch[c]->o[id & 63];
  }
  Obj *getW(uint32_t id) {
    if (!get(id)) return nullptr;
    IP<Obj> &s = slot(id);
    if (s->rc > 1) { Obj *n = new Obj(*s.p); n->rc = 0; s = IP<Obj>(n); }
    return s.p;
  }
};
