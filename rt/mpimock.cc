// MPI model: asynchronous message passing between ranks with nondeterministic buffering and arrival.
#include <mpi.h>
#include "sx.h"
#include <cstring>
#include <cstdlib>
int sxmpi_send_mode = 0, sxmpi_delay_budget = 0, sxmpi_any_choice = 0, sxmpi_strict = 1, sxmpi_choices = 1000;
static const int MAXR = 4, MAXMSG = 512, MAXREQ = 512, COLL = 4, COLLB = 8192;
struct Msg { int used, src, dst, tag, comm, deferred, matched, ready; long long len; unsigned char *data; uint64_t seq; };
struct Coll { int arrived, left, op, count, type, kind, root; int in[MAXR]; long long len[MAXR]; unsigned char *data[MAXR]; };
struct Net { uint64_t seq; Msg *msg[MAXMSG]; Coll *coll[COLL]; int finalized; int nmsg; };
static Net *net;
struct Req { int used, kind, msg, done, src, tag, comm; unsigned char *buf, *snap; long long len, cap; MPI_Status st; uint64_t order; };
static Req *req; static int nreq; static uint64_t collSeq, reqOrder;
void sxmpi_init() { if (net) return; net = (Net *)sx_shared_alloc(sizeof(Net)); req = (Req *)calloc(MAXREQ, sizeof(Req)); for (int i = 0; i < COLL; i++) net->coll[i] = (Coll *)sx_shared_alloc(sizeof(Coll)); }
static int tsize(MPI_Datatype t) { switch (t) { case MPI_BYTE: case MPI_CHAR: case MPI_UNSIGNED_CHAR: case MPI_UINT8_T: case MPI_C_BOOL: return 1; case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_UINT32_T: case MPI_INT32_T: return 4; default: return 8; } }
int MPI_Type_size(MPI_Datatype t, int *s) { *s = tsize(t); return 0; }
int MPI_Init(int *, char ***) { if (!net) sxmpi_init(); return 0; }
int MPI_Init_thread(int *, char ***, int r, int *p) { if (!net) sxmpi_init(); *p = r; return 0; }
int MPI_Initialized(int *f) { *f = 1; return 0; }
int MPI_Finalize() { return 0; }
int MPI_Abort(MPI_Comm, int) { abort(); return 0; }
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = c == MPI_COMM_SELF ? 0 : sx_rank(); return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { *n = c == MPI_COMM_SELF ? 1 : sx_nranks(); return 0; }
static int nextComm = 10;
int MPI_Comm_dup(MPI_Comm, MPI_Comm *o) { *o = nextComm++; return 0; }
int MPI_Comm_free(MPI_Comm *) { return 0; }
double MPI_Wtime() { return 0; }
int MPI_Get_processor_name(char *n, int *l) { n[0] = 'x'; n[1] = 0; *l = 1; return 0; }
int MPI_Error_string(int, char *s, int *l) { s[0] = 0; *l = 0; return 0; }
static void badBuf(const char *m) { sx_fail("mpi-buffer", m); }
static int newMsg() { for (int i = 0; i < MAXMSG; i++) { if (i >= net->nmsg) { net->msg[i] = (Msg *)sx_shared_alloc(sizeof(Msg)); net->nmsg = i + 1; } if (!net->msg[i]->used) return i; } sx_fail("model", "message table full"); return 0; }
static void xfer(Req &r) { // sender side: the library reads the buffer now
  Msg &m = *net->msg[r.msg];
  if (m.ready) return;
  if (sxmpi_strict) {
    if (r.len && !sx_mem_live(r.buf, r.len)) badBuf("send buffer no longer exists when the library reads it");
    else if (r.len && !sx_same_bytes(r.buf, r.snap, r.len)) badBuf("send buffer was modified before the operation completed");
  }
  if (r.len) memcpy(m.data, r.buf, r.len);
  m.ready = 1; sx_progress();
}
static bool match(Req &r) { // receiver side
  if (r.msg >= 0) return true;
  int best = -1;
  for (int i = 0; i < net->nmsg; i++) { Msg &m = *net->msg[i]; if (!m.used || m.matched || m.dst != sx_rank() || m.comm != r.comm) continue; if (r.src != MPI_ANY_SOURCE && m.src != r.src) continue; if (r.tag != MPI_ANY_TAG && m.tag != r.tag) continue; if (best < 0 || m.seq < net->msg[best]->seq) best = i; }
  if (best < 0) return false;
  if (r.src == MPI_ANY_SOURCE && sxmpi_any_choice) { // any source: earliest message of each source is a candidate
    int cand[MAXR], n = 0; for (int s = 0; s < sx_nranks(); s++) { int b = -1; for (int i = 0; i < net->nmsg; i++) { Msg &m = *net->msg[i]; if (!m.used || m.matched || m.dst != sx_rank() || m.comm != r.comm || m.src != s) continue; if (r.tag != MPI_ANY_TAG && m.tag != r.tag) continue; if (b < 0 || m.seq < net->msg[b]->seq) b = i; } if (b >= 0) cand[n++] = b; }
    if (n > 1 && sxmpi_choices > 0) { sxmpi_choices--; best = cand[sx_choose(n, "any_source")]; } }
  r.msg = best; net->msg[best]->matched = 1; sx_progress(); return true;
}
static void progress() {
  // receives in posting order, then deferred sends that have been matched
  uint64_t last = 0;
  for (;;) { int b = -1; for (int i = 0; i < nreq; i++) if (req[i].used && req[i].kind == 1 && !req[i].done && req[i].order >= last && (b < 0 || req[i].order < req[b].order)) b = i; if (b < 0) break; last = req[b].order + 1;
    Req &r = req[b];
    if (match(r)) { Msg &m = *net->msg[r.msg]; if (m.ready) {
        if (m.len > r.cap) sx_fail("mpi", "received message is longer than the receive buffer");
        if (m.len) { if (!sx_mem_live(r.buf, m.len)) badBuf("receive buffer no longer exists when the message arrives"); else memcpy(r.buf, m.data, m.len); }
        if (r.snap && r.cap > m.len && sx_mem_live(r.buf, r.cap)) memcpy(r.buf + m.len, r.snap + m.len, r.cap - m.len);
        r.st.MPI_SOURCE = m.src; r.st.MPI_TAG = m.tag; r.st.MPI_ERROR = 0; r.st.sx_len = m.len; r.done = 1; m.used = 0; sx_progress(); } } }
  for (int i = 0; i < nreq; i++) if (req[i].used && req[i].kind == 2 && !req[i].done && req[i].msg >= 0) { Msg &m = *net->msg[req[i].msg]; if (m.matched && !m.ready) { xfer(req[i]); } if (m.ready) { req[i].done = 1; } }
}
static int newReq() { for (int i = 0; i < MAXREQ; i++) { if (i >= nreq) nreq = i + 1; if (!req[i].used) { memset(&req[i], 0, sizeof(Req)); req[i].used = 1; req[i].msg = -1; req[i].order = ++reqOrder; return i; } } sx_fail("model", "request table full"); return 0; }
static int isend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *r, bool sync) {
  if (dst == MPI_PROC_NULL) { int k = newReq(); req[k].kind = 2; req[k].done = 1; *r = k; return 0; }
  if (dst < 0 || dst >= sx_nranks()) { sx_fail("mpi", "send to a rank that does not exist"); return MPI_ERR_OTHER; }
  if (n < 0) { sx_fail("mpi", "negative message length"); return MPI_ERR_OTHER; }
  int k = newReq(); Req &q = req[k]; q.kind = 2; q.buf = (unsigned char *)b; q.len = (long long)n * tsize(t);
  int mi = newMsg(); Msg &m = *net->msg[mi]; m.used = 1; m.src = sx_rank(); m.dst = dst; m.tag = tag; m.comm = c; m.matched = 0; m.ready = 0; m.len = q.len; m.seq = net->seq++; m.data = (unsigned char *)sx_shared_alloc(q.len ? q.len : 1);
  q.msg = mi; q.snap = (unsigned char *)malloc(q.len ? q.len : 1); if (q.len) { if (!sx_mem_live(b, q.len)) sx_fail("mpi-buffer", "send buffer is not a live object of that size"); memcpy(q.snap, b, q.len); }
  bool def = sync || sxmpi_send_mode == 1 || (sxmpi_send_mode >= 2 && (sxmpi_choices > 0 ? (sxmpi_choices--, sx_choose(2, "deferred_send") != 0) : sxmpi_send_mode == 3));
  m.deferred = def; if (!def) { if (q.len) memcpy(m.data, b, q.len); m.ready = 1; q.done = 1; }
  *r = k; sx_progress(); return 0;
}
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { return isend(b, n, t, d, tag, c, r, false); }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r) { return isend(b, n, t, d, tag, c, r, true); }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r) {
  if (s >= sx_nranks() || (s < 0 && s != MPI_ANY_SOURCE)) { sx_fail("mpi", "receive from a rank that does not exist"); return MPI_ERR_OTHER; }
  int k = newReq(); Req &q = req[k]; q.kind = 1; q.buf = (unsigned char *)b; q.cap = (long long)n * tsize(t); q.src = s; q.tag = tag; q.comm = c; *r = k; if (q.cap && !sx_mem_live(b, q.cap)) sx_fail("mpi-buffer", "receive buffer is not a live object of that size");
  else if (q.cap && sxmpi_strict) { q.snap = (unsigned char *)malloc(q.cap); memcpy(q.snap, b, q.cap); unsigned char *junk = (unsigned char *)malloc(q.cap); memcpy(b, junk, q.cap); free(junk); } // until the receive completes the content is undefined
  return 0; }
static void finish(MPI_Request *r, MPI_Status *st) { Req &q = req[*r];
  if (q.kind == 2 && sxmpi_strict && q.snap && q.len) { // operation completes only now as far as the program knows
    if (!sx_mem_live(q.buf, q.len)) badBuf("send buffer no longer exists when the operation completes"); else if (!sx_same_bytes(q.buf, q.snap, q.len)) badBuf("send buffer was modified before the operation completed"); }
  if (st) { if (q.kind == 1) *st = q.st; else { st->MPI_SOURCE = sx_rank(); st->MPI_TAG = 0; st->MPI_ERROR = 0; st->sx_len = 0; } }
  if (q.snap) free(q.snap); q.snap = 0; q.used = 0; *r = MPI_REQUEST_NULL; }
static bool badReq(MPI_Request r) { if (r < 0 || r >= nreq || !req[r].used) { sx_fail("mpi", "operation on an invalid request"); return true; } return false; }
int MPI_Wait(MPI_Request *r, MPI_Status *st) { if (*r == MPI_REQUEST_NULL) return 0; if (badReq(*r)) return MPI_ERR_OTHER; for (;;) { progress(); if (req[*r].done) break; sx_yield(); } finish(r, st); return 0; }
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *st) { for (int i = 0; i < n; i++) { if (r[i] != MPI_REQUEST_NULL && badReq(r[i])) return MPI_ERR_OTHER; }
  for (;;) { progress(); bool all = true; for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL && !req[r[i]].done) all = false; if (all) break; sx_yield(); }
  for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) finish(&r[i], st ? st + i : 0); return 0; }
static void settle() { for (int i = 0; i < 3; i++) { sx_yield(); progress(); } }
int MPI_Waitany(int n, MPI_Request *r, int *idx, MPI_Status *st) {
  bool any = false; for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) { any = true; if (badReq(r[i])) return MPI_ERR_OTHER; }
  if (!any) { *idx = MPI_UNDEFINED; return 0; }
  bool waited = false;
  for (;;) { progress(); int c[64], k = 0; for (int i = 0; i < n && k < 64; i++) if (r[i] != MPI_REQUEST_NULL && req[r[i]].done) c[k++] = i;
    if (k) { if (sxmpi_any_choice && !waited) { waited = true; settle(); continue; } int p = c[(sxmpi_any_choice && k > 1 && sxmpi_choices-- > 0) ? sx_choose(k, "waitany") : 0]; *idx = p; finish(&r[p], st); return 0; }
    sx_yield(); } }
int MPI_Waitsome(int n, MPI_Request *r, int *out, int *idx, MPI_Status *st) { int i; int e = MPI_Waitany(n, r, &i, st); if (i == MPI_UNDEFINED) { *out = MPI_UNDEFINED; return e; } *out = 1; idx[0] = i; return e; }
int MPI_Test(MPI_Request *r, int *f, MPI_Status *st) { if (*r == MPI_REQUEST_NULL) { *f = 1; return 0; } if (badReq(*r)) return MPI_ERR_OTHER; sx_yield(); progress(); if (req[*r].done && !(sxmpi_delay_budget > 0 && sx_choose(2, "test_delayed") && sxmpi_delay_budget--)) { *f = 1; finish(r, st); } else *f = 0; return 0; }
int MPI_Testall(int n, MPI_Request *r, int *f, MPI_Status *st) { sx_yield(); progress(); for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL && !req[r[i]].done) { *f = 0; return 0; } *f = 1; for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) finish(&r[i], st ? st + i : 0); return 0; }
int MPI_Testany(int n, MPI_Request *r, int *idx, int *f, MPI_Status *st) { sx_yield(); progress(); *f = 0; bool any = false; for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) { any = true; if (req[r[i]].done) { *idx = i; *f = 1; finish(&r[i], st); return 0; } } if (!any) { *f = 1; *idx = MPI_UNDEFINED; } return 0; }
int MPI_Request_free(MPI_Request *r) { *r = MPI_REQUEST_NULL; return 0; }
int MPI_Cancel(MPI_Request *) { return 0; }
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { MPI_Request r; int e = isend(b, n, t, d, tag, c, &r, false); if (e) return e; return MPI_Wait(&r, 0); }
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) { MPI_Request r; int e = isend(b, n, t, d, tag, c, &r, true); if (e) return e; return MPI_Wait(&r, 0); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) { MPI_Request r; if (s == MPI_ANY_SOURCE && sxmpi_any_choice) settle(); int e = MPI_Irecv(b, n, t, s, tag, c, &r); if (e) return e; return MPI_Wait(&r, st); }
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stt, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *st) { MPI_Request r[2]; MPI_Status ss[2]; MPI_Irecv(rb, rn, rt, s, rtag, c, &r[0]); isend(sb, sn, stt, d, stag, c, &r[1], false); MPI_Waitall(2, r, ss); if (st) *st = ss[0]; return 0; }
static int findMsg(int s, int tag, MPI_Comm c) { int best = -1; for (int i = 0; i < net->nmsg; i++) { Msg &m = *net->msg[i]; if (!m.used || m.matched || m.dst != sx_rank() || m.comm != c) continue; if (s != MPI_ANY_SOURCE && m.src != s) continue; if (tag != MPI_ANY_TAG && m.tag != tag) continue; if (best < 0 || m.seq < net->msg[best]->seq) best = i; } return best; }
int MPI_Iprobe(int s, int tag, MPI_Comm c, int *flag, MPI_Status *st) {
  sx_yield(); progress(); int b = findMsg(s, tag, c);
  if (b >= 0 && sxmpi_delay_budget > 0 && sx_choose(2, "not_yet_arrived")) { sxmpi_delay_budget--; b = -1; }
  if (b < 0) { *flag = 0; return 0; }
  *flag = 1; if (st) { Msg &m = *net->msg[b]; st->MPI_SOURCE = m.src; st->MPI_TAG = m.tag; st->MPI_ERROR = 0; st->sx_len = m.len; } return 0; }
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status *st) { for (;;) { progress(); int b = findMsg(s, tag, c); if (b >= 0) { if (st) { Msg &m = *net->msg[b]; st->MPI_SOURCE = m.src; st->MPI_TAG = m.tag; st->MPI_ERROR = 0; st->sx_len = m.len; } return 0; } sx_yield(); } }
int MPI_Get_count(const MPI_Status *st, MPI_Datatype t, int *n) { *n = (int)(st->sx_len / tsize(t)); return 0; }
// ---- collectives
static Coll &enter(int kind, int op, int count, int type, int root, const void *in, long long len) {
  Coll &c = *net->coll[collSeq % COLL]; int me = sx_rank(), n = sx_nranks();
  while (c.arrived == n || c.in[me]) { progress(); sx_yield(); } // previous use not finished
  if (c.arrived == 0) { c.kind = kind; c.op = op; c.count = count; c.type = type; c.root = root; c.left = 0; }
  else if (c.kind != kind || c.op != op || c.count != count || c.type != type || c.root != root) sx_fail("mpi", "ranks call different collective operations");
  c.data[me] = (unsigned char *)sx_shared_alloc(len ? len : 1); if (len) memcpy(c.data[me], in, len); c.len[me] = len; c.in[me] = 1; c.arrived++; sx_progress();
  while (c.arrived < n) { progress(); sx_yield(); }
  return c; }
static void leave(Coll &c) { int n = sx_nranks(); c.left++; collSeq++; sx_progress(); if (c.left == n) { for (int i = 0; i < n; i++) c.in[i] = 0; c.arrived = 0; } }
template<class T> static void comb(T *r, const T *x, int n, int op) { for (int i = 0; i < n; i++) switch (op) { case MPI_MAX: if (x[i] > r[i]) r[i] = x[i]; break; case MPI_MIN: if (x[i] < r[i]) r[i] = x[i]; break; case MPI_SUM: r[i] = r[i] + x[i]; break; case MPI_PROD: r[i] = r[i] * x[i]; break; case MPI_LAND: r[i] = r[i] && x[i]; break; case MPI_LOR: r[i] = r[i] || x[i]; break; default: sx_fail("model", "reduction operator"); } }
static void combT(void *r, const void *x, int n, int t, int op) { switch (t) { case MPI_DOUBLE: comb((double *)r, (const double *)x, n, op); break; case MPI_FLOAT: comb((float *)r, (const float *)x, n, op); break; case MPI_INT: case MPI_INT32_T: comb((int *)r, (const int *)x, n, op); break; case MPI_UNSIGNED: case MPI_UINT32_T: comb((unsigned *)r, (const unsigned *)x, n, op); break; case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: comb((int64_t *)r, (const int64_t *)x, n, op); break; case MPI_UINT64_T: case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: comb((uint64_t *)r, (const uint64_t *)x, n, op); break; case MPI_C_BOOL: comb((unsigned char *)r, (const unsigned char *)x, n, op); break; default: sx_fail("model", "reduction type"); } }
int MPI_Barrier(MPI_Comm c) { if (c == MPI_COMM_SELF) return 0; Coll &k = enter(1, 0, 0, 0, 0, 0, 0); leave(k); return 0; }
int MPI_Allreduce(const void *in, void *out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) { long long len = (long long)n * tsize(t); if (in == MPI_IN_PLACE) in = out; if (c == MPI_COMM_SELF) { if (in != out) memcpy(out, in, len); return 0; } Coll &k = enter(2, op, n, t, 0, in, len); memcpy(out, k.data[0], len); for (int i = 1; i < sx_nranks(); i++) combT(out, k.data[i], n, t, op); leave(k); return 0; }
int MPI_Reduce(const void *in, void *out, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm) { long long len = (long long)n * tsize(t); if (in == MPI_IN_PLACE) in = out; Coll &k = enter(3, op, n, t, root, in, len); if (sx_rank() == root) { memcpy(out, k.data[0], len); for (int i = 1; i < sx_nranks(); i++) combT(out, k.data[i], n, t, op); } leave(k); return 0; }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm) { long long len = (long long)n * tsize(t); Coll &k = enter(4, 0, n, t, root, b, sx_rank() == root ? len : 0); if (sx_rank() != root) memcpy(b, k.data[root], len); leave(k); return 0; }
int MPI_Allgather(const void *in, int n, MPI_Datatype t, void *out, int, MPI_Datatype, MPI_Comm) { long long len = (long long)n * tsize(t); if (in == MPI_IN_PLACE) in = (char *)out + len * sx_rank(); Coll &k = enter(5, 0, n, t, 0, in, len); for (int i = 0; i < sx_nranks(); i++) memcpy((char *)out + i * len, k.data[i], len); leave(k); return 0; }
int MPI_Gather(const void *in, int n, MPI_Datatype t, void *out, int, MPI_Datatype, int root, MPI_Comm) { long long len = (long long)n * tsize(t); if (in == MPI_IN_PLACE) in = (char *)out + len * sx_rank(); Coll &k = enter(6, 0, n, t, root, in, len); if (sx_rank() == root) for (int i = 0; i < sx_nranks(); i++) memcpy((char *)out + i * len, k.data[i], len); leave(k); return 0; }
int MPI_Scan(const void *in, void *out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) { long long len = (long long)n * tsize(t); if (in == MPI_IN_PLACE) in = out; Coll &k = enter(7, op, n, t, 0, in, len); memcpy(out, k.data[0], len); for (int i = 1; i <= sx_rank(); i++) combT(out, k.data[i], n, t, op); leave(k); return 0; }
int MPI_Exscan(const void *in, void *out, int n, MPI_Datatype t, MPI_Op op, MPI_Comm) { long long len = (long long)n * tsize(t); if (in == MPI_IN_PLACE) in = out; Coll &k = enter(8, op, n, t, 0, in, len); if (sx_rank() > 0) { memcpy(out, k.data[0], len); for (int i = 1; i < sx_rank(); i++) combT(out, k.data[i], n, t, op); } leave(k); return 0; }
// ---- MPI-IO on the in-memory file system
struct SxMpiFile { char name[96]; long long pos; int mode; };
static int agree(int v) { if (sx_nranks() == 1) return v; int r = v; Coll &k = enter(9, 0, 0, 0, 0, &v, sizeof v); memcpy(&r, k.data[0], sizeof r); leave(k); return r; }
int MPI_File_open(MPI_Comm, const char *n, int mode, MPI_Info, MPI_File *f) {
  int res = 0;
  if (sx_rank() == 0) { SxFile *s = sx_fs_find(n, false); if ((mode & MPI_MODE_EXCL) && s) res = MPI_ERR_OTHER; else if (!(mode & MPI_MODE_CREATE) && !s) res = MPI_ERR_OTHER; else if (!s) sx_fs_find(n, true); }
  res = agree(res); if (res) { *f = MPI_FILE_NULL; return res; }
  *f = (SxMpiFile *)malloc(sizeof(SxMpiFile)); memset(*f, 0, sizeof(SxMpiFile)); strncpy((*f)->name, n, 95); (*f)->pos = 0; (*f)->mode = mode; return 0; }
int MPI_File_close(MPI_File *f) { if (sx_nranks() > 1) MPI_Barrier(MPI_COMM_WORLD); free(*f); *f = MPI_FILE_NULL; return 0; }
int MPI_File_delete(const char *n, MPI_Info) { SxFile *s = sx_fs_find(n, false); if (!s) return MPI_ERR_OTHER; s->exists = 0; return 0; }
int MPI_File_seek(MPI_File f, MPI_Offset o, int w) { SxFile *s = sx_fs_find(f->name, false); f->pos = w == MPI_SEEK_SET ? o : w == MPI_SEEK_CUR ? f->pos + o : (long long)s->size + o; return 0; }
int MPI_File_read_at(MPI_File f, MPI_Offset o, void *b, int n, MPI_Datatype t, MPI_Status *st) { SxFile *s = sx_fs_find(f->name, false); if (!s || n < 0) return MPI_ERR_OTHER; long long len = (long long)n * tsize(t); long long av = (long long)s->size - o; if (o < 0) return MPI_ERR_OTHER; if (av < 0) av = 0; if (len > av) len = av; if (len > 0) memcpy(b, s->data + o, len); if (st) st->sx_len = len; return 0; }
int MPI_File_read(MPI_File f, void *b, int n, MPI_Datatype t, MPI_Status *st) { MPI_Status q; int e = MPI_File_read_at(f, f->pos, b, n, t, &q); if (e) return e; f->pos += q.sx_len; if (st) *st = q; return 0; }
int MPI_File_read_all(MPI_File f, void *b, int n, MPI_Datatype t, MPI_Status *st) { int e = MPI_File_read(f, b, n, t, st); MPI_Barrier(MPI_COMM_WORLD); return e; }
int MPI_File_read_at_all(MPI_File f, MPI_Offset o, void *b, int n, MPI_Datatype t, MPI_Status *st) { int e = MPI_File_read_at(f, o, b, n, t, st); MPI_Barrier(MPI_COMM_WORLD); return e; }
int MPI_File_write_at(MPI_File f, MPI_Offset o, const void *b, int n, MPI_Datatype t, MPI_Status *) { SxFile *s = sx_fs_find(f->name, false); if (!s || n < 0 || o < 0) return MPI_ERR_OTHER; long long len = (long long)n * tsize(t); if ((uint64_t)(o + len) > s->cap) { sx_fail("io", "write far outside the expected file size"); return MPI_ERR_OTHER; } if (len) memcpy(s->data + o, b, len); if ((uint64_t)(o + len) > s->size) s->size = o + len; s->written += len; return 0; }
int MPI_File_write(MPI_File f, const void *b, int n, MPI_Datatype t, MPI_Status *st) { int e = MPI_File_write_at(f, f->pos, b, n, t, st); f->pos += (long long)n * tsize(t); return e; }
int MPI_File_write_at_all(MPI_File f, MPI_Offset o, const void *b, int n, MPI_Datatype t, MPI_Status *st) { int e = MPI_File_write_at(f, o, b, n, t, st); MPI_Barrier(MPI_COMM_WORLD); return e; }
int MPI_File_set_size(MPI_File f, MPI_Offset o) { SxFile *s = sx_fs_find(f->name, false); if ((uint64_t)o > s->cap) return MPI_ERR_OTHER; s->size = o; return 0; }
int MPI_File_get_size(MPI_File f, MPI_Offset *o) { SxFile *s = sx_fs_find(f->name, false); *o = s->size; return 0; }
int MPI_File_sync(MPI_File) { return 0; }
void sxmpi_check_clean(const char *where) { for (int i = 0; i < nreq; i++) if (req[i].used) { sx_note(where); sx_fail("mpi-buffer", "a non-blocking operation is never completed"); } }
uint64_t sxmpi_pending_messages() { uint64_t k = 0; for (int i = 0; i < net->nmsg; i++) if (net->msg[i]->used) k++; return k; }
