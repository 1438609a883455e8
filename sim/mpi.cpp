// MPI as the simulator plays it: reliable, ordered, blocking; who proceeds when is up to the scheduler.
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>
#include <cstring>
#include <cstdlib>
#include <set>
#include <deque>
#include <memory>
#include <algorithm>
#include <functional>
#include "sim.h"
using namespace sim;

namespace sim { double clock_read(int rank); }

namespace simmpi {
struct Part { bool in = false, out = false; std::vector<char> data; };
struct Slot {
  std::string kind; int root = -1; size_t bytes = 0; MPI_Datatype dt = nullptr; MPI_Op op = nullptr;
  int narrived = 0, first = -1; std::vector<Part> parts; double tmax = 0; bool sync = false; int nleft = 0;
  std::vector<std::vector<char>> result; bool have = false;
};
struct RankMpi { bool init = false, fin = false; long ncoll = 0; };
static std::map<long, Slot> slots;
static RankMpi R[64];
struct Msg { int src, dst, tag; std::vector<char> data; };
static std::deque<std::shared_ptr<Msg>> mail;
bool finalized(int r) { return R[r].fin; }
bool initialized(int r) { return R[r].init; }

static int me() { return cur_rank(); }
static int N() { return plan.ranks; }
static std::map<void*, size_t> derived;   // contiguous types made by the application
static size_t tsize(MPI_Datatype d) {
  auto it = derived.find((void*)d); if (it != derived.end()) return it->second;
  if (d == MPI_DOUBLE || d == MPI_LONG || d == MPI_UNSIGNED_LONG || d == MPI_LONG_LONG_INT || d == MPI_UNSIGNED_LONG_LONG || d == MPI_INT64_T || d == MPI_UINT64_T) return 8;
  if (d == MPI_INT || d == MPI_UNSIGNED || d == MPI_FLOAT || d == MPI_INT32_T || d == MPI_UINT32_T) return 4;
  if (d == MPI_SHORT || d == MPI_UNSIGNED_SHORT) return 2;
  if (d == MPI_LONG_DOUBLE || d == MPI_DOUBLE_INT) return 16;
  if (d == MPI_2INT) return 8;
  return 1;
}
static void usage(const char* fn, const std::string& what) {
  violation("mpi-usage", std::string(fn) + ": " + what);
  run_ends("mpi-error", std::string(fn) + ": " + what);
}
static void enter_check(const char* fn, MPI_Comm c) {
  if (cur_rank() < 0) { fprintf(stderr, "simulator: MPI outside of a rank\n"); _Exit(90); }
  if (!R[me()].init) usage(fn, "called before MPI_Init");
  if (R[me()].fin) usage(fn, "called after MPI_Finalize");
  if (c != MPI_COMM_WORLD && c != MPI_COMM_SELF) usage(fn, "communicator not supported by the simulator");
  if (sim::in_parallel()) usage(fn, "collective called inside a parallel region");
}
// enter a collective; returns its slot
static Slot& enter(const char* kind, int root, size_t bytes, MPI_Datatype dt, MPI_Op op, long& idx) {
  idx = R[me()].ncoll++;
  Slot& s = slots[idx];
  event("COLL", "%s #%ld root %d bytes %zu", kind, idx, root, bytes);
  count("mpi.collectives");
  if (s.first < 0) {
    s.first = me(); s.kind = kind; s.root = root; s.bytes = bytes; s.dt = dt; s.op = op; s.parts.resize(N());
    s.sync = plan.syncbcast == 1 || (plan.syncbcast == 2 && (hash4(plan.seed, 31, idx, 0) & 1));
  } else if (s.kind != kind || s.root != root || s.bytes != bytes || s.dt != dt || s.op != op) {
    std::string t = fmtb("collective %ld: rank %d calls %s root %d with %zu bytes, rank %d called %s root %d with %zu bytes", idx, me(), kind, root, bytes, s.first, s.kind.c_str(), s.root, s.bytes);
    violation("collective-mismatch", t);
    run_ends("mpi-error", t);
  }
  s.narrived++; s.parts[me()].in = true;
  s.tmax = std::max(s.tmax, rank_clock(me()));
  return s;
}
static void leave(long idx) {
  Slot& s = slots[idx];
  if (++s.nleft == N()) slots.erase(idx);
}
static void wait_all(long idx, const char* kind) {
  Slot& s = slots[idx];
  wait_for(kind, [&s]() { return s.narrived == N(); });
  set_clock(me(), s.tmax); advance_clock(me(), 2e-5);
}
static const void* sendptr(const void* s, void* r) { return s == MPI_IN_PLACE ? r : s; }

static void combine(std::vector<char>& acc, const std::vector<char>& x, MPI_Datatype dt, MPI_Op op) {
  auto go = [&](auto tag) {
    typedef decltype(tag) T; T* a = (T*)acc.data(); const T* b = (const T*)x.data(); size_t n = acc.size() / sizeof(T);
    for (size_t i = 0; i < n; i++) {
      if (op == MPI_SUM) a[i] = a[i] + b[i];
      else if (op == MPI_MAX) a[i] = std::max(a[i], b[i]);
      else if (op == MPI_MIN) a[i] = std::min(a[i], b[i]);
      else if (op == MPI_PROD) a[i] = a[i] * b[i];
      else if (op == MPI_LAND) a[i] = a[i] && b[i];
      else if (op == MPI_LOR) a[i] = a[i] || b[i];
      else if (op == MPI_LXOR) a[i] = !a[i] != !b[i];
    }
  };
  if (op == MPI_MINLOC || op == MPI_MAXLOC) {
    auto loc = [&](auto tag) { struct P { decltype(tag) v; int i; }; P* a = (P*)acc.data(); const P* b = (const P*)x.data();
      for (size_t i = 0; i < acc.size() / sizeof(P); i++) if (a[i].v == b[i].v) a[i].i = std::min(a[i].i, b[i].i); else if ((b[i].v < a[i].v) == (op == MPI_MINLOC)) a[i] = b[i]; };
    if (dt == MPI_DOUBLE_INT) loc(double()); else loc(int()); return; }
  if (op == MPI_BXOR) { for (size_t i = 0; i < acc.size(); i++) acc[i] ^= x[i]; return; }
  if (op == MPI_BAND || op == MPI_BOR) { for (size_t i = 0; i < acc.size(); i++) acc[i] = op == MPI_BAND ? (acc[i] & x[i]) : (acc[i] | x[i]); return; }
  if (dt == MPI_DOUBLE) go(double()); else if (dt == MPI_FLOAT) go(float()); else if (dt == MPI_LONG_DOUBLE) go((long double)0);
  else if (dt == MPI_INT || dt == MPI_INT32_T) go(int()); else if (dt == MPI_UNSIGNED || dt == MPI_UINT32_T) go((unsigned)0);
  else if (dt == MPI_UNSIGNED_LONG || dt == MPI_UNSIGNED_LONG_LONG || dt == MPI_UINT64_T) go((unsigned long)0);
  else if (tsize(dt) == 8) go(long()); else if (tsize(dt) == 2) go(short()); else go((signed char)0);
}
static std::vector<char> reduce_all(Slot& s, long idx) {
  // the order of summation is the business of the MPI library
  std::vector<int> ord(N()); for (int i = 0; i < N(); i++) ord[i] = i;
  if (plan.redorder) for (int i = N() - 1; i > 0; i--) std::swap(ord[i], ord[hash4(plan.seed, 33, idx, i) % (i + 1)]);
  std::vector<char> acc = s.parts[ord[0]].data;
  for (int i = 1; i < N(); i++) combine(acc, s.parts[ord[i]].data, s.dt, s.op);
  return acc;
}
static void rd(const char* fn, const void* p, size_t n, const void* pc) { if (n) check_range(p, n, false, fn, pc); }
static void wr(const char* fn, const void* p, size_t n, const void* pc) { if (n) check_range(p, n, true, fn, pc); }
}
using namespace simmpi;
#define PC __builtin_return_address(0)

extern "C" {
int MPI_Init(int*, char***) { if (R[me()].init) usage("MPI_Init", "called twice"); R[me()].init = true; event("MPI", "init"); sync_point("init"); return MPI_SUCCESS; }
int MPI_Init_thread(int* a, char*** b, int req, int* prov) { if (prov) *prov = req; return MPI_Init(a, b); }
int MPI_Initialized(int* f) { *f = R[me()].init; return MPI_SUCCESS; }
int MPI_Finalized(int* f) { *f = R[me()].fin; return MPI_SUCCESS; }
int MPI_Finalize(void) {
  enter_check("MPI_Finalize", MPI_COMM_WORLD);
  long i; sync_point("finalize"); enter("finalize", 0, 0, nullptr, nullptr, i); wait_all(i, "MPI_Finalize"); leave(i);
  R[me()].fin = true; return MPI_SUCCESS;
}
int MPI_Comm_rank(MPI_Comm c, int* r) { *r = c == MPI_COMM_SELF ? 0 : me(); return MPI_SUCCESS; }
int MPI_Comm_size(MPI_Comm c, int* n) { *n = c == MPI_COMM_SELF ? 1 : N(); return MPI_SUCCESS; }
int MPI_Get_processor_name(char* n, int* l) { *l = snprintf(n, 64, "simnode%d", me()); return MPI_SUCCESS; }
double MPI_Wtime(void) { return clock_read(me()); }
double MPI_Wtick(void) { return 1e-9; }
int MPI_Abort(MPI_Comm, int code) { rank_dies("aborted", code ? code : 1, "MPI_Abort"); }
int MPI_Type_size(MPI_Datatype d, int* s) { *s = tsize(d); return MPI_SUCCESS; }
int MPI_Error_string(int, char* s, int* l) { strcpy(s, "error"); *l = 5; return MPI_SUCCESS; }
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) { return MPI_SUCCESS; }

int MPI_Barrier(MPI_Comm c) {
  enter_check("MPI_Barrier", c); if (c == MPI_COMM_SELF) return MPI_SUCCESS;
  long i; sync_point("barrier"); enter("barrier", -1, 0, nullptr, nullptr, i); wait_all(i, "MPI_Barrier"); leave(i); return MPI_SUCCESS;
}
int MPI_Bcast(void* b, int n, MPI_Datatype dt, int root, MPI_Comm c) {
  enter_check("MPI_Bcast", c); if (c == MPI_COMM_SELF) return MPI_SUCCESS;
  size_t by = (size_t)n * tsize(dt); long i; if (me() == root) rd("MPI_Bcast", b, by, PC); else wr("MPI_Bcast", b, by, PC);
  sync_point("bcast"); Slot& s = enter("bcast", root, by, dt, nullptr, i);
  if (me() == root) { s.parts[root].data.assign((char*)b, (char*)b + by); if (s.sync) wait_all(i, "MPI_Bcast"); }
  else {
    if (s.sync) wait_all(i, "MPI_Bcast"); else { wait_for("MPI_Bcast", [&s, root]() { return s.parts[root].in; }); set_clock(me(), s.tmax); }
    memcpy(b, s.parts[root].data.data(), by);
  }
  leave(i); return MPI_SUCCESS;
}
int MPI_Reduce(const void* sb, void* rb, int n, MPI_Datatype dt, MPI_Op op, int root, MPI_Comm c) {
  enter_check("MPI_Reduce", c); size_t by = (size_t)n * tsize(dt); long i; const void* src = sendptr(sb, rb);
  if (c == MPI_COMM_SELF) { if (src != rb) memcpy(rb, src, by); return MPI_SUCCESS; }
  rd("MPI_Reduce", src, by, PC); if (me() == root) wr("MPI_Reduce", rb, by, PC);
  sync_point("reduce"); Slot& s = enter("reduce", root, by, dt, op, i);
  s.parts[me()].data.assign((char*)src, (char*)src + by);
  if (me() == root || s.sync) wait_all(i, "MPI_Reduce");
  if (me() == root) { auto r = reduce_all(s, i); memcpy(rb, r.data(), by); }
  leave(i); return MPI_SUCCESS;
}
int MPI_Allreduce(const void* sb, void* rb, int n, MPI_Datatype dt, MPI_Op op, MPI_Comm c) {
  enter_check("MPI_Allreduce", c); size_t by = (size_t)n * tsize(dt); long i; const void* src = sendptr(sb, rb);
  if (c == MPI_COMM_SELF) { if (src != rb) memcpy(rb, src, by); return MPI_SUCCESS; }
  rd("MPI_Allreduce", src, by, PC); wr("MPI_Allreduce", rb, by, PC);
  sync_point("allreduce"); Slot& s = enter("allreduce", -1, by, dt, op, i);
  s.parts[me()].data.assign((char*)src, (char*)src + by); wait_all(i, "MPI_Allreduce");
  auto r = reduce_all(s, i); memcpy(rb, r.data(), by); leave(i); return MPI_SUCCESS;
}
static int gatherish(const char* kind, int root, const void* sb, int sc, MPI_Datatype st, void* rb, const int* rc, int rc1, const int* dis, MPI_Datatype rt, const void* pc) {
  // uniform amounts are checked; v-variants carry their own counts
  long i; bool all = root < 0; bool recv = all || me() == root; size_t ts = recv ? tsize(rt) : 0;
  auto cnt = [&](int r) { return (size_t)(rc ? rc[r] : rc1); }; auto off = [&](int r) { return (size_t)(dis ? dis[r] : (size_t)r * rc1); };
  size_t by; const void* src;
  if (sb == MPI_IN_PLACE) { by = cnt(me()) * tsize(rt); src = (char*)rb + off(me()) * tsize(rt); } else { by = (size_t)sc * tsize(st); src = sb; }
  rd(kind, src, by, pc);
  if (recv) for (int r = 0; r < N(); r++) wr(kind, (char*)rb + off(r) * ts, cnt(r) * ts, pc);
  sync_point(kind); Slot& s = enter(kind, root, rc ? 0 : by, nullptr, nullptr, i);
  s.parts[me()].data.assign((char*)src, (char*)src + by);
  if (recv || s.sync) wait_all(i, kind);
  if (recv) for (int r = 0; r < N(); r++) {
    size_t w = cnt(r) * ts; if (w != s.parts[r].data.size()) { std::string t = fmtb("%s: rank %d expects %zu bytes from rank %d which sends %zu", kind, me(), w, r, s.parts[r].data.size()); violation("collective-mismatch", t); run_ends("mpi-error", t); }
    memcpy((char*)rb + off(r) * ts, s.parts[r].data.data(), w);
  }
  leave(i); return MPI_SUCCESS;
}
int MPI_Allgather(const void* sb, int sc, MPI_Datatype st, void* rb, int rc, MPI_Datatype rt, MPI_Comm c) {
  enter_check("MPI_Allgather", c); return gatherish("MPI_Allgather", -1, sb, sc, st, rb, nullptr, rc, nullptr, rt, PC); }
int MPI_Allgatherv(const void* sb, int sc, MPI_Datatype st, void* rb, const int* rc, const int* d, MPI_Datatype rt, MPI_Comm c) {
  enter_check("MPI_Allgatherv", c); return gatherish("MPI_Allgatherv", -1, sb, sc, st, rb, rc, 0, d, rt, PC); }
int MPI_Gather(const void* sb, int sc, MPI_Datatype st, void* rb, int rc, MPI_Datatype rt, int root, MPI_Comm c) {
  enter_check("MPI_Gather", c); return gatherish("MPI_Gather", root, sb, sc, st, rb, nullptr, rc, nullptr, rt, PC); }
int MPI_Gatherv(const void* sb, int sc, MPI_Datatype st, void* rb, const int* rc, const int* d, MPI_Datatype rt, int root, MPI_Comm c) {
  enter_check("MPI_Gatherv", c); return gatherish("MPI_Gatherv", root, sb, sc, st, rb, rc, 0, d, rt, PC); }
static int scatterish(const char* kind, int root, const void* sb, const int* sc, int sc1, const int* dis, MPI_Datatype st, void* rb, int rc, MPI_Datatype rt, const void* pc) {
  long i; bool isroot = me() == root; size_t ts = isroot ? tsize(st) : 0;
  auto cnt = [&](int r) { return (size_t)(sc ? sc[r] : sc1); }; auto off = [&](int r) { return (size_t)(dis ? dis[r] : (size_t)r * sc1); };
  size_t by = rb == MPI_IN_PLACE ? 0 : (size_t)rc * tsize(rt);
  if (rb != MPI_IN_PLACE) wr(kind, rb, by, pc);
  sync_point(kind); Slot& s = enter(kind, root, 0, nullptr, nullptr, i);
  if (isroot) {
    s.result.resize(N());
    for (int r = 0; r < N(); r++) { const char* p = (const char*)sb + off(r) * ts; rd(kind, p, cnt(r) * ts, pc); s.result[r].assign(p, p + cnt(r) * ts); }
    s.have = true; if (s.sync) wait_all(i, kind);
  } else { wait_for(kind, [&s]() { return s.have; }); set_clock(me(), s.tmax); }
  if (rb != MPI_IN_PLACE) {
    if (by != s.result[me()].size()) { std::string t = fmtb("%s: rank %d expects %zu bytes, root sends %zu", kind, me(), by, s.result[me()].size()); violation("collective-mismatch", t); run_ends("mpi-error", t); }
    memcpy(rb, s.result[me()].data(), by);
  }
  leave(i); return MPI_SUCCESS;
}
int MPI_Scatter(const void* sb, int sc, MPI_Datatype st, void* rb, int rc, MPI_Datatype rt, int root, MPI_Comm c) {
  enter_check("MPI_Scatter", c); return scatterish("MPI_Scatter", root, sb, nullptr, sc, nullptr, st, rb, rc, rt, PC); }
int MPI_Scatterv(const void* sb, const int* sc, const int* d, MPI_Datatype st, void* rb, int rc, MPI_Datatype rt, int root, MPI_Comm c) {
  enter_check("MPI_Scatterv", c); return scatterish("MPI_Scatterv", root, sb, sc, 0, d, st, rb, rc, rt, PC); }

// ---- point to point (not used by the application today; needed should an exchange be rewritten) ----
struct simreq { std::function<bool()> ready; std::function<void()> fin; bool recv = false, done = false; void* buf = nullptr; size_t n = 0; int src = 0, tag = 0, me = 0; MPI_Status st; };
static bool try_recv(simreq* q) {
  for (size_t i = 0; i < mail.size(); i++) {
    auto m = mail[i];
    if (m->dst == q->me && (q->src == MPI_ANY_SOURCE || q->src == m->src) && (q->tag == MPI_ANY_TAG || q->tag == m->tag)) {
      if (m->data.size() > q->n) { violation("collective-mismatch", "message truncated"); run_ends("mpi-error", "message truncated"); }
      memcpy(q->buf, m->data.data(), m->data.size()); memset(&q->st, 0, sizeof q->st); q->st.MPI_SOURCE = m->src; q->st.MPI_TAG = m->tag; q->st._ucount = m->data.size();
      mail.erase(mail.begin() + i); q->done = true; return true;
    }
  }
  return false;
}
static bool pending_for(simreq* q) { for (auto& m : mail) if (m->dst == q->me && (q->src == MPI_ANY_SOURCE || q->src == m->src) && (q->tag == MPI_ANY_TAG || q->tag == m->tag)) return true; return false; }
int MPI_Send(const void* b, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm c) {
  enter_check("MPI_Send", c); if (dst == MPI_PROC_NULL) return MPI_SUCCESS; size_t by = (size_t)n * tsize(dt); rd("MPI_Send", b, by, PC);
  sync_point("send"); auto m = std::make_shared<Msg>(); m->src = me(); m->dst = dst; m->tag = tag; m->data.assign((char*)b, (char*)b + by); mail.push_back(m);
  event("SEND", "to %d tag %d bytes %zu", dst, tag, by);
  if (plan.syncbcast == 1) wait_for("MPI_Send", [m]() { for (auto& x : mail) if (x == m) return false; return true; });
  return MPI_SUCCESS;
}
int MPI_Ssend(const void* b, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm c) { return MPI_Send(b, n, dt, dst, tag, c); }
int MPI_Isend(const void* b, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm c, MPI_Request* r) {
  int k = plan.syncbcast; plan.syncbcast = 0; MPI_Send(b, n, dt, dst, tag, c); plan.syncbcast = k; auto q = new simreq; q->done = true; *r = (MPI_Request)q; return MPI_SUCCESS; }
int MPI_Irecv(void* b, int n, MPI_Datatype dt, int src, int tag, MPI_Comm c, MPI_Request* r) {
  enter_check("MPI_Irecv", c); auto q = new simreq; q->recv = true; q->buf = b; q->n = (size_t)n * tsize(dt); q->src = src; q->tag = tag; q->me = me(); wr("MPI_Irecv", b, q->n, PC); *r = (MPI_Request)q; return MPI_SUCCESS; }
int MPI_Wait(MPI_Request* r, MPI_Status* st) {
  if (*r == MPI_REQUEST_NULL) return MPI_SUCCESS; simreq* q = (simreq*)*r; sync_point("wait");
  if (q->fin && !q->done) { wait_for("MPI_Wait", [q]() { return q->ready(); }); q->fin(); q->done = true; }
  if (q->recv && !q->done) { if (q->src == MPI_PROC_NULL) q->done = true; else { wait_for("MPI_Wait", [q]() { return pending_for(q); }); try_recv(q); } }
  if (st != MPI_STATUS_IGNORE) *st = q->st; delete q; *r = MPI_REQUEST_NULL; return MPI_SUCCESS;
}
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* st) { for (int i = 0; i < n; i++) MPI_Wait(r + i, st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : st + i); return MPI_SUCCESS; }
int MPI_Recv(void* b, int n, MPI_Datatype dt, int src, int tag, MPI_Comm c, MPI_Status* st) { MPI_Request r; MPI_Irecv(b, n, dt, src, tag, c, &r); return MPI_Wait(&r, st); }
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype sd, int dst, int stag, void* rb, int rn, MPI_Datatype rdt, int src, int rtag, MPI_Comm c, MPI_Status* st) {
  MPI_Request a, b; MPI_Irecv(rb, rn, rdt, src, rtag, c, &a); MPI_Isend(sb, sn, sd, dst, stag, c, &b); MPI_Wait(&b, MPI_STATUS_IGNORE); return MPI_Wait(&a, st); }
int MPI_Get_count(const MPI_Status* st, MPI_Datatype d, int* n) { *n = st->_ucount / tsize(d); return MPI_SUCCESS; }

// ---- what a rewrite of the exchange might use ----
static MPI_Request pend(std::function<bool()> ready, std::function<void()> fin) { auto q = new simreq; memset(&q->st, 0, sizeof q->st); q->ready = ready; q->fin = fin; q->me = me(); return (MPI_Request)q; }
static std::function<bool()> everybody(long i) { return [i]() { return slots[i].narrived == N(); }; }
static void done_with(long i) { set_clock(me(), slots[i].tmax); leave(i); }
int MPI_Ibarrier(MPI_Comm c, MPI_Request* r) {
  enter_check("MPI_Ibarrier", c); long i; sync_point("ibarrier"); enter("ibarrier", -1, 0, nullptr, nullptr, i); *r = pend(everybody(i), [i]() { done_with(i); }); return MPI_SUCCESS; }
int MPI_Ibcast(void* b, int n, MPI_Datatype dt, int root, MPI_Comm c, MPI_Request* r) {
  enter_check("MPI_Ibcast", c); size_t by = (size_t)n * tsize(dt); long i; if (me() == root) rd("MPI_Ibcast", b, by, PC); else wr("MPI_Ibcast", b, by, PC);
  sync_point("ibcast"); Slot& s = enter("ibcast", root, by, dt, nullptr, i); if (me() == root) s.parts[root].data.assign((char*)b, (char*)b + by);
  bool rt = me() == root; *r = pend([i, root]() { return slots[i].parts[root].in; }, [i, root, b, by, rt]() { if (!rt) memcpy(b, slots[i].parts[root].data.data(), by); done_with(i); }); return MPI_SUCCESS; }
int MPI_Iallreduce(const void* sb, void* rb, int n, MPI_Datatype dt, MPI_Op op, MPI_Comm c, MPI_Request* r) {
  enter_check("MPI_Iallreduce", c); size_t by = (size_t)n * tsize(dt); long i; const void* src = sendptr(sb, rb); rd("MPI_Iallreduce", src, by, PC); wr("MPI_Iallreduce", rb, by, PC);
  sync_point("iallreduce"); Slot& s = enter("iallreduce", -1, by, dt, op, i); s.parts[me()].data.assign((char*)src, (char*)src + by);
  *r = pend(everybody(i), [i, rb]() { auto v = reduce_all(slots[i], i); memcpy(rb, v.data(), v.size()); done_with(i); }); return MPI_SUCCESS; }
int MPI_Ireduce(const void* sb, void* rb, int n, MPI_Datatype dt, MPI_Op op, int root, MPI_Comm c, MPI_Request* r) {
  enter_check("MPI_Ireduce", c); size_t by = (size_t)n * tsize(dt); long i; const void* src = sendptr(sb, rb); rd("MPI_Ireduce", src, by, PC); bool rt = me() == root; if (rt) wr("MPI_Ireduce", rb, by, PC);
  sync_point("ireduce"); Slot& s = enter("ireduce", root, by, dt, op, i); s.parts[me()].data.assign((char*)src, (char*)src + by);
  *r = pend(rt ? everybody(i) : []() { return true; }, [i, rb, rt]() { if (rt) { auto v = reduce_all(slots[i], i); memcpy(rb, v.data(), v.size()); } done_with(i); }); return MPI_SUCCESS; }
static int igather(const char* kind, int root, const void* sb, int sc, MPI_Datatype st, void* rb, int rc, MPI_Datatype rt, MPI_Request* r, const void* pc) {
  bool recv = root < 0 || me() == root; size_t by = recv ? (size_t)rc * tsize(rt) : (size_t)sc * tsize(st); const void* src = sb == MPI_IN_PLACE ? (char*)rb + me() * by : sb; long i;
  rd(kind, src, by, pc); if (recv) wr(kind, rb, by * N(), pc);
  sync_point(kind); Slot& s = enter(kind, root, by, nullptr, nullptr, i); s.parts[me()].data.assign((char*)src, (char*)src + by);
  *r = pend(recv ? everybody(i) : []() { return true; }, [i, rb, by, recv]() { if (recv) for (int k = 0; k < N(); k++) memcpy((char*)rb + k * by, slots[i].parts[k].data.data(), by); done_with(i); }); return MPI_SUCCESS; }
int MPI_Iallgather(const void* sb, int sc, MPI_Datatype st, void* rb, int rc, MPI_Datatype rt, MPI_Comm c, MPI_Request* r) { enter_check("MPI_Iallgather", c); return igather("MPI_Iallgather", -1, sb, sc, st, rb, rc, rt, r, PC); }
int MPI_Igather(const void* sb, int sc, MPI_Datatype st, void* rb, int rc, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request* r) { enter_check("MPI_Igather", c); return igather("MPI_Igather", root, sb, sc, st, rb, rc, rt, r, PC); }
static int scanish(const char* kind, bool ex, const void* sb, void* rb, int n, MPI_Datatype dt, MPI_Op op, const void* pc) {
  size_t by = (size_t)n * tsize(dt); long i; const void* src = sendptr(sb, rb); rd(kind, src, by, pc); wr(kind, rb, by, pc);
  sync_point(kind); Slot& s = enter(kind, -1, by, dt, op, i); s.parts[me()].data.assign((char*)src, (char*)src + by); int m = me();
  wait_for(kind, [&s, m]() { for (int k = 0; k <= m; k++) if (!s.parts[k].in) return false; return true; });
  int last = ex ? m - 1 : m; if (last >= 0) { std::vector<char> acc = s.parts[0].data; for (int k = 1; k <= last; k++) combine(acc, s.parts[k].data, dt, op); memcpy(rb, acc.data(), by); }
  leave(i); return MPI_SUCCESS; }
int MPI_Scan(const void* sb, void* rb, int n, MPI_Datatype dt, MPI_Op op, MPI_Comm c) { enter_check("MPI_Scan", c); return scanish("MPI_Scan", false, sb, rb, n, dt, op, PC); }
int MPI_Exscan(const void* sb, void* rb, int n, MPI_Datatype dt, MPI_Op op, MPI_Comm c) { enter_check("MPI_Exscan", c); return scanish("MPI_Exscan", true, sb, rb, n, dt, op, PC); }
int MPI_Reduce_scatter(const void* sb, void* rb, const int* rc, MPI_Datatype dt, MPI_Op op, MPI_Comm c) {
  enter_check("MPI_Reduce_scatter", c); size_t ts = tsize(dt), by = 0, off = 0; for (int k = 0; k < N(); k++) { if (k == me()) off = by; by += rc[k] * ts; } long i; const void* src = sendptr(sb, rb);
  rd("MPI_Reduce_scatter", src, by, PC); wr("MPI_Reduce_scatter", rb, rc[me()] * ts, PC); sync_point("reduce_scatter"); Slot& s = enter("reduce_scatter", -1, by, dt, op, i);
  s.parts[me()].data.assign((char*)src, (char*)src + by); wait_all(i, "MPI_Reduce_scatter"); auto v = reduce_all(s, i); memcpy(rb, v.data() + off, rc[me()] * ts); leave(i); return MPI_SUCCESS; }
int MPI_Reduce_scatter_block(const void* sb, void* rb, int n, MPI_Datatype dt, MPI_Op op, MPI_Comm c) { std::vector<int> rc(N(), n); return MPI_Reduce_scatter(sb, rb, rc.data(), dt, op, c); }
static int a2a(const char* kind, const void* sb, const int* sc, int sc1, const int* sd, MPI_Datatype st, void* rb, const int* rc, int rc1, const int* rdp, MPI_Datatype rt, const void* pc) {
  size_t a = tsize(st), b = tsize(rt); long i; auto so = [&](int k) { return (sd ? (size_t)sd[k] : (size_t)k * sc1) * a; }; auto sn = [&](int k) { return (size_t)(sc ? sc[k] : sc1) * a; };
  auto ro = [&](int k) { return (rdp ? (size_t)rdp[k] : (size_t)k * rc1) * b; }; auto rn = [&](int k) { return (size_t)(rc ? rc[k] : rc1) * b; };
  sync_point(kind); Slot& s = enter(kind, -1, 0, nullptr, nullptr, i); std::vector<char>& d = s.parts[me()].data; const char* base = sb == MPI_IN_PLACE ? (const char*)rb : (const char*)sb;
  for (int k = 0; k < N(); k++) { size_t n = sb == MPI_IN_PLACE ? rn(k) : sn(k); const char* p = base + (sb == MPI_IN_PLACE ? ro(k) : so(k)); rd(kind, p, n, pc); d.insert(d.end(), (char*)&n, (char*)&n + sizeof n); d.insert(d.end(), p, p + n); }
  wait_all(i, kind);
  for (int r = 0; r < N(); r++) { std::vector<char>& x = s.parts[r].data; size_t pos = 0, n = 0; for (int k = 0; k <= me(); k++) { memcpy(&n, x.data() + pos, sizeof n); pos += sizeof n; if (k < me()) pos += n; }
    if (n != rn(r)) { std::string t = fmtb("%s: rank %d expects %zu bytes from rank %d which sends %zu", kind, me(), rn(r), r, n); violation("collective-mismatch", t); run_ends("mpi-error", t); }
    wr(kind, (char*)rb + ro(r), n, pc); memcpy((char*)rb + ro(r), x.data() + pos, n); }
  leave(i); return MPI_SUCCESS; }
int MPI_Alltoall(const void* sb, int sc, MPI_Datatype st, void* rb, int rc, MPI_Datatype rt, MPI_Comm c) { enter_check("MPI_Alltoall", c); return a2a("MPI_Alltoall", sb, nullptr, sc, nullptr, st, rb, nullptr, rc, nullptr, rt, PC); }
int MPI_Alltoallv(const void* sb, const int* sc, const int* sd, MPI_Datatype st, void* rb, const int* rc, const int* rdp, MPI_Datatype rt, MPI_Comm c) { enter_check("MPI_Alltoallv", c); return a2a("MPI_Alltoallv", sb, sc, 0, sd, st, rb, rc, 0, rdp, rt, PC); }
static bool is_ready(simreq* q) { return q->done || (q->fin ? q->ready() : q->recv ? q->src == MPI_PROC_NULL || pending_for(q) : true); }
int MPI_Test(MPI_Request* r, int* flag, MPI_Status* st) { poll_point("test"); if (*r == MPI_REQUEST_NULL) { *flag = 1; return MPI_SUCCESS; } *flag = is_ready((simreq*)*r); return *flag ? MPI_Wait(r, st) : MPI_SUCCESS; }
int MPI_Testall(int n, MPI_Request* r, int* flag, MPI_Status* st) { poll_point("test"); *flag = 1; for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL && !is_ready((simreq*)r[i])) *flag = 0; return *flag ? MPI_Waitall(n, r, st) : MPI_SUCCESS; }
int MPI_Waitany(int n, MPI_Request* r, int* idx, MPI_Status* st) {
  int any = 0; for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL) any = 1; if (!any) { *idx = MPI_UNDEFINED; return MPI_SUCCESS; }
  auto pick = [n, r]() { for (int i = 0; i < n; i++) if (r[i] != MPI_REQUEST_NULL && is_ready((simreq*)r[i])) return i; return -1; };
  wait_for("MPI_Waitany", [pick]() { return pick() >= 0; }); *idx = pick(); return MPI_Wait(r + *idx, st); }
int MPI_Request_free(MPI_Request* r) { *r = MPI_REQUEST_NULL; return MPI_SUCCESS; }
int MPI_Issend(const void* b, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm c, MPI_Request* r) { return MPI_Isend(b, n, dt, dst, tag, c, r); }
int MPI_Rsend(const void* b, int n, MPI_Datatype dt, int dst, int tag, MPI_Comm c) { return MPI_Send(b, n, dt, dst, tag, c); }
int MPI_Iprobe(int src, int tag, MPI_Comm c, int* flag, MPI_Status* st) {
  enter_check("MPI_Iprobe", c); poll_point("probe"); *flag = 0;
  for (auto& m : mail) if (m->dst == me() && (src == MPI_ANY_SOURCE || src == m->src) && (tag == MPI_ANY_TAG || tag == m->tag)) { *flag = 1; if (st != MPI_STATUS_IGNORE) { memset(st, 0, sizeof *st); st->MPI_SOURCE = m->src; st->MPI_TAG = m->tag; st->_ucount = m->data.size(); } break; }
  return MPI_SUCCESS; }
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status* st) {
  int f = 0; simreq q; q.recv = true; q.src = src; q.tag = tag; q.me = me(); simreq* p = &q; enter_check("MPI_Probe", c); wait_for("MPI_Probe", [p]() { return pending_for(p); }); return MPI_Iprobe(src, tag, c, &f, st); }
int MPI_Type_contiguous(int n, MPI_Datatype d, MPI_Datatype* out) { void* k = ::operator new(8); derived[k] = n * tsize(d); *out = (MPI_Datatype)k; return MPI_SUCCESS; }
int MPI_Type_commit(MPI_Datatype*) { return MPI_SUCCESS; }
int MPI_Type_free(MPI_Datatype* d) { derived.erase((void*)*d); *d = MPI_DATATYPE_NULL; return MPI_SUCCESS; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* out) { if (c == MPI_COMM_WORLD) MPI_Barrier(c); *out = c; return MPI_SUCCESS; }
int MPI_Comm_free(MPI_Comm* c) { *c = MPI_COMM_NULL; return MPI_SUCCESS; }
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int* r) { *r = a == b ? MPI_IDENT : MPI_UNEQUAL; return MPI_SUCCESS; }
int MPI_Query_thread(int* p) { *p = MPI_THREAD_FUNNELED; return MPI_SUCCESS; }
int MPI_Is_thread_main(int* f) { *f = !sim::in_parallel(); return MPI_SUCCESS; }
int MPI_Get_version(int* a, int* b) { *a = 3; *b = 1; return MPI_SUCCESS; }
int MPI_Get_library_version(char* s, int* l) { strcpy(s, "simulated"); *l = 9; return MPI_SUCCESS; }
int MPI_Comm_get_name(MPI_Comm, char* s, int* l) { strcpy(s, "MPI_COMM_WORLD"); *l = 14; return MPI_SUCCESS; }
}
