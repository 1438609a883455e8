// libgomp entry points and the memory-access callbacks of -fsanitize=thread, played by the simulator.
#include <cstring>
#include <cstdlib>
#include <map>
#include <string>
#include <memory>
#include <pthread.h>
#include "sim.h"
#include "fiber.h"
namespace sim {
void access(const void* p, size_t n, bool wr, const void* pc, bool atomic = false);
double clock_read(int rank);

struct WorkShare { bool init = false; long next = 0, end = 0, incr = 1, chunk = 1; int kind = 0; int done = 0; std::map<int,long> stat; void* copy = nullptr; bool copyset = false; bool ordered = false; long onext = 0; std::map<int, std::pair<long,long>> mine; };
struct Team {
  int n = 1, rank = 0; int arrived = 0; long gen = 0; std::map<long, WorkShare> ws; std::map<long, bool> single; int finished = 0; Team* parent = nullptr; uintptr_t frame = 0;
};
uintptr_t team_frame(Team* t) { return t ? t->frame : 0; }
bool in_parallel() { return cur() && cur()->parallel; }
static int want_threads() { int r = cur_rank(); if (r < 0) return 1; int n = plan.threads[(size_t)r % plan.threads.size()]; return n; }
static std::map<int, int> setthreads;

static void parallel(void (*fn)(void*), void* data, unsigned nt, const std::function<void(Team*)>& prep, void* frame) {
  Fiber* f = cur();
  Team* old = f->team; int oldws = f->wsidx, olds = f->singleidx, oldtid = f->tid; bool oldp = f->parallel;
  Team* t = new Team; t->rank = f->rank; t->parent = old; t->frame = (uintptr_t)frame;
  int n = nt ? (int)nt : (setthreads.count(f->rank) ? setthreads[f->rank] : want_threads());
  if (old && old->n > 1) n = 1; // nested parallelism is off by default
  if (n < 1) n = 1; if (n > 31) n = 31;
  t->n = n;
  if (prep) prep(t);
  count("omp.regions"); event("OMP", "parallel %d", n);
  if (n > 1) { race_epoch(); }
  f->team = t; f->wsidx = f->singleidx = 0; f->tid = 0; f->parallel = n > 1 || oldp;
  std::vector<Fiber*> kids;
  for (int i = 1; i < n; i++) {
    Fiber* k = new_fiber(f->rank, i, [fn, data, t]() { fn(data); t->finished++; event("OMP", "end"); });
    k->team = t; k->parallel = true; k->child = true; kids.push_back(k);
  }
  if (n > 1) sync_point("fork");
  fn(data);
  if (n > 1) { wait_for("end of the parallel region", [t, n]() { return t->finished == n - 1; }); }
  for (auto k : kids) { while (!k->done) sync_point("join"); release_fiber(k); }
  f->team = old; f->wsidx = oldws; f->singleidx = olds; f->tid = oldtid; f->parallel = oldp;
  if (n > 1) race_epoch();
  delete t;
}
static Team solo;
static Team* T() { Fiber* f = cur(); return f && f->team ? f->team : &solo; }
static void barrier() {
  Team* t = T(); if (t->n <= 1) return;
  long g = t->gen;
  if (++t->arrived == t->n) { t->arrived = 0; t->gen++; race_epoch(); sync_point("omp barrier"); }
  else wait_for("OpenMP barrier", [t, g]() { return t->gen != g; });
}
static WorkShare& newws(long& idx) { Fiber* f = cur(); Team* t = T(); idx = f ? f->wsidx++ : 0; return t->ws[idx]; }
static WorkShare& curws() { Fiber* f = cur(); return T()->ws[f->wsidx - 1]; }
enum { STATIC, DYNAMIC, GUIDED };
static void ws_init(WorkShare& w, long s, long e, long i, long c, int kind) { if (!w.init) { w.init = true; w.next = s; w.end = e; w.incr = i; w.chunk = c < 1 ? 1 : c; w.kind = kind; if (kind == STATIC && c <= 0) w.chunk = 0; } }
static bool ws_next(WorkShare& w, long* a, long* b) {
  Team* t = T(); if (t->n > 1) sync_point("omp chunk");
  long total = w.incr > 0 ? (w.end - w.next + w.incr - 1) / w.incr : (w.next - w.end - w.incr - 1) / -w.incr;
  if (w.kind == STATIC) {
    int tid = cur()->tid; long k = w.stat[tid]++;
    long c = w.chunk ? w.chunk : (total + t->n - 1) / t->n; if (c < 1) c = 1;
    if (!w.chunk && k > 0) return false;
    long lo = (k * t->n + tid) * c; if (lo >= total) return false; long hi = std::min(lo + c, total);
    *a = w.next + lo * w.incr; *b = w.next + hi * w.incr; return true;
  }
  if (total <= 0) return false;
  long c = w.kind == GUIDED ? std::max(w.chunk, total / (2 * t->n)) : w.chunk; if (c > total) c = total;
  *a = w.next; w.next += c * w.incr; *b = w.next; return true;
}
struct Lock { int owner = -1; long depth = 0; };
static std::map<std::string, Lock> locks;
static void lock(const std::string& k, bool nest = false) {
  Fiber* f = cur(); if (!f || f->rank < 0) return;
  Lock& l = locks[std::to_string(f->rank) + k];
  sync_point("lock");
  if (nest && l.owner == f->id) { l.depth++; return; }
  if (l.owner >= 0) wait_for("a lock", [&l]() { return l.owner < 0; });
  l.owner = f->id; l.depth = 1; f->locks++;
}
static void unlock(const std::string& k) {
  Fiber* f = cur(); if (!f || f->rank < 0) return;
  Lock& l = locks[std::to_string(f->rank) + k]; if (--l.depth > 0) return; l.owner = -1; f->locks--; sync_point("unlock");
}
} // namespace sim
using namespace sim;
#define PC __builtin_return_address(0)
#define FR __builtin_frame_address(0)
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { parallel(fn, d, n, nullptr, FR); }
static void ploop(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, int k, void* fr) {
  parallel([](void* q) { auto* z = (std::pair<void (*)(void*), void*>*)q; cur()->wsidx = 1; z->first(z->second); }, new std::pair<void (*)(void*), void*>(fn, d), n, [=](Team* t) { ws_init(t->ws[0], s, e, i, c, k); }, fr);
}
void GOMP_parallel_loop_static(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { ploop(fn, d, n, s, e, i, c, STATIC, FR); }
void GOMP_parallel_loop_dynamic(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { ploop(fn, d, n, s, e, i, c, DYNAMIC, FR); }
void GOMP_parallel_loop_guided(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { ploop(fn, d, n, s, e, i, c, GUIDED, FR); }
void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { ploop(fn, d, n, s, e, i, c, DYNAMIC, FR); }
void GOMP_parallel_loop_nonmonotonic_guided(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { ploop(fn, d, n, s, e, i, c, GUIDED, FR); }
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { ploop(fn, d, n, s, e, i, 1, DYNAMIC, FR); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { ploop(fn, d, n, s, e, i, 1, DYNAMIC, FR); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { ploop(fn, d, n, s, e, i, 1, DYNAMIC, FR); }
void GOMP_barrier(void) { barrier(); }
#define LOOP(nm, kind) \
 bool GOMP_loop_##nm##_start(long s, long e, long i, long c, long* a, long* b) { long x; WorkShare& w = newws(x); ws_init(w, s, e, i, c, kind); return ws_next(w, a, b); } \
 bool GOMP_loop_##nm##_next(long* a, long* b) { return ws_next(curws(), a, b); } \
 bool GOMP_loop_ull_##nm##_start(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long c, unsigned long* a, unsigned long* b) { (void)up; long x; WorkShare& w = newws(x); ws_init(w, s, e, i, c, kind); return ws_next(w, (long*)a, (long*)b); } \
 bool GOMP_loop_ull_##nm##_next(unsigned long* a, unsigned long* b) { return ws_next(curws(), (long*)a, (long*)b); }
LOOP(static, STATIC) LOOP(dynamic, DYNAMIC) LOOP(guided, GUIDED) LOOP(nonmonotonic_dynamic, DYNAMIC) LOOP(nonmonotonic_guided, GUIDED)
#define RLOOP(nm) \
 bool GOMP_loop_##nm##_start(long s, long e, long i, long* a, long* b) { long x; WorkShare& w = newws(x); ws_init(w, s, e, i, 1, DYNAMIC); return ws_next(w, a, b); } \
 bool GOMP_loop_##nm##_next(long* a, long* b) { return ws_next(curws(), a, b); }
RLOOP(runtime) RLOOP(nonmonotonic_runtime) RLOOP(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { barrier(); }
void GOMP_loop_end_nowait(void) { if (T()->n > 1) sync_point("nowait"); }
unsigned GOMP_sections_start(unsigned n) { long x; WorkShare& w = newws(x); ws_init(w, 1, (long)n + 1, 1, 1, DYNAMIC); long a, b; return ws_next(w, &a, &b) ? a : 0; }
unsigned GOMP_sections_next(void) { long a, b; return ws_next(curws(), &a, &b) ? a : 0; }
void GOMP_sections_end(void) { barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned cnt, unsigned) { ploop(fn, d, n, 1, (long)cnt + 1, 1, 1, DYNAMIC, FR); }
bool GOMP_single_start(void) { Fiber* f = cur(); Team* t = T(); if (t->n <= 1) return true; sync_point("single"); bool& b = t->single[f->singleidx++]; if (b) return false; b = true; return true; }
void* GOMP_single_copy_start(void) { long x; WorkShare& w = newws(x); if (!w.init) { w.init = true; return nullptr; } wait_for("copyprivate", [&w]() { return w.copyset; }); barrier(); return w.copy; }
void GOMP_single_copy_end(void* d) { WorkShare& w = curws(); w.copy = d; w.copyset = true; barrier(); }
void GOMP_critical_start(void) { lock("c"); }
void GOMP_critical_end(void) { unlock("c"); }
void GOMP_critical_name_start(void** p) { lock("n" + std::to_string((uintptr_t)p)); }
void GOMP_critical_name_end(void** p) { unlock("n" + std::to_string((uintptr_t)p)); }
void GOMP_atomic_start(void) { lock("a"); }
void GOMP_atomic_end(void) { unlock("a"); }
// ordered loops: chunks get their turn in the order of the iterations
static void o_pass(WorkShare& w) { int t = cur()->tid; auto it = w.mine.find(t); if (it == w.mine.end()) return; long a = it->second.first; wait_for("ordered", [&w, a]() { return w.onext == a; }); w.onext = it->second.second; w.mine.erase(t); }
static bool o_next(WorkShare& w, long* a, long* b) { if (cur()) o_pass(w); if (!ws_next(w, a, b)) return false; w.mine[cur()->tid] = {*a, *b}; return true; }
static bool o_start(long s, long e, long i, long c, int kind, long* a, long* b) { long x; WorkShare& w = newws(x); if (!w.init) { w.ordered = true; w.onext = s; } ws_init(w, s, e, i, c, kind); return o_next(w, a, b); }
#define OLOOP(nm, kind) \
 bool GOMP_loop_ordered_##nm##_start(long s, long e, long i, long c, long* a, long* b) { return o_start(s, e, i, c, kind, a, b); } \
 bool GOMP_loop_ordered_##nm##_next(long* a, long* b) { return o_next(curws(), a, b); }
OLOOP(static, STATIC) OLOOP(dynamic, DYNAMIC) OLOOP(guided, GUIDED)
bool GOMP_loop_ordered_runtime_start(long s, long e, long i, long* a, long* b) { return o_start(s, e, i, 1, DYNAMIC, a, b); }
bool GOMP_loop_ordered_runtime_next(long* a, long* b) { return o_next(curws(), a, b); }
void GOMP_ordered_start(void) { if (T()->n <= 1) return; WorkShare& w = curws(); auto it = w.mine.find(cur()->tid); if (it == w.mine.end()) return; long a = it->second.first; wait_for("ordered", [&w, a]() { return w.onext == a; }); }
void GOMP_ordered_end(void) {}
void GOMP_task(void (*fn)(void*), void* d, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int, void*) {
  if (cpy) { char* b = (char*)malloc(sz + al); char* p = (char*)(((uintptr_t)b + al - 1) & ~(uintptr_t)(al - 1)); cpy(p, d); fn(p); free(b); } else fn(d); }
void GOMP_taskwait(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
int omp_get_max_threads(void) { int r = cur_rank(); return setthreads.count(r) ? setthreads[r] : want_threads(); }
void omp_set_num_threads(int n) { setthreads[cur_rank()] = n; }
int omp_get_num_threads(void) { return T()->n; }
int omp_get_thread_num(void) { return cur() && cur()->team ? cur()->tid : 0; }
int omp_get_num_procs(void) { return want_threads(); }
int omp_in_parallel(void) { return T()->n > 1; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
int omp_get_thread_limit(void) { return 31; }
int omp_get_level(void) { return T()->n > 1; }
void omp_set_nested(int) {}
double omp_get_wtime(void) { return clock_read(cur_rank()); }
void omp_init_lock(void** l) { *(int*)l = 0; }
void omp_destroy_lock(void**) {}
void omp_set_lock(void** l) { lock("o" + std::to_string((uintptr_t)l)); }
void omp_unset_lock(void** l) { unlock("o" + std::to_string((uintptr_t)l)); }
int omp_test_lock(void** l) { Fiber* f = cur(); if (!f || f->rank < 0) return 1; poll_point("test lock"); if (locks[std::to_string(f->rank) + "o" + std::to_string((uintptr_t)l)].owner >= 0) return 0; lock("o" + std::to_string((uintptr_t)l)); return 1; }
int omp_get_max_active_levels(void) { return 1; }
void omp_set_max_active_levels(int) {}
int omp_get_team_size(int l) { return l <= 0 ? 1 : T()->n; }
int omp_get_ancestor_thread_num(int l) { return l <= 0 ? 0 : omp_get_thread_num(); }
int omp_get_active_level(void) { return T()->n > 1; }
int omp_get_nested(void) { return 0; }
double omp_get_wtick(void) { return 1e-9; }
void omp_set_schedule(int, int) {}
void omp_get_schedule(int* k, int* c) { *k = 2; *c = 1; }
// mutexes and the guards of local statics: all threads of a node live in one system thread here
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { lock("m" + std::to_string((uintptr_t)m)); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { unlock("m" + std::to_string((uintptr_t)m)); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { Fiber* f = cur(); if (!f || f->rank < 0) return 0; if (locks[std::to_string(f->rank) + "m" + std::to_string((uintptr_t)m)].owner >= 0) return 16; lock("m" + std::to_string((uintptr_t)m)); return 0; }
int __cxa_guard_acquire(char* g) { if (*g) return 0; Fiber* f = cur(); if (g[1] && f && f->rank >= 0) wait_for("a static being initialised", [g]() { return *g || !g[1]; }); if (*g) return 0; g[1] = 1; return 1; }
void __cxa_guard_release(char* g) noexcept { g[1] = 0; g[0] = 1; }
void __cxa_guard_abort(char* g) noexcept { g[1] = 0; }
void omp_init_nest_lock(void**) {}
void omp_destroy_nest_lock(void**) {}
void omp_set_nest_lock(void** l) { lock("o" + std::to_string((uintptr_t)l), true); }
void omp_unset_nest_lock(void** l) { unlock("o" + std::to_string((uintptr_t)l)); }

// ------------------------------------------------------------------ instrumented memory accesses
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define RW(n) \
 void __tsan_read##n(void* p) { access(p, n, false, PC); } \
 void __tsan_write##n(void* p) { access(p, n, true, PC); } \
 void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
 void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
 void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } \
 void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); } \
 void __tsan_read##n##_pc(void* p, void* pc) { access(p, n, false, pc); } \
 void __tsan_write##n##_pc(void* p, void* pc) { access(p, n, true, pc); } \
 void __tsan_read_write##n(void* p) { access(p, n, false, PC); access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { if (n) access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { if (n) access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
#define AT(b, T) \
 T __tsan_atomic##b##_load(const volatile T* p, int) { access((void*)p, sizeof(T), false, PC, true); return *p; } \
 void __tsan_atomic##b##_store(volatile T* p, T v, int) { access((void*)p, sizeof(T), true, PC, true); *p = v; } \
 T __tsan_atomic##b##_exchange(volatile T* p, T v, int) { access((void*)p, sizeof(T), true, PC, true); T o = *p; *p = v; return o; } \
 T __tsan_atomic##b##_fetch_add(volatile T* p, T v, int) { access((void*)p, sizeof(T), true, PC, true); T o = *p; *p = o + v; return o; } \
 T __tsan_atomic##b##_fetch_sub(volatile T* p, T v, int) { access((void*)p, sizeof(T), true, PC, true); T o = *p; *p = o - v; return o; } \
 T __tsan_atomic##b##_fetch_and(volatile T* p, T v, int) { access((void*)p, sizeof(T), true, PC, true); T o = *p; *p = o & v; return o; } \
 T __tsan_atomic##b##_fetch_or(volatile T* p, T v, int) { access((void*)p, sizeof(T), true, PC, true); T o = *p; *p = o | v; return o; } \
 T __tsan_atomic##b##_fetch_xor(volatile T* p, T v, int) { access((void*)p, sizeof(T), true, PC, true); T o = *p; *p = o ^ v; return o; } \
 T __tsan_atomic##b##_fetch_nand(volatile T* p, T v, int) { access((void*)p, sizeof(T), true, PC, true); T o = *p; *p = ~(o & v); return o; } \
 int __tsan_atomic##b##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { access((void*)p, sizeof(T), true, PC, true); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
 int __tsan_atomic##b##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { access((void*)p, sizeof(T), true, PC, true); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
 T __tsan_atomic##b##_compare_exchange_val(volatile T* p, T c, T v, int, int) { access((void*)p, sizeof(T), true, PC, true); T o = *p; if (o == c) *p = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
