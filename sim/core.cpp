// Scheduler, fibers, plan and result handling of the TEUFEL simulator.
#include "sim.h"
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <csignal>
#include <cerrno>
#include <algorithm>
#include <set>
#include <iostream>
#include <fstream>
#include <sstream>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <dlfcn.h>
#include <link.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include "fiber.h"

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

namespace sim {

Plan plan;
bool active = false;

uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t x = a + 0x9E3779B97F4A7C15ull * (b + 1);
  x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27; x *= 0x94D049BB133111EBull; x ^= x >> 31; return x;
}
uint64_t hash4(uint64_t s, uint64_t st, uint64_t a, uint64_t b) { return mix(mix(mix(s, st), a), b); }
double u01(uint64_t h) { return (h >> 11) * (1.0 / 9007199254740992.0); }

const char* fmtb(const char* f, ...) {
  static char buf[8][2048]; static int k = 0; k = (k + 1) & 7;
  va_list ap; va_start(ap, f); vsnprintf(buf[k], sizeof buf[k], f, ap); va_end(ap); return buf[k];
}

// ------------------------------------------------------------------ ranks
struct RankState {
  int id = 0;
  void* handle = nullptr;
  uintptr_t base = 0, end = 0;
  int (*entry)(int, char**) = nullptr;
  std::string status = "running"; // running returned exited exception crashed killed
  int code = 0;
  std::string text;
  double clock = 0;
  long events = 0;
  bool dead = false;
  std::ios_base::fmtflags flags{}; std::streamsize prec = 6, width = 0; char fill = ' ';
};
static std::vector<RankState> ranks;
static std::vector<Fiber*> fibers;
static Fiber* current = nullptr;
static Fiber* mainfiber = nullptr;
Fiber* cur() { return current; }

int cur_rank() { return current ? current->rank : -1; }
double rank_clock(int r) { return (r >= 0 && r < (int)ranks.size()) ? ranks[r].clock : 0; }
void advance_clock(int r, double dt) { if (r >= 0) ranks[r].clock += dt; }
void set_clock(int r, double t) { if (r >= 0 && ranks[r].clock < t) ranks[r].clock = t; }

struct Mapped { uintptr_t a, b; std::string name; bool rankcode; };
static std::vector<Mapped> maps;
bool in_rank_code(const void* pc) {
  uintptr_t p = (uintptr_t)pc;
  for (auto& r : ranks) if (p >= r.base && p < r.end) return true;
  return false;
}
uint64_t rel_pc(const void* pc) {
  uintptr_t p = (uintptr_t)pc;
  for (auto& r : ranks) if (p >= r.base && p < r.end) return p - r.base;
  return 0;
}
std::string pcname(const void* pc) { return fmtb("+0x%lx", (unsigned long)rel_pc(pc)); }

// ------------------------------------------------------------------ log
static std::string evlog;
static uint64_t evhash = 1469598103934665603ull, schedsig = 1469598103934665603ull;
static long nevents = 0;
long ev_count() { return nevents; }
static void h(uint64_t& s, const char* p, size_t n) { for (size_t i = 0; i < n; i++) { s ^= (unsigned char)p[i]; s *= 1099511628211ull; } }
static std::map<std::string, long> counters;
void count(const std::string& w, long n) { counters[w] += n; }
long counter(const std::string& w) { return counters[w]; }
static std::vector<std::pair<std::string, std::string>> violations;
static std::string console;             // what has been flushed
static std::string pending[64];
static std::vector<std::string> announce; // not used by oracles, kept for debugging

void violation(const char* kind, const std::string& text) {
  if (violations.size() < 20) violations.push_back({kind, text});
  event("VIOL", "%s %s", kind, text.c_str());
}

static void kill_check();
void event(const char* kind, const char* f, ...) {
  char b[1024]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  int r = cur_rank(), t = current ? current->tid : -1;
  char head[64]; int hn = snprintf(head, sizeof head, "%d.%d %s ", r, t, kind);
  h(evhash, head, hn); h(evhash, b, n);
  nevents++;
  if (plan.trace) { evlog.append(fmtb("%ld ", nevents)); evlog.append(head, hn); evlog.append(b, n); evlog.push_back('\n'); }
}

// ------------------------------------------------------------------ result
static std::string esc(const std::string& s) {
  std::string o; for (char c : s) { if (c == '\n') o += "\\n"; else if (c == '\\') o += "\\\\"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o;
}
static std::vector<std::pair<long, int>> slog, plog;
static std::set<uint64_t> racepcs_found;
static std::vector<std::string> raceinfo;
static long nsync = 0, npar = 0, nswitch = 0, npreempt = 0;
static uint64_t steps = 0;
static bool finished_writing = false;
static void write_result(const char* outcome, const std::string& text) {
  if (finished_writing) return; finished_writing = true;
  bool was = active; active = false;
  int fd = syscall(SYS_openat, AT_FDCWD, plan.result.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
  FILE* f = fd >= 0 ? fdopen(fd, "w") : nullptr;
  if (!f) _exit(97);
  fprintf(f, "outcome %s\n", outcome);
  fprintf(f, "text %s\n", esc(text).c_str());
  for (auto& r : ranks) fprintf(f, "rank %d %s %d %.9g %ld %s\n", r.id, r.status.c_str(), r.code, r.clock, r.events, esc(r.text).c_str());
  fprintf(f, "hash %016lx\n", (unsigned long)evhash);
  fprintf(f, "schedsig %016lx\n", (unsigned long)schedsig);
  fprintf(f, "n events %ld\nn sync %ld\nn par %ld\nn switch %ld\nn preempt %ld\nn steps %lu\n", nevents, nsync, npar, nswitch, npreempt, (unsigned long)steps);
  for (auto& c : counters) fprintf(f, "n %s %ld\n", c.first.c_str(), c.second);
  for (auto& v : violations) fprintf(f, "viol %s %s\n", v.first.c_str(), esc(v.second).c_str());
  bool list = slog.size() + plog.size() <= 300000; // longer lists are left to the generator the plan names
  if (list) for (auto& d : slog) fprintf(f, "sd %ld %d\n", d.first, d.second);
  if (list) for (auto& d : plog) fprintf(f, "pd %ld %d\n", d.first, d.second);
  for (auto p : racepcs_found) fprintf(f, "racepc %lx\n", (unsigned long)p);
  for (auto& s : raceinfo) fprintf(f, "race %s\n", s.c_str());
  io_report(f);
  fprintf(f, "console %zu\n", console.size());
  fwrite(console.data(), 1, console.size(), f);
  fprintf(f, "\nlog %zu\n", evlog.size());
  fwrite(evlog.data(), 1, evlog.size(), f);
  fprintf(f, "\nend\n");
  fclose(f);
  active = was;
}
void run_ends(const char* outcome, const std::string& text) {
  write_result(outcome, text);
  _exit(0);
}

// ------------------------------------------------------------------ console
struct RankBuf : std::streambuf {
  int overflow(int c) override {
    if (c == EOF) return 0;
    int r = cur_rank(); if (r < 0) return c;
    pending[r].push_back((char)c);
    if (pending[r].size() >= 1023) flush(r);
    return c;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override { for (std::streamsize i = 0; i < n; i++) overflow((unsigned char)s[i]); return n; }
  int sync() override { int r = cur_rank(); if (r >= 0) flush(r); return 0; }
  static void flush(int r) {
    if (pending[r].empty()) return;
    if (console.size() < (4u << 20)) {
      // one record per flush: rank tag at the begin of every line
      static std::string partial[64];
      partial[r] += pending[r];
      size_t p;
      while ((p = partial[r].find('\n')) != std::string::npos) {
        console += fmtb("%d@%ld|", r, nevents); console.append(partial[r], 0, p + 1); partial[r].erase(0, p + 1);
      }
    }
    pending[r].clear();
  }
};
static RankBuf rankbuf;

// ------------------------------------------------------------------ fibers
extern "C" void teusim_switch(void** save_sp, void* load_sp);
asm(R"(
.text
.globl teusim_switch
.type teusim_switch,@function
teusim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8, %rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  fldcw 4(%rsp)
  ldmxcsr (%rsp)
  addq $8, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.globl teusim_trampoline
teusim_trampoline:
  .cfi_startproc
  .cfi_undefined rip
  xorl %ebp, %ebp
  callq teusim_fiber_main
  ud2
  .cfi_endproc
)");
extern "C" void teusim_trampoline();
extern "C" void teusim_fiber_main() {
  Fiber* f = current;
  f->entry();
  f->done = true;
  // never returns: pick somebody else
  extern void leave_forever(); leave_forever();
  abort();
}

static const size_t STACK = 4u << 20;
static std::vector<char*> stackpool;
void fill_region(char* p, size_t n, uint64_t salt) {
  if (plan.fill == 0) memset(p, 0, n);
  else if (plan.fill == 1) memset(p, 0xFF, n);
  else { uint64_t* q = (uint64_t*)p; for (size_t i = 0; i < n / 8; i++) q[i] = mix(plan.seed ^ salt, i); for (size_t i = n & ~7ull; i < n; i++) p[i] = (char)i; }
}
static int next_fiber_id = 0;
Fiber* new_fiber(int rank, int tid, std::function<void()> entry) {
  Fiber* f = new Fiber;
  f->rank = rank; f->tid = tid; f->entry = std::move(entry); f->id = next_fiber_id++;
  if (stackpool.empty()) {
    char* m = (char*)mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) run_ends("harness-error", "no memory for a fiber stack");
    mprotect(m, 4096, PROT_NONE);
    stackpool.push_back(m + 4096);
  }
  f->stack = stackpool.back(); stackpool.pop_back(); f->ssize = STACK;
  fill_region(f->stack + STACK - (64 << 10), 64 << 10, 0x57ac);
  char* top = f->stack + STACK; top -= 64; top = (char*)((uintptr_t)top & ~63ull);
  void** sp = (void**)top;
  *--sp = (void*)teusim_trampoline;
  for (int i = 0; i < 6; i++) *--sp = nullptr;
  --sp; ((uint32_t*)sp)[0] = 0x1f80; ((uint16_t*)sp)[2] = 0x37f;
  f->sp = sp;
  fibers.push_back(f);
  return f;
}
static void reap(Fiber* f) { // f has finished and is not current
  stackpool.push_back(f->stack);
  fibers.erase(std::find(fibers.begin(), fibers.end(), f));
  delete f;
}
void release_fiber(Fiber* f) { reap(f); }

static void save_eh(Fiber* f) { memcpy(f->eh, (void*)__cxxabiv1::__cxa_get_globals(), 16); }
static void load_eh(Fiber* f) { memcpy((void*)__cxxabiv1::__cxa_get_globals(), f->eh, 16); }

static void switch_to(Fiber* f) {
  if (f == current) return;
  nswitch++;
  Fiber* old = current;
  save_eh(old); old->err = errno;
  if (old->rank != f->rank) {
    if (old->rank >= 0) { auto& r = ranks[old->rank]; r.flags = std::cout.flags(); r.prec = std::cout.precision(); r.width = std::cout.width(); r.fill = std::cout.fill(); }
    if (f->rank >= 0) { auto& r = ranks[f->rank]; std::cout.flags(r.flags); std::cout.precision(r.prec); std::cout.width(r.width); std::cout.fill(r.fill); }
  }
  current = f;
  load_eh(f);
  teusim_switch(&old->sp, f->sp);
  errno = current->err;
}

static bool runnable(Fiber* f) {
  if (f->done) return false;
  if (f->rank >= 0 && ranks[f->rank].dead) return false;
  if (f->waiting) { if (f->ready()) { return true; } return false; }
  return true;
}

// ---------------------------------------------------------------- decisions
static bool aborting = false; static long abort_left = 0;
static void job_over_if_done() {
  bool alldone = true; for (auto& r : ranks) if (!r.dead) alldone = false;
  if (!alldone) return;
  bool ok = true; for (auto& r : ranks) if (r.status != "returned" || r.code != 0) ok = false;
  mem_final_check();
  run_ends(ok ? "ok" : "failed", "");
}
static void abort_job() {
  for (auto& r : ranks) if (!r.dead) { r.dead = true; r.status = "killed"; pending[r.id].clear(); }
  mem_final_check();
  run_ends("failed", "job aborted");
}

static Fiber* choose(bool cur_ok, const char* kind, bool rotate = false) {
  // candidates in a fixed order: fiber id
  static std::vector<Fiber*> c; c.clear();
  for (auto f : fibers) if (runnable(f)) c.push_back(f);
  if (c.empty()) return nullptr;
  long idx = nsync++;
  if (nsync == 4000000) run_ends("hang", "4 million scheduling decisions and no end");
  Fiber* def = (cur_ok && std::find(c.begin(), c.end(), current) != c.end()) ? current : c[0];
  Fiber* pick = def;
  if (plan.replay) {
    auto it = plan.sdec.find(idx);
    if (it != plan.sdec.end()) for (auto f : c) if (f->id == it->second) pick = f;
  } else if (rotate) {
    // somebody polls for something: everybody else gets a turn, however unfair the schedule is
    size_t k = 0; while (k < c.size() && c[k]->id <= current->id) k++;
    pick = c[k % c.size()];
    if (pick != def) slog.push_back({idx, pick->id});
  } else if (c.size() > 1) {
    uint64_t r = hash4(plan.sched, 11, idx, 0);
    if (plan.straggler >= 0) {
      // a slow node: runs only if nobody else can
      std::vector<Fiber*> o; for (auto f : c) if (f->rank != plan.straggler) o.push_back(f);
      if (!o.empty()) { if (def->rank == plan.straggler || u01(r) < plan.psw) pick = o[mix(r, 1) % o.size()]; }
      else if (u01(r) < plan.psw) pick = c[mix(r, 1) % c.size()];
    } else if (def != current || u01(r) < plan.psw) {
      if (plan.psw > 0) pick = c[mix(r, 1) % c.size()];
    }
    if (pick != def) slog.push_back({idx, pick->id});
  }
  char b[32]; int n = snprintf(b, sizeof b, "%d,", pick->id); h(schedsig, b, n);
  return pick;
}

static void report_deadlock() {
  std::string s;
  for (auto f : fibers) if (!f->done && !(f->rank >= 0 && ranks[f->rank].dead)) s += fmtb("[rank %d thread %d waits for %s] ", f->rank, f->tid, f->what ? f->what : "?");
  for (auto& r : ranks) if (r.dead) s += fmtb("[rank %d %s] ", r.id, r.status.c_str());
  run_ends("deadlock", s);
}

static void kill_check() {
  if (!active) return;
  int r = cur_rank();
  if (r >= 0) {
    ranks[r].events++;
    if (plan.rankkill == r && ranks[r].events == plan.rankkillat) {
      count("fault.nodekill"); event("KILL", "rank %d", r);
      rank_dies("killed", 137, "simulated node failure");
    }
  }
  if (plan.killat >= 0 && nevents >= plan.killat) { extern void kill_now(); kill_now(); }
  if (aborting && --abort_left <= 0) abort_job();
}
void kill_now() {
  count("fault.jobkill");
  for (auto& x : ranks) if (!x.dead) { x.status = "killed"; x.code = 137; }
  run_ends("killed", "simulated kill of the job");
}
void io_rank_exit(int rank);
extern sigjmp_buf exit_jump; extern int exit_jump_set;

void sync_point(const char* kind) {
  if (!active || !current || current->rank < 0) return;
  kill_check();
  Fiber* f = choose(true, kind);
  if (!f) { report_deadlock(); }
  f->waiting = false;
  switch_to(f);
}
void poll_point(const char* kind) {
  if (!active || !current || current->rank < 0) return;
  if (++current->polls < 20) { sync_point(kind); return; }
  kill_check();
  Fiber* f = choose(true, kind, true);
  f->waiting = false;
  switch_to(f);
}
void wait_for(const char* what, const std::function<bool()>& ready) {
  kill_check(); current->polls = 0;
  current->what = what; current->ready = ready; current->waiting = true;
  Fiber* f = choose(false, what);
  if (!f) { if (aborting) abort_job(); report_deadlock(); }
  f->waiting = false;
  switch_to(f);
  current->waiting = false; current->what = nullptr;
}
void leave_forever() {
  if (current->rank >= 0 && current->tid == 0 && !current->child) { /* rank main handled in rank_dies */ }
  Fiber* f = choose(false, "end");
  if (!f) { job_over_if_done(); if (aborting) abort_job(); report_deadlock(); }
  f->waiting = false;
  switch_to(f);
  abort();
}
}
extern "C" void h5_rank_gone(int rank);
// mpi.cpp
namespace simmpi { bool finalized(int rank); bool initialized(int rank); }
namespace sim {
void rank_dies(const char* how, int code, const std::string& text) {
  int rk = cur_rank(); auto& r = ranks[rk];
  r.status = how; r.code = code; r.text = text; r.dead = true;
  if (strcmp(how, "returned") == 0 || strcmp(how, "exited") == 0) { RankBuf::flush(rk); r.dead = false; io_rank_exit(rk); r.dead = true; }
  else if (strcmp(how, "killed") == 0) pending[rk].clear();
  else pending[rk].clear();
  ::h5_rank_gone(rk);
  event("END", "%s %d %s", how, code, text.c_str());
  bool clean = (strcmp(how, "returned") == 0 || strcmp(how, "exited") == 0) && (plan.prog != "teufel" || simmpi::finalized(rk) || !simmpi::initialized(rk)) && code == 0;
  if (!clean && !aborting) { aborting = true; abort_left = plan.abortdelay; }
  job_over_if_done();
  Fiber* f = choose(false, "dead");
  if (!f) { if (aborting) abort_job(); report_deadlock(); }
  f->waiting = false;
  switch_to(f);
  abort();
}

// ---------------------------------------------------------------- preemption inside parallel regions
// called for every instrumented memory access
struct RaceCell { uintptr_t a; uint32_t rd; int16_t w; uint8_t wm, rm; uint64_t wpc, rpc; uint32_t ep; };
static RaceCell* rtab = nullptr; static const size_t RT = 1 << 18; static uint32_t repoch = 1;
void race_epoch() { repoch++; }
static void race_access(uintptr_t a, size_t n, bool wr, const void* pc) {
  if (!rtab) rtab = (RaceCell*)calloc(RT, sizeof(RaceCell));
  if (current->locks) return;
  for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++) {
    uint8_t m = 0; for (int b = 0; b < 8; b++) { uintptr_t x = (g << 3) + b; if (x >= a && x < a + n) m |= 1 << b; }
    size_t i = mix(g, 7) & (RT - 1); int tries = 0;
    while (rtab[i].ep == repoch && rtab[i].a != g && tries < 16) { i = (i + 1) & (RT - 1); tries++; }
    RaceCell& c = rtab[i];
    if (c.ep != repoch || c.a != g) { c = RaceCell{g, 0, -1, 0, 0, 0, 0, repoch}; }
    int t = current->tid & 31; bool race = false; uint64_t opc = 0;
    if (c.w >= 0 && c.w != t && (c.wm & m)) { race = true; opc = c.wpc; }
    if (wr && (c.rd & ~(1u << t)) && (c.rm & m)) { race = true; opc = c.rpc; }
    if (race) {
      uint64_t p = rel_pc(pc);
      if (racepcs_found.size() < 400) {
        bool isnew = racepcs_found.insert(p).second; racepcs_found.insert(opc);
        if (isnew && raceinfo.size() < 20) raceinfo.push_back(fmtb("%lx %lx %s", (unsigned long)p, (unsigned long)opc, wr ? "w" : "r"));
      }
    }
    if (wr) { c.w = t; c.wm = m; c.wpc = rel_pc(pc); } else { c.rd |= 1u << t; c.rm |= m; c.rpc = rel_pc(pc); }
  }
}
static double pre_left = -1;
static uint64_t pre_n = 0;
static void do_preempt(const void* pc) {
  static std::vector<Fiber*> c; c.clear();
  for (auto f : fibers) if (f != current && f->rank == current->rank && runnable(f)) c.push_back(f);
  if (c.empty()) return;
  Fiber* f = c[mix(hash4(plan.sched, 13, pre_n++, 1), 3) % c.size()];
  plog.push_back({npar, f->id});
  npreempt++;
  char b[40]; int n = snprintf(b, sizeof b, "p%ld:%d,", npar, f->id); h(schedsig, b, n); h(evhash, b, n);
  f->waiting = false;
  switch_to(f);
}
static std::set<uint64_t> racepcset;
static bool have_racepcs = false;
uintptr_t team_frame(Team* t);
void access(const void* p, size_t n, bool wr, const void* pc, bool atomic) {
  steps++;
  if (!active) return;
  if (plan.memcheck) check_range(p, n, wr, "access", pc);
  if (!current || !current->parallel) {
    if (steps > (uint64_t)plan.budget) run_ends("hang", "step budget exceeded");
    return;
  }
  if (!atomic) { // private part of the own stack: nobody else can see it
    uintptr_t a = (uintptr_t)p;
    if (a >= (uintptr_t)current->stack && a < (uintptr_t)current->stack + current->ssize && (current->child || a < team_frame(current->team))) return;
  }
  npar++;
  if ((npar & 0xffff) == 0 && steps > (uint64_t)plan.budget) run_ends("hang", "step budget exceeded");
  if (plan.races && !atomic) race_access((uintptr_t)p, n, wr, pc);
  if (plan.replay) {
    if (!plan.pdec.empty()) {
      auto it = plan.pdec.find(npar);
      if (it != plan.pdec.end()) {
        for (auto f : fibers) if (f->id == it->second && f != current && f->rank == current->rank && runnable(f)) {
          npreempt++;
          char b[40]; int m = snprintf(b, sizeof b, "p%ld:%d,", npar, f->id); h(schedsig, b, m); h(evhash, b, m);
          f->waiting = false; switch_to(f); break;
        }
      }
    }
    return;
  }
  if (have_racepcs && racepcset.count(rel_pc(pc))) {
    if (u01(hash4(plan.sched, 17, npar, 0)) < plan.racep) { do_preempt(pc); return; }
  }
  if (plan.preempt > 0) {
    if (pre_left < 0) pre_left = -plan.preempt * log(1 - u01(hash4(plan.sched, 14, pre_n, 0)));
    pre_left -= 1;
    if (pre_left <= 0) { pre_left = -1; do_preempt(pc); if (pre_left < 0) { pre_n++; } }
  }
}

// ---------------------------------------------------------------- termination of rank code
static void on_terminate() {
  std::string t = "terminate";
  if (auto e = std::current_exception()) {
    try { std::rethrow_exception(e); }
    catch (const std::exception& x) { t = std::string("uncaught exception: ") + x.what(); }
    catch (...) { t = "uncaught exception of unknown type"; }
  }
  if (!active || !current || current->rank < 0) { fprintf(stderr, "simulator: %s\n", t.c_str()); _exit(98); }
  rank_dies("exception", 134, t);
}
static void on_signal(int sig) {
  if (exit_jump_set) { exit_jump_set = 0; siglongjmp(exit_jump, 1); }
  if (active && current && current->rank >= 0) {
    int rk = current->rank;
    ranks[rk].status = "crashed"; ranks[rk].code = 128 + sig; ranks[rk].dead = true;
    ranks[rk].text = fmtb("signal %d", sig);
    event("CRASH", "signal %d", sig);
    run_ends("crash", fmtb("rank %d signal %d", rk, sig));
  }
  _exit(96);
}
static void on_alarm(int) { run_ends("hang", "wall clock limit"); }

// ---------------------------------------------------------------- plan
static bool parse_plan(const std::string& path) {
  std::ifstream in(path); if (!in) return false;
  std::string line;
  plan = Plan();
  while (std::getline(in, line)) {
    std::istringstream s(line); std::string k; s >> k; if (k.empty() || k[0] == '#') continue;
    auto rest = [&]() { std::string r; std::getline(s, r); size_t p = r.find_first_not_of(' '); return p == std::string::npos ? std::string() : r.substr(p); };
    if (k == "dir") plan.dir = rest();
    else if (k == "result") plan.result = rest();
    else if (k == "prog") s >> plan.prog;
    else if (k == "arg") plan.args.push_back(rest());
    else if (k == "ranks") s >> plan.ranks;
    else if (k == "threads") { plan.threads.clear(); int t; while (s >> t) plan.threads.push_back(t); }
    else if (k == "seed") s >> plan.seed;
    else if (k == "sched") s >> plan.sched;
    else if (k == "replay") s >> plan.replay;
    else if (k == "psw") s >> plan.psw;
    else if (k == "preempt") s >> plan.preempt;
    else if (k == "straggler") s >> plan.straggler;
    else if (k == "races") s >> plan.races;
    else if (k == "racep") s >> plan.racep;
    else if (k == "racepc") { std::string x; while (s >> x) plan.racepcs.push_back(strtoull(x.c_str(), 0, 16)); }
    else if (k == "fill") s >> plan.fill;
    else if (k == "memcheck") s >> plan.memcheck;
    else if (k == "clockmode") s >> plan.clockmode;
    else if (k == "procmode") s >> plan.procmode;
    else if (k == "syncbcast") s >> plan.syncbcast;
    else if (k == "redorder") s >> plan.redorder;
    else if (k == "killat") s >> plan.killat;
    else if (k == "rankkill") s >> plan.rankkill >> plan.rankkillat;
    else if (k == "abortdelay") s >> plan.abortdelay;
    else if (k == "diskfull") s >> plan.diskfull;
    else if (k == "maxfd") s >> plan.maxfd;
    else if (k == "budget") s >> plan.budget;
    else if (k == "trace") s >> plan.trace;
    else if (k == "iotrace") s >> plan.iotrace;
    else if (k == "entropy") { uint64_t t; plan.entropy.clear(); while (s >> t) plan.entropy.push_back(t); }
    else if (k == "io") { IoFault f; int st; s >> f.op >> f.file >> f.nth >> f.err >> st >> f.shortto >> f.rank; f.sticky = st; plan.io.push_back(f); }
    else if (k == "alloc") { AllocFault a; s >> a.rank >> a.nth; plan.alloc.push_back(a); }
    else if (k == "sd") { long a; int b; s >> a >> b; plan.sdec[a] = b; }
    else if (k == "pd") { long a; int b; s >> a >> b; plan.pdec[a] = b; }
    else { fprintf(stderr, "unknown plan key %s\n", k.c_str()); return false; }
  }
  if (plan.threads.empty()) plan.threads.push_back(1);
  return !plan.dir.empty() && !plan.result.empty() && plan.ranks >= 1 && plan.ranks <= 34;
}

// ---------------------------------------------------------------- libraries
struct Lib { void* h; uintptr_t a, b; int (*entry)(int, char**); };
static std::vector<Lib> teufel_libs;
static std::string libdir;
static Lib load_lib(const std::string& p) {
  Lib l{};
  l.h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!l.h) { fprintf(stderr, "dlopen %s: %s\n", p.c_str(), dlerror()); _exit(95); }
  l.entry = (int (*)(int, char**))dlsym(l.h, "teusim_entry");
  if (!l.entry) { fprintf(stderr, "%s has no entry\n", p.c_str()); _exit(95); }
  struct link_map* lm; dlinfo(l.h, RTLD_DI_LINKMAP, &lm);
  struct Q { uintptr_t base, end; } q{lm->l_addr, lm->l_addr};
  dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void* d) {
    Q* q = (Q*)d; if (i->dlpi_addr != q->base) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) { uintptr_t e = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz; if (e > q->end) q->end = e; }
    return 0; }, &q);
  l.a = q.base; l.b = q.end;
  return l;
}

static void start_run() {
  std::vector<Lib> libs;
  if (plan.prog == "teufel") {
    for (int i = 0; i < plan.ranks; i++) {
      if (i < (int)teufel_libs.size()) libs.push_back(teufel_libs[i]);
      else libs.push_back(load_lib(libdir + fmtb("/teufel.%d.so", i)));
    }
  } else { plan.ranks = 1; libs.push_back(load_lib(libdir + "/" + plan.prog + ".0.so")); }
  if (chdir(plan.dir.c_str())) { fprintf(stderr, "chdir %s failed\n", plan.dir.c_str()); _exit(95); }
  for (auto p : plan.racepcs) racepcset.insert(p);
  have_racepcs = !racepcset.empty();
  ranks.resize(plan.ranks);
  for (int i = 0; i < plan.ranks; i++) {
    auto& r = ranks[i]; r.id = i; r.handle = libs[i].h; r.base = libs[i].a; r.end = libs[i].b; r.entry = libs[i].entry;
    r.flags = std::cout.flags(); r.fill = ' ';
    r.clock = 1.7e9;
  }
  std::cout.rdbuf(&rankbuf);
  std::set_terminate(on_terminate);
  static char alt[1 << 16]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
  struct sigaction sb{}; sb.sa_handler = on_alarm; sb.sa_flags = SA_ONSTACK; sigaction(SIGALRM, &sb, nullptr);
  alarm(30);
  mem_init();
  mainfiber = new Fiber; mainfiber->rank = -1; mainfiber->tid = 0; mainfiber->id = -1; mainfiber->done = true;
  current = mainfiber;
  for (int i = 0; i < plan.ranks; i++) {
    new_fiber(i, 0, [i]() {
      static std::vector<char*> argv[64];
      auto& v = argv[i];
      v.push_back(strdup(plan.prog.c_str()));
      for (auto& a : plan.args) v.push_back(strdup(a.c_str()));
      v.push_back(nullptr);
      int rc = ranks[i].entry((int)v.size() - 1, v.data());
      rank_dies("returned", rc, "");
    });
  }
  active = true;
  Fiber* f = choose(false, "start");
  switch_to(f);
}

} // namespace sim

using namespace sim;

static int run_child(const std::string& planpath) {
  if (!parse_plan(planpath)) { fprintf(stderr, "bad plan %s\n", planpath.c_str()); return 94; }
  start_run();
  return 93;
}

int main(int argc, char** argv) {
  // fixed addresses: the run must be a pure function of the plan
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
    if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1 && !getenv("TEUSIM_REEXEC")) {
      setenv("TEUSIM_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  if (argc < 3) { fprintf(stderr, "usage: teusim LIBDIR PLAN | teusim LIBDIR --serve\n"); return 2; }
  libdir = argv[1];
  struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
  { volatile double x = 1.0; x = pow((double)x, 2.0); (void)x; }
  for (int i = 0; i < 12; i++) teufel_libs.push_back(load_lib(libdir + fmtb("/teufel.%d.so", i)));
  if (std::string(argv[2]) != "--serve") return run_child(argv[2]);
  // server: one line = one plan; every run in its own child
  std::string line; char c; 
  while (true) {
    line.clear(); ssize_t n;
    while ((n = syscall(SYS_read, 0, &c, 1)) == 1 && c != '\n') line.push_back(c);
    if (n != 1) return 0;
    pid_t p = fork();
    if (p == 0) {
      int dn = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0);
      dup2(dn, 0); dup2(dn, 1); if (!getenv("TEUSIM_DEBUG")) dup2(dn, 2);
      _exit(run_child(line));
    }
    int st = 0; waitpid(p, &st, 0);
    int code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    std::string out = std::string(fmtb("done %d\n", code));
    if (syscall(SYS_write, 1, out.data(), out.size()) < 0) return 0;
  }
}
