// TEUFEL deterministic simulator - shared declarations.
// Everything that decides *when* something happens in a simulated run lives behind these functions.
#pragma once
#include <csetjmp>
#include <setjmp.h>
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <string>
#include <vector>
#include <map>
#include <functional>

namespace sim {

// ---------- deterministic numbers: pure functions of (seed, stream, index) ----------
uint64_t mix(uint64_t a, uint64_t b);
uint64_t hash4(uint64_t seed, uint64_t stream, uint64_t a, uint64_t b);
double   u01(uint64_t h);

// ---------- plan (one simulated run) ----------
struct IoFault { std::string op, file; long nth; int err; bool sticky; long shortto; int rank; long seen=0; long fired=0; bool latched=false; };
struct AllocFault { int rank; long nth; long fired=0; };
struct Plan {
  std::string dir, prog="teufel", result;
  std::vector<std::string> args;
  int ranks=1; std::vector<int> threads{1};
  uint64_t seed=1;            // everything that is not a scheduling decision
  uint64_t sched=1;           // scheduling decisions
  bool replay=false;          // take decisions from the list instead of the PRNG
  double psw=0.0;             // probability of switching away at a synchronisation point
  double preempt=0.0;         // mean number of accesses between preemptions in parallel regions (0 = off)
  int straggler=-1;           // this rank only runs when nothing else can
  bool races=false;           // collect racing program counters
  double racep=0.0;           // probability to preempt at a racing pc
  std::vector<uint64_t> racepcs;
  int fill=0;                 // content of fresh memory 0 zeros, 1 ones, 2 noise
  bool memcheck=true;
  int clockmode=0;            // 0 regular, 1 per-rank skew, 2 jumps, 3 frozen
  int procmode=0;             // 0 regular, 1 missing, 2 huge, 3 incomplete
  int syncbcast=0;            // 0 eager, 1 synchronising, 2 seeded per call
  int redorder=0;             // order of summation 0 rank order, 1 seeded
  long killat=-1;             // kill the whole job at this event
  int rankkill=-1; long rankkillat=-1; // kill one rank at its n-th event
  long abortdelay=8;          // events the other ranks may still execute after a rank has died
  long maxfd=-1;              // files a node can have open at the same time
  long diskfull=-1;           // bytes until the disk is full
  long budget=400000000;      // instruction-ish budget
  std::vector<IoFault> io;
  std::vector<AllocFault> alloc;
  std::map<long,int> sdec;    // replay: synchronisation decision index -> choice
  std::map<long,int> pdec;    // replay: preemption access count -> fiber id
  bool trace=false;           // write the event log
  bool iotrace=false;
  std::vector<uint64_t> entropy; // per rank entropy stream ids (default: rank)
};
extern Plan plan;
extern bool active;           // a simulated run is in progress
int  cur_rank();              // rank of the running fiber, -1 outside
void event(const char* kind, const char* fmt, ...) __attribute__((format(printf,2,3)));
void sync_point(const char* kind);            // a place where another fiber may run
void poll_point(const char* kind);            // the same for something that is being polled: nobody starves
void wait_for(const char* what, const std::function<bool()>& ready);
[[noreturn]] void rank_dies(const char* how, int code, const std::string& text);
[[noreturn]] void run_ends(const char* outcome, const std::string& text);  // whole job, now
void violation(const char* kind, const std::string& text);                 // recorded, run goes on
void count(const std::string& what, long n=1);
long counter(const std::string& what);
bool in_rank_code(const void* pc);
double rank_clock(int rank);  // virtual seconds
void advance_clock(int rank, double dt);
void set_clock(int rank, double t);
// memory
bool check_range(const void* p, size_t n, bool write, const char* what, const void* pc);
void mem_init();
void mem_final_check();
void io_report(FILE* f);
bool in_parallel();
std::string pcname(const void* pc);
const char* fmtb(const char* f, ...) __attribute__((format(printf,1,2)));
long ev_count();
extern uint64_t bytes_written;
} // namespace sim
