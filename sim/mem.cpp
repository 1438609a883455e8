// The heap of the simulated ranks: every block has red zones, fresh memory has a seeded content,
// released memory is never handed out again.
#include <cstdlib>
#include <cstring>
#include <new>
#include <map>
#include <sys/mman.h>
#include "sim.h"
#include "fiber.h"
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* __libc_realloc(void*, size_t);
extern "C" void* __libc_calloc(size_t, size_t);
namespace sim {
void fill_region(char* p, size_t n, uint64_t salt);
static const size_t ARENA = 12ull << 30;
static char* base = nullptr; static char* top = nullptr; static unsigned char* shadow = nullptr;
static uint64_t nblk = 0;
struct Head { size_t size; uint32_t magic; uint16_t rank; uint16_t kind; }; // 16 bytes
enum : uint32_t { LIVE = 0x11feb10c, DEAD = 0xdeadb10c };
static const size_t MAXBLK = 2ull << 30;
static std::map<int, long> nalloc, nnew;
static long peak = 0;

void mem_init() {
  base = (char*)mmap((void*)0x600000000000ull, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (base == MAP_FAILED) base = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (base == MAP_FAILED) { base = nullptr; run_ends("harness-error", "no arena"); }
  top = base;
  shadow = (unsigned char*)mmap(nullptr, ARENA / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (shadow == MAP_FAILED) run_ends("harness-error", "no shadow");
}
static inline bool mine(const void* p) { return (char*)p >= base && (char*)p < base + ARENA && base; }
static const unsigned char FREED = 0xF0;
// layout: [16 red][Head 16][user size][canary >=16 up to 16-multiple]
static void* take(size_t n, int kind) {
  if (n > MAXBLK) return nullptr;
  size_t body = (n + 15) & ~15ull, tot = 32 + body + 32;
  if (top + tot > base + ARENA) return nullptr;
  char* b = top; top += tot;
  Head* h = (Head*)(b + 16); h->size = n; h->magic = LIVE; h->rank = (uint16_t)cur_rank(); h->kind = kind;
  char* u = b + 32;
  if (plan.fill != 0) fill_region(u, n, 0x9000 + nblk);
  nblk++;
  unsigned char* s = shadow + (u - base) / 16;
  memset(s, 16, body / 16); if (n & 15) s[body / 16 - 1] = n & 15;
  memset(u + n, 0xCB, body - n + 16);
  return u;
}
static bool canary_ok(Head* h) { unsigned char* u = (unsigned char*)(h + 1); size_t n = h->size, body = (n + 15) & ~15ull; for (size_t i = n; i < body + 16; i++) if (u[i] != 0xCB) return false; return true; }
static void give(void* p, const void* pc, const char* what) {
  if (((uintptr_t)p & 15) != 0) { violation("bad-free", fmtb("%s of an address inside a block at %s", what, pcname(pc).c_str())); return; }
  Head* h = (Head*)p - 1;
  if (h->magic == DEAD) { violation("double-free", fmtb("%s of released memory at %s", what, pcname(pc).c_str())); return; }
  if (h->magic != LIVE) { violation("bad-free", fmtb("%s of memory that was not allocated at %s", what, pcname(pc).c_str())); return; }
  if (!canary_ok(h)) violation("heap-overflow", fmtb("bytes behind a block of %zu bytes were overwritten (found at %s)", h->size, what));
  h->magic = DEAD;
  size_t body = (h->size + 15) & ~15ull;
  memset(shadow + ((char*)p - base) / 16, FREED, body / 16);
  memset(p, 0xDD, h->size);
  // give large blocks back to the system, their addresses stay dead
  if (body > (1 << 20)) { uintptr_t a = ((uintptr_t)p + 4095) & ~4095ull, e = ((uintptr_t)p + h->size) & ~4095ull; if (e > a) madvise((void*)a, e - a, MADV_DONTNEED); }
}
bool check_range(const void* p, size_t n, bool write, const char* what, const void* pc) {
  if (!mine(p)) {
    if ((uintptr_t)p < 4096 && n && active) { violation("null-access", fmtb("%s of %zu bytes at address %lx in %s", what, n, (unsigned long)p, pcname(pc).c_str())); return false; }
    return true;
  }
  uintptr_t o = (char*)p - base, e = o + n;
  for (uintptr_t g = o & ~15ull; g < e; g += 16) {
    unsigned char s = shadow[g / 16];
    if (s == 16) continue;
    uintptr_t hi = std::min(e, g + 16);
    if (s == 0 || s == FREED || hi - g > s) {
      static std::map<uintptr_t, bool> seen; uintptr_t key = (uintptr_t)pc;
      if (!seen[key]) {
        seen[key] = true;
        violation(s == FREED ? "use-after-free" : "heap-out-of-bounds", fmtb("%s %s of %zu bytes in %s (rank %d thread %d)", what, write ? "write" : "read", n, pcname(pc).c_str(), cur_rank(), cur() ? cur()->tid : -1));
      }
      return false;
    }
  }
  return true;
}
void mem_final_check() {
  int bad = 0;
  for (char* b = base; b && b < top;) {
    Head* h = (Head*)(b + 16); size_t body = (h->size + 15) & ~15ull;
    if (h->magic != LIVE && h->magic != DEAD) { violation("heap-overflow", "a block header was overwritten"); break; }
    if (h->magic == LIVE && !canary_ok(h) && bad++ < 3) violation("heap-overflow", fmtb("bytes behind a block of %zu bytes were overwritten (found at the end)", h->size));
    b += 32 + body + 32;
  }
}
void mem_report(FILE* f) { for (auto& a : nnew) fprintf(f, "alloc %d %ld\n", a.first, a.second); fprintf(f, "n heap.blocks %lu\nn heap.bytes %zu\n", (unsigned long)nblk, (size_t)(top - base)); }

static void* app_new(size_t n, const void* pc, int kind, bool nothrow) {
  if (active && cur_rank() >= 0 && in_rank_code(pc)) {
    int r = cur_rank(); long k = ++nnew[r];
    for (auto& a : plan.alloc) if (a.rank == r && a.nth == k) { a.fired++; count("fault.alloc"); event("FAULT", "allocation %ld of %zu bytes", k, n); if (nothrow) return nullptr; throw std::bad_alloc(); }
    void* p = take(n, kind); if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    return p;
  }
  void* p = __libc_malloc(n ? n : 1); if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); } return p;
}
static void app_delete(void* p, const void* pc, const char* what, int kind) {
  if (!p) return;
  if (mine(p)) {
    if (((uintptr_t)p & 15) == 0) { Head* h = (Head*)p - 1; if (h->magic == LIVE && h->kind != kind) count("note.mismatched-delete"); }
    give(p, pc, what); return;
  }
  __libc_free(p);
}
} // namespace sim
using namespace sim;
#define PC __builtin_return_address(0)
void* operator new(size_t n) { return app_new(n, PC, 1, false); }
void* operator new[](size_t n) { return app_new(n, PC, 2, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return app_new(n, PC, 1, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return app_new(n, PC, 2, true); }
void operator delete(void* p) noexcept { app_delete(p, PC, "delete", 1); }
void operator delete[](void* p) noexcept { app_delete(p, PC, "delete[]", 2); }
void operator delete(void* p, size_t) noexcept { app_delete(p, PC, "delete", 1); }
void operator delete[](void* p, size_t) noexcept { app_delete(p, PC, "delete[]", 2); }
void operator delete(void* p, const std::nothrow_t&) noexcept { app_delete(p, PC, "delete", 1); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { app_delete(p, PC, "delete[]", 2); }

extern "C" {
static bool app(const void* pc) { return active && cur_rank() >= 0 && in_rank_code(pc); }
void* __wrap_malloc(size_t n) { if (app(PC)) { nalloc[cur_rank()]++; return take(n, 3); } return __libc_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { if (app(PC)) { void* p = take(a * b, 3); if (p) memset(p, 0, a * b); return p; } return __libc_calloc(a, b); }
void __wrap_free(void* p) { if (!p) return; if (mine(p)) give(p, PC, "free"); else __libc_free(p); }
void* __wrap_realloc(void* p, size_t n) {
  if (p && !mine(p)) return __libc_realloc(p, n);
  if (!p) return app(PC) ? take(n, 3) : __libc_malloc(n);
  Head* h = (Head*)p - 1; if (h->magic != LIVE) { violation(h->magic == DEAD ? "use-after-free" : "bad-free", "realloc of a dead block"); return nullptr; }
  void* q = take(n, 3); if (q) { memcpy(q, p, std::min(n, h->size)); give(p, PC, "realloc"); } return q;
}
// libraries may release what the application allocated
void free(void* p) { if (!p) return; if (mine(p)) give(p, PC, "free"); else __libc_free(p); }
void* realloc(void* p, size_t n) { if (p && mine(p)) return __wrap_realloc(p, n); return __libc_realloc(p, n); }
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (active && n) { check_range(s, n, false, "memcpy", PC); if (!check_range(d, n, true, "memcpy", PC)) return d; } return memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (active && n) { check_range(s, n, false, "memmove", PC); if (!check_range(d, n, true, "memmove", PC)) return d; } return memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (active && n) { if (!check_range(d, n, true, "memset", PC)) return d; } return memset(d, c, n); }
}
