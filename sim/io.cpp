// File system, clocks, /proc, entropy and the HDF5 entry points of the simulated nodes.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cstdarg>
#include <ctime>
#include <climits>
#include <set>
#include <algorithm>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/file.h>
#include <unistd.h>
#include <sched.h>
#include <sys/sysinfo.h>
#include <sys/statvfs.h>
#include <sys/vfs.h>
#include <sys/utsname.h>
#include <sys/resource.h>
#include <sys/times.h>
#include <hdf5.h>
#include "sim.h"
#include "fiber.h"
namespace sim {
uint64_t bytes_written = 0;
struct Fd { std::string path; bool wr = false; bool proc = false; int rank = -1; };
static std::map<int, Fd> fds;
static std::map<FILE*, int> files;          // stdio streams of the ranks
static std::map<FILE*, int> filerank;
static std::map<std::string, std::map<int, bool>> lockedby; // path -> fd -> exclusive
static std::map<std::string, long> iocount;
static bool torn_kill = false;
static bool on() { return active && cur_rank() >= 0; }

static std::string rel(const char* p) {
  std::string s = p; std::string d = plan.dir; if (!d.empty() && d.back() != '/') d += '/';
  if (s.compare(0, d.size(), d) == 0) s = s.substr(d.size());
  while (s.compare(0, 2, "./") == 0) s = s.substr(2);
  return s;
}
static std::string tag(const std::string& f) { std::string t = f; for (auto& c : t) if (c == ' ') c = '_'; return t.empty() ? "-" : t; }
bool glob(const std::string& pat, const std::string& s) { return pat == "*" || pat == s; }

// returns 0, or an errno; *shortto >= 0 asks for a short transfer
static int fault(const char* op, const std::string& file, long* shortto) {
  int r = cur_rank();
  iocount[fmtb("%d %s %s", r, op, tag(file).c_str())]++;
  for (auto& f : plan.io) {
    if (f.op != op || !glob(f.file, tag(file))) continue;
    if (f.rank >= 0 && f.rank != r) continue;
    f.seen++;
    if (f.seen == f.nth || (f.sticky && f.seen > f.nth)) {
      f.fired++; count(std::string("fault.io.") + op); event("FAULT", "%s %s #%ld err %d short %ld", op, file.c_str(), f.seen, f.err, f.shortto);
      if (f.err == 0) { if (shortto) *shortto = f.shortto; return 0; }
      return f.err;
    }
  }
  return 0;
}
static void ioevent(const char* op, const std::string& f, long n) {
  event("IO", "%s %s %ld", op, f.c_str(), n);
  if (plan.killat >= 0 && ev_count() >= plan.killat) { torn_kill = true; }
}
void kill_now();
static void maybe_kill() { if (torn_kill) kill_now(); }

template <class... A> static std::string fstr(const char* f, A... a) { char b[1024]; snprintf(b, sizeof b, f, a...); return b; }
static std::string meminfo() {
  const char* rest = "Buffers:          %d kB\nCached:           %d kB\nSwapCached:            0 kB\nActive:         %d kB\nInactive:        %d kB\nSwapTotal:             0 kB\nSwapFree:              0 kB\nHugePages_Total:       0\nHugepagesize:       2048 kB\n";
  switch (plan.procmode) {
    case 2: return std::string("MemTotal:       4398046511104 kB\nMemFree:        3298046511104 kB\nMemAvailable:   3398046511104 kB\n") + fstr(rest, 1 << 30, 1 << 30, 1 << 30, 1 << 30);
    case 3: return "";
    case 6: return fstr("MemTotal:          %d kB\nMemFree:              64 kB\nMemAvailable:         %d kB\n", 640 + cur_rank(), 60 + cur_rank()) + fstr(rest, 0, 4, 8, 0);
    case 7: return "MemTotal:       unknown kB\nMemTotal\n:\n\nMemTotal:-1 kB\nMemAvailable: -3 kB\n";
    case 4: return "SwapTotal:             0 kB\nHugepagesize:       2048 kB\n";
    default: return fstr("MemTotal:       %d kB\nMemFree:        %d kB\nMemAvailable:   %d kB\n", 33554432 + 1024 * cur_rank(), 22554432, 27554432 - 4096 * cur_rank()) + fstr(rest, 400000, 4000000, 6000000, 2000000);
  }
}
// number of processors the host reports
static int host_cpus() { switch (plan.procmode) { case 1: return 1; case 2: return 4096; case 3: return 0; case 5: return -1; case 6: return 1; case 7: return 3 + cur_rank(); default: return 8; } }
static double host_load() { switch (plan.procmode) { case 2: return 900.5; case 6: return 64.25 + cur_rank(); case 7: return 1e9; default: return 0.25 + cur_rank(); } }
static unsigned long host_mem() { switch (plan.procmode) { case 2: return 1ul << 52; case 3: return 0; case 6: return 64 << 10; case 7: return ~0ul; default: return 22554432ul << 10; } }
// what the host says about itself
static std::string procfile(const std::string& p) {
  if (plan.procmode == 3) return "";
  std::string f = p.substr(p.rfind('/') + 1);
  if (f == "loadavg") return fstr("%.2f %.2f %.2f 2/900 %d\n", host_load(), host_load() / 2, host_load() / 3, 1000 + cur_rank());
  if (f == "uptime") return plan.procmode == 7 ? "-1 -1\n" : fstr("%.2f %.2f\n", 100.0 + cur_rank(), 7.5);
  if (f == "statm") return fstr("%lu %d %d 10 0 %d 0\n", host_mem() / 4096, 5000 + cur_rank(), 2000, 900);
  if (f == "cpuinfo") { std::string c; int n = std::min(host_cpus(), 64); for (int k = 0; k < n; k++) c += fstr("processor\t: %d\nmodel name\t: simulated\ncpu MHz\t\t: %d.0\ncache size\t: 512 KB\ncpu cores\t: %d\n\n", k, 1000 + 100 * cur_rank(), n); return c; }
  if (f == "stat" && p == "/proc/stat") return fstr("cpu  %d 0 100 1000 0 0 0 0 0 0\nprocs_running %d\n", 100 * cur_rank(), 2);
  return plan.procmode == 7 ? std::string(":\n\n-1\n") : fstr("%d\n", 17 + cur_rank());
}
static std::string status() {
  switch (plan.procmode) {
    case 2: return "Name:\tteufel\nVmPeak:\t 4398046511104 kB\nVmSize:\t 3398046511104 kB\n";
    case 3: return "";
    case 6: return fstr("Name:\tteufel\nVmPeak:\t     600 kB\nVmSize:\t     %d kB\n", 639 + cur_rank());
    case 7: return "Name:\t:::\nVmSize\n:\n\nVmSize:\t-17 kB\nVmSize:99999999999999999999999 kB\n";
    case 4: return "Name:\tteufel\nState:\tR (running)\n";
    default: return fstr("Name:\tteufel\nVmPeak:\t  %d kB\nVmSize:\t  %d kB\n", 250000 + cur_rank(), 230000 + cur_rank());
  }
}
static int do_open(const char* path, int flags, int mode) {
  std::string p = path;
  if (p.compare(0, 6, "/proc/") == 0 || p.compare(0, 5, "/sys/") == 0) {
    if (flags & O_DIRECTORY) { errno = ENOENT; return -1; }
    event("IO", "proc %s", path);
    iocount["proc"]++;
    if (plan.procmode) count("fault.proc");
    if (plan.procmode == 1) { errno = ENOENT; return -1; }
    int fd = syscall(SYS_memfd_create, "proc", 0);
    std::string c = p == "/proc/meminfo" ? meminfo() : p.size() > 7 && p.compare(p.size() - 7, 7, "/status") == 0 ? status() : procfile(p);
    if (fd >= 0) { if (syscall(SYS_write, fd, c.data(), c.size()) < 0) {} syscall(SYS_lseek, fd, 0, SEEK_SET); Fd f; f.proc = true; f.path = p; f.rank = cur_rank(); fds[fd] = f; }
    return fd;
  }
  bool wr = (flags & O_ACCMODE) != O_RDONLY;
  std::string rp = rel(path);
  if (wr) { // writes never leave the run directory
    if (rp[0] == '/' || rp.find("..") != std::string::npos) { count("note.write-outside-refused"); event("IO", "refused %s", path); errno = EACCES; return -1; }
  } else if (p[0] == '/' && rp[0] == '/') { // system files: not part of the simulated world
    return syscall(SYS_openat, AT_FDCWD, path, flags, mode);
  }
  ioevent(wr ? "openw" : "openr", rp, flags & O_TRUNC ? 1 : 0); maybe_kill();
  int e = fault(wr ? "openw" : "openr", rp, nullptr);
  if (e) { errno = e; return -1; }
  if (wr && plan.diskfull >= 0 && (flags & O_CREAT) && (long)bytes_written >= plan.diskfull && syscall(SYS_access, path, F_OK) != 0) { count("fault.diskfull"); errno = ENOSPC; return -1; }
  long nopen = 0; for (auto& f : fds) if (f.second.rank == cur_rank()) nopen++;
  if (plan.maxfd >= 0 && nopen >= plan.maxfd) { count("fault.maxfd"); event("FAULT", "no descriptor left for %s", rp.c_str()); errno = EMFILE; return -1; }
  int fd = syscall(SYS_openat, AT_FDCWD, path, flags, mode);
  if (nopen + 1 > counter("max.open-files")) count("max.open-files", nopen + 1 - counter("max.open-files"));
  if (fd >= 0) { Fd f; f.path = rp; f.wr = wr; f.rank = cur_rank(); fds[fd] = f; }
  return fd;
}
static ssize_t do_read(int fd, void* b, size_t n, off_t off) {
  auto it = fds.find(fd);
  if (it != fds.end() && !it->second.proc && on()) {
    ioevent("read", it->second.path, n); maybe_kill();
    long sh = -1; int e = fault("read", it->second.path, &sh); if (e) { errno = e; return -1; }
    if (sh >= 0 && (size_t)sh < n) n = sh;
  } else if (it != fds.end() && it->second.proc && plan.procmode == 5) { count("fault.proc"); errno = EIO; return -1; }
  return off >= 0 ? syscall(SYS_pread64, fd, b, n, off) : syscall(SYS_read, fd, b, n);
}
static ssize_t do_write(int fd, const void* b, size_t n, off_t off) {
  auto it = fds.find(fd);
  if (it != fds.end() && on()) {
    ioevent("write", it->second.path, n);
    if (torn_kill) { size_t h = n / 2; if (h) { ssize_t x = off >= 0 ? syscall(SYS_pwrite64, fd, b, h, off) : syscall(SYS_write, fd, b, h); (void)x; } count("fault.tornwrite"); kill_now(); }
    long sh = -1; int e = fault("write", it->second.path, &sh); if (e) { errno = e; return -1; }
    if (sh > 0 && (size_t)sh < n) n = sh;
    if (plan.diskfull >= 0) {
      long left = plan.diskfull - (long)bytes_written;
      if (left <= 0) { count("fault.diskfull"); errno = ENOSPC; return -1; }
      if ((long)n > left) n = left;
    }
    bytes_written += n;
  }
  return off >= 0 ? syscall(SYS_pwrite64, fd, b, n, off) : syscall(SYS_write, fd, b, n);
}
static int do_close(int fd) {
  auto it = fds.find(fd); int e = 0;
  if (it != fds.end()) {
    if (!it->second.proc && on()) { ioevent(it->second.wr ? "closew" : "closer", it->second.path, 0); maybe_kill(); e = fault(it->second.wr ? "closew" : "closer", it->second.path, nullptr); }
    for (auto& l : lockedby) l.second.erase(fd);
    fds.erase(it);
  }
  int r = syscall(SYS_close, fd);
  if (e) { errno = e; return -1; }
  return r;
}
static int do_lock(int fd, bool ex, bool unlock) {
  auto it = fds.find(fd); if (it == fds.end()) return 0;
  auto& m = lockedby[it->second.path];
  if (unlock) { m.erase(fd); return 0; }
  for (auto& l : m) if (l.first != fd && fds.count(l.first) && fds[l.first].rank != it->second.rank && (ex || l.second)) { count("note.lock-conflict"); event("IO", "lock conflict %s", it->second.path.c_str()); errno = EWOULDBLOCK; return -1; }
  m[fd] = ex; return 0;
}
struct Cookie { int fd; };
static ssize_t ck_read(void* c, char* b, size_t n) { return do_read(((Cookie*)c)->fd, b, n, -1); }
static ssize_t ck_write(void* c, const char* b, size_t n) { // 0 on error for glibc
  size_t done = 0; Cookie* k = (Cookie*)c;
  while (done < n) { ssize_t r = do_write(k->fd, b + done, n - done, -1); if (r <= 0) return done ? (ssize_t)done : 0; done += r; }
  return done;
}
static int ck_seek(void* c, off64_t* o, int w) { off_t r = syscall(SYS_lseek, ((Cookie*)c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void* c) { int r = do_close(((Cookie*)c)->fd); delete (Cookie*)c; return r; }
static FILE* do_fopen(const char* path, const char* mode) {
  int fl; bool plus = strchr(mode, '+');
  switch (mode[0]) {
    case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
    case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    default: errno = EINVAL; return nullptr;
  }
  int fd = do_open(path, fl, 0666); if (fd < 0) return nullptr;
  Cookie* c = new Cookie{fd};
  cookie_io_functions_t io{ck_read, ck_write, ck_seek, ck_close};
  FILE* f = fopencookie(c, mode, io);
  if (f) { files[f] = fd; filerank[f] = cur_rank(); }
  return f;
}
sigjmp_buf exit_jump; int exit_jump_set;
void io_rank_exit(int rank) { // a node that ends regularly flushes its buffers
  for (auto& f : filerank) if (f.second == rank) fflush(f.first);
  if (rank == 0 || plan.ranks == 1) {
    // HDF5 1.10 itself may crash while it closes what a failed H5Fclose left behind: not an error of the program
    exit_jump_set = 1;
    if (sigsetjmp(exit_jump, 1) == 0) {
      static hid_t ids[256]; ssize_t n = H5Fget_obj_ids(H5F_OBJ_ALL, H5F_OBJ_ALL, 256, ids);
      for (ssize_t i = 0; i < n; i++) H5Fflush(ids[i], H5F_SCOPE_GLOBAL);
      if (n > 0) count("note.hdf5-objects-left-open", n);
    } else count("note.hdf5-crash-at-exit");
    exit_jump_set = 0;
  }
}
void mem_report(FILE* f);
void io_report(FILE* f) {
  for (auto& c : iocount) if (c.first != "proc") fprintf(f, "io %s %ld\n", c.first.c_str(), c.second);
  int i = 0; for (auto& x : plan.io) fprintf(f, "iofired %d %ld\n", i++, x.fired);
  i = 0; for (auto& x : plan.alloc) fprintf(f, "allocfired %d %ld\n", i++, x.fired);
  fprintf(f, "n io.byteswritten %lu\n", (unsigned long)bytes_written);
  mem_report(f);
}

// ---------------------------------------------------------------- clocks
static std::map<int, long> clkreads;
static std::map<int, double> clkjump;
double clock_read(int r) {
  if (r < 0) return 0;
  long k = clkreads[r]++;
  advance_clock(r, 1e-6);
  count("clock.reads");
  switch (plan.clockmode) {
    case 2: { // jumps forwards and backwards
      uint64_t x = hash4(plan.seed, 51, r, k);
      if ((x & 3) == 0) { clkjump[r] += (u01(mix(x, 1)) - 0.5) * 400; count("fault.clockjump"); }
      return rank_clock(r) + clkjump[r]; }
    case 3: count("fault.clockfrozen"); return 1.7e9;
    case 5: advance_clock(r, 90000 * u01(hash4(plan.seed, 53, r, k))); count("fault.slownode"); return rank_clock(r); // days
    case 6: { uint64_t x = hash4(plan.seed, 54, r, k); if ((x & 3) == 0) { clkjump[r] = (u01(mix(x, 1)) - 0.5) * 3.4e9; count("fault.clockjump"); } return std::max(0.0, rank_clock(r) + clkjump[r]); }
    case 7: clkjump[r] -= 20 * u01(hash4(plan.seed, 55, r, k)); count("fault.clockbackwards"); return rank_clock(r) + clkjump[r];
    case 1: { // nodes with different clocks, of different rates
      count("fault.clockskew"); advance_clock(r, 15 * u01(hash4(plan.seed, 56, r, k)));
      double off = (u01(hash4(plan.seed, 21, r, 0)) - 0.5) * 1e6, rate = 0.2 + 3 * u01(hash4(plan.seed, 22, r, 0));
      return 1.7e9 + off + (rank_clock(r) - 1.7e9) * rate; }
    case 4: advance_clock(r, 40 * u01(hash4(plan.seed, 52, r, k))); count("fault.slownode"); return rank_clock(r); // slow machine: much time passes
    default: return rank_clock(r);
  }
}
static std::map<int, long> entcount;
} // namespace sim
using namespace sim;
#define PC __builtin_return_address(0)
template <class T> static T next(T& p, const char* n) { if (!p) p = (T)dlsym(RTLD_NEXT, n); return p; }
#define NEXT(ret, name, args) static ret (*real_##name) args = nullptr; next(real_##name, #name)

extern "C" {
int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (!on()) return syscall(SYS_openat, AT_FDCWD, p, fl, m); return do_open(p, fl, m); }
int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); if (!on()) return syscall(SYS_openat, AT_FDCWD, p, fl, m); return do_open(p, fl, m); }
int creat(const char* p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) { if (!on()) { fds.erase(fd); return syscall(SYS_close, fd); } return do_close(fd); }
ssize_t read(int fd, void* b, size_t n) { return do_read(fd, b, n, -1); }
ssize_t write(int fd, const void* b, size_t n) { return do_write(fd, b, n, -1); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { return do_read(fd, b, n, o); }
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return do_read(fd, b, n, o); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return do_write(fd, b, n, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return do_write(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec* v, int c) { ssize_t t = 0; for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t r = do_write(fd, v[i].iov_base, v[i].iov_len, -1); if (r < 0) return t ? t : -1; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
int ftruncate(int fd, off_t n) { auto it = fds.find(fd); if (it != fds.end() && on()) { ioevent("trunc", it->second.path, n); maybe_kill(); int e = fault("trunc", it->second.path, nullptr); if (e) { errno = e; return -1; } } return syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int fsync(int fd) { auto it = fds.find(fd); if (it != fds.end() && on()) { ioevent("sync", it->second.path, 0); maybe_kill(); int e = fault("sync", it->second.path, nullptr); if (e) { errno = e; return -1; } } return 0; }
int fdatasync(int fd) { return fsync(fd); }
int flock(int fd, int op) { if (!on()) return 0; return do_lock(fd, op & LOCK_EX, op & LOCK_UN); }
int lockf(int fd, int cmd, off_t) { if (!on()) return 0; return do_lock(fd, true, cmd == F_ULOCK); }
int lockf64(int fd, int cmd, off64_t) { return lockf(fd, cmd, 0); }
static bool inside(const char* p) { std::string r = rel(p); return r[0] != '/' && r.find("..") == std::string::npos; }
int rename(const char* a, const char* b) { if (on()) { if (!inside(a) || !inside(b)) { errno = EACCES; return -1; } ioevent("rename", rel(b), 0); maybe_kill(); int e = fault("rename", rel(b), nullptr); if (e) { errno = e; return -1; } } return syscall(SYS_rename, a, b); }
int unlink(const char* a) { if (on()) { if (!inside(a)) { errno = EACCES; return -1; } ioevent("unlink", rel(a), 0); maybe_kill(); } return syscall(SYS_unlink, a); }
int remove(const char* a) { return unlink(a); }
int mkdir(const char* a, mode_t m) { if (on() && !inside(a)) { errno = EACCES; return -1; } return syscall(SYS_mkdir, a, m); }
int system(const char*) { count("note.system-refused"); errno = EPERM; return -1; }
FILE* popen(const char*, const char*) { count("note.popen-refused"); errno = EPERM; return nullptr; }

FILE* fopen(const char* p, const char* m) { NEXT(FILE*, fopen, (const char*, const char*)); if (!on()) return real_fopen(p, m); return do_fopen(p, m); }
FILE* fopen64(const char* p, const char* m) { NEXT(FILE*, fopen64, (const char*, const char*)); if (!on()) return real_fopen64(p, m); return do_fopen(p, m); }
int fclose(FILE* f) { NEXT(int, fclose, (FILE*)); files.erase(f); filerank.erase(f); return real_fclose(f); }
int fileno(FILE* f) noexcept { auto it = files.find(f); if (it != files.end()) return it->second; NEXT(int, fileno, (FILE*)); return real_fileno(f); }

int clock_gettime(clockid_t c, struct timespec* t) noexcept { if (!on()) return syscall(SYS_clock_gettime, c, t); double x = clock_read(cur_rank()); t->tv_sec = (time_t)x; t->tv_nsec = (long)((x - (double)t->tv_sec) * 1e9); return 0; }
int gettimeofday(struct timeval* t, void*) noexcept { if (!on()) { struct timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; } double x = clock_read(cur_rank()); t->tv_sec = (time_t)x; t->tv_usec = (long)((x - (double)t->tv_sec) * 1e6); return 0; }
time_t time(time_t* t) noexcept { time_t r; if (!on()) { struct timespec s; syscall(SYS_clock_gettime, CLOCK_REALTIME, &s); r = s.tv_sec; } else r = (time_t)clock_read(cur_rank()); if (t) *t = r; return r; }
clock_t clock(void) noexcept { if (!on()) return 0; return (clock_t)(clock_read(cur_rank()) * 1e6); }
static void nap(double dt) { advance_clock(cur_rank(), dt); count("sleeps"); poll_point("sleep"); }
int usleep(useconds_t u) { if (on()) nap(u * 1e-6); return 0; }
unsigned sleep(unsigned s) { if (on()) nap(s); return 0; }
int nanosleep(const struct timespec* t, struct timespec*) { if (on()) nap(t->tv_sec + t->tv_nsec * 1e-9); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec* t, struct timespec*) { if (on()) nap(t->tv_nsec * 1e-9); return 0; }
int sched_yield(void) noexcept { if (on()) poll_point("yield"); return 0; }
pid_t getpid(void) noexcept { if (!on()) return syscall(SYS_getpid); return 1000 + cur_rank(); }
// what the operating system reports about the host
#define HOST(call) count("host.reads"); if (plan.procmode) count("fault.proc"); event("IO", "host " call)
long sysconf(int n) noexcept {
  NEXT(long, sysconf, (int));
  if (!on()) return real_sysconf(n);
  switch (n) {
    case _SC_NPROCESSORS_ONLN: case _SC_NPROCESSORS_CONF: { HOST("cpus"); int k = host_cpus(); return k > 0 ? k : -1; }
    case _SC_PHYS_PAGES: case _SC_AVPHYS_PAGES: { HOST("pages"); return plan.procmode == 1 || plan.procmode == 5 ? -1 : (long)(host_mem() / 4096); }
    default: return real_sysconf(n);
  }
}
int get_nprocs(void) noexcept { NEXT(int, get_nprocs, ()); if (!on()) return real_get_nprocs(); HOST("cpus"); return std::max(1, host_cpus()); }
int get_nprocs_conf(void) noexcept { NEXT(int, get_nprocs_conf, ()); if (!on()) return real_get_nprocs_conf(); HOST("cpus"); return std::max(1, host_cpus()); }
int sched_getcpu(void) noexcept { NEXT(int, sched_getcpu, ()); if (!on()) return real_sched_getcpu(); HOST("cpu"); return plan.procmode == 1 ? -1 : (int)(hash4(plan.seed, 61, cur_rank(), clkreads[cur_rank()]) % (unsigned)std::max(1, host_cpus())); }
int sched_getaffinity(pid_t p, size_t n, cpu_set_t* m) noexcept { NEXT(int, sched_getaffinity, (pid_t, size_t, cpu_set_t*)); if (!on()) return real_sched_getaffinity(p, n, m); HOST("affinity"); if (plan.procmode == 1) { errno = ENOSYS; return -1; } memset(m, 0, n); for (int k = 0; k < host_cpus() && (size_t)k < n * 8; k++) ((unsigned char*)m)[k / 8] |= 1 << (k & 7); return 0; }
int gethostname(char* b, size_t n) noexcept { NEXT(int, gethostname, (char*, size_t)); if (!on()) return real_gethostname(b, n); HOST("name"); if (plan.procmode == 1) { errno = EPERM; return -1; } snprintf(b, n, "%s", plan.procmode == 3 ? "" : plan.procmode == 4 ? "same" : fmtb("host%d", cur_rank())); return 0; }
int uname(struct utsname* u) noexcept { NEXT(int, uname, (struct utsname*)); int e = real_uname(u); if (!on()) return e; HOST("uname"); snprintf(u->nodename, sizeof u->nodename, "host%d", plan.procmode == 4 ? 0 : cur_rank()); snprintf(u->release, sizeof u->release, "%d.0", plan.procmode + 2); return 0; }
int sysinfo(struct sysinfo* s) noexcept { NEXT(int, sysinfo, (struct sysinfo*)); if (!on()) return real_sysinfo(s); HOST("sysinfo"); if (plan.procmode == 1 || plan.procmode == 5) { errno = EFAULT; return -1; } memset(s, 0, sizeof *s); s->uptime = 100 + cur_rank(); s->totalram = host_mem(); s->freeram = host_mem() / 2; s->loads[0] = (unsigned long)(host_load() * 65536); s->procs = 9; s->mem_unit = 1; return 0; }
int getloadavg(double* l, int n) noexcept { NEXT(int, getloadavg, (double*, int)); if (!on()) return real_getloadavg(l, n); HOST("load"); if (plan.procmode == 1 || plan.procmode == 5) return -1; for (int k = 0; k < n && k < 3; k++) l[k] = host_load() / (k + 1); return std::min(n, 3); }
static int vfs(unsigned long& bs, unsigned long& fr) { HOST("disk space"); if (plan.procmode == 1 || plan.procmode == 5) { errno = ENOSYS; return -1; } bs = 4096; fr = plan.procmode == 3 ? 0 : plan.procmode == 6 ? 8 : plan.procmode == 2 ? 1ul << 50 : 1ul << 24; return 0; }
int statvfs(const char*, struct statvfs* v) noexcept { memset(v, 0, sizeof *v); unsigned long b = 0, f = 0; int e = vfs(b, f); v->f_bsize = v->f_frsize = b; v->f_blocks = 1ul << 51; v->f_bfree = v->f_bavail = f; v->f_namemax = 255; return e; }
int statvfs64(const char* p, struct statvfs64* v) noexcept { return statvfs(p, (struct statvfs*)v); }
int fstatvfs(int, struct statvfs* v) noexcept { return statvfs("", v); }
int statfs(const char*, struct statfs* v) noexcept { memset(v, 0, sizeof *v); unsigned long b = 0, f = 0; int e = vfs(b, f); v->f_bsize = v->f_frsize = b; v->f_blocks = 1ul << 51; v->f_bfree = v->f_bavail = f; return e; }
int statfs64(const char* p, struct statfs64* v) noexcept { return statfs(p, (struct statfs*)v); }
int getrusage(__rusage_who_t w, struct rusage* u) noexcept { NEXT(int, getrusage, (__rusage_who_t, struct rusage*)); if (!on()) return real_getrusage(w, u); HOST("usage"); memset(u, 0, sizeof *u); if (plan.procmode == 1 || plan.procmode == 5) { errno = EINVAL; return -1; } double x = clock_read(cur_rank()); u->ru_utime.tv_sec = (time_t)x; u->ru_maxrss = plan.procmode == 6 ? 1 : plan.procmode == 7 ? -5 : (long)(host_mem() >> 12) + cur_rank(); return 0; }
clock_t times(struct tms* t) noexcept { if (!on()) return 0; clock_t c = (clock_t)(clock_read(cur_rank()) * 100); if (t) { t->tms_utime = c; t->tms_stime = t->tms_cutime = t->tms_cstime = 0; } return c; }
int clock_getres(clockid_t, struct timespec* t) noexcept { if (t) { t->tv_sec = 0; t->tv_nsec = plan.procmode == 7 && on() ? 10000000 : 1; } return 0; }
// environment variables the application asks for (libraries keep the real ones)
static char* env_value(const char* name) {
  static std::map<std::string, std::string> keep; HOST("environment"); int r = cur_rank(); std::string n = name, v; uint64_t h = hash4(plan.seed, 67, r, std::hash<std::string>()(n)); bool set = true;
  if (plan.procmode == 1) set = false;
  else if (n == "OMPI_COMM_WORLD_RANK" || n == "PMIX_RANK" || n == "PMI_RANK" || n == "SLURM_PROCID") v = std::to_string(r);
  else if (n == "OMPI_COMM_WORLD_SIZE" || n == "PMI_SIZE" || n == "SLURM_NTASKS") v = std::to_string(plan.ranks);
  else if (n.find("LOCAL") != n.npos) { int k = 1 + plan.seed % 3; v = std::to_string(n.find("SIZE") != n.npos ? k : r % k); }
  else if (n == "OMP_NUM_THREADS") v = std::to_string(plan.threads.empty() ? 1 : plan.threads[r % plan.threads.size()]);
  else if (n == "HOSTNAME") v = plan.procmode == 4 ? "same" : fmtb("host%d", r);
  else if (n == "PWD" || n == "HOME" || n == "TMPDIR") v = plan.procmode == 3 ? "" : "/nonexistent";
  else if (n == "LANG" || n.compare(0, 3, "LC_") == 0) v = plan.procmode == 2 ? "de_DE.UTF-8" : plan.procmode == 4 ? "" : "C";
  else if (!plan.procmode) set = false;
  else { static const char* V[] = {nullptr, "", "0", "1", "2", "100", "yes", "-1", "3.5"}; const char* c = V[(plan.procmode == 4 ? hash4(plan.seed, 67, 0, std::hash<std::string>()(n)) : h) % 9]; set = c; if (c) v = c; }
  if (!set) return nullptr;
  return (char*)keep.insert({n + "=" + v, v}).first->second.c_str();
}
char* getenv(const char* n) noexcept { NEXT(char*, getenv, (const char*)); if (!on() || !in_rank_code(PC)) return real_getenv(n); return env_value(n); }
char* secure_getenv(const char* n) noexcept { NEXT(char*, secure_getenv, (const char*)); if (!on() || !in_rank_code(PC)) return real_secure_getenv(n); return env_value(n); }
pid_t getppid(void) noexcept { if (!on()) return syscall(SYS_getppid); return 900; }
// std::random_device::_M_getval
static uint64_t entropy() { int r = cur_rank(); uint64_t s = r >= 0 && r < (int)plan.entropy.size() ? plan.entropy[r] : (uint64_t)(r + 1); count("entropy.draws"); return hash4(plan.seed, 41, s, entcount[r]++); }
unsigned _ZNSt13random_device9_M_getvalEv(void*) { return (unsigned)entropy(); }
ssize_t getrandom(void* b, size_t n, unsigned f) { if (!on()) return syscall(SYS_getrandom, b, n, f); for (size_t i = 0; i < n; i++) ((unsigned char*)b)[i] = entropy(); return n; }
static std::map<int, uint64_t> rnd;
int rand(void) noexcept { int r = cur_rank(); return (int)(hash4(rnd[r], 43, r, entcount[r + 100]++) & 0x7fffffff); }
int getentropy(void* b, size_t n) { for (size_t i = 0; i < n; i++) ((unsigned char*)b)[i] = entropy(); return 0; }
unsigned arc4random(void) noexcept { return (unsigned)entropy(); }
static std::map<int, uint64_t> rnd48; static uint64_t draw48(int k) { int r = cur_rank(); return hash4(rnd48[r * 2 + k], 44 + k, r, entcount[r + 200 + 100 * k]++); }
long random(void) noexcept { return (long)(draw48(0) & 0x7fffffff); }
void srandom(unsigned s) noexcept { rnd48[cur_rank() * 2] = s; entcount[cur_rank() + 200] = 0; }
double drand48(void) noexcept { return u01(draw48(1)); }
long lrand48(void) noexcept { return (long)(draw48(1) & 0x7fffffff); }
long mrand48(void) noexcept { return (long)(int)draw48(1); }
void srand48(long s) noexcept { rnd48[cur_rank() * 2 + 1] = (uint64_t)s; entcount[cur_rank() + 300] = 0; }
void srand(unsigned s) noexcept { rnd[cur_rank()] = s; entcount[cur_rank() + 100] = 0; }
void exit_hook(int);

void __wrap_exit(int c) { rank_dies("exited", c, ""); }
void __wrap__exit(int c) { rank_dies("exited", c, ""); }
void __wrap_abort(void) { rank_dies("exception", 134, "abort()"); }
void __wrap___assert_fail(const char* a, const char*, unsigned, const char*) { rank_dies("exception", 134, std::string("assertion ") + a); }

// ---------------------------------------------------------------- HDF5: switch points, buffer bounds and failing calls
// a call of the program into a file library may fail without any system call failing (memory exhausted inside the library ...)
static std::map<int, std::string> h5cur, sdcur;
static bool libfault(std::map<int, std::string>& cur, const char* fn) { auto it = cur.find(cur_rank()); return fault(fn, it == cur.end() ? std::string("-") : it->second, nullptr) != 0; }
int sim_sdds_call(const char* fn, const char* file) { if (!on()) return 0; if (file) sdcur[cur_rank()] = rel(file); return libfault(sdcur, fn); }
#define APP (on() && in_rank_code(PC))
#define H5F(ret, name, decl, args, types) ret name decl { NEXT(ret, name, types); if (APP && libfault(h5cur, #name)) return -1; return real_##name args; }
#define H5C(name) herr_t name(hid_t h) { NEXT(herr_t, name, (hid_t)); bool f = APP && libfault(h5cur, #name); herr_t r = real_##name(h); return f ? -1 : r; }
H5C(H5Aclose) H5C(H5Dclose) H5C(H5Sclose) H5C(H5Pclose)
H5F(hid_t, H5Acreate2, (hid_t a, const char* n, hid_t t, hid_t s, hid_t p, hid_t q), (a, n, t, s, p, q), (hid_t, const char*, hid_t, hid_t, hid_t, hid_t))
H5F(hid_t, H5Aopen_name, (hid_t a, const char* n), (a, n), (hid_t, const char*))
H5F(hid_t, H5Dcreate2, (hid_t a, const char* n, hid_t t, hid_t s, hid_t p, hid_t q, hid_t v), (a, n, t, s, p, q, v), (hid_t, const char*, hid_t, hid_t, hid_t, hid_t, hid_t))
H5F(hid_t, H5Dopen2, (hid_t a, const char* n, hid_t p), (a, n, p), (hid_t, const char*, hid_t))
H5F(htri_t, H5Lexists, (hid_t a, const char* n, hid_t p), (a, n, p), (hid_t, const char*, hid_t))
H5F(htri_t, H5Aexists, (hid_t a, const char* n), (a, n), (hid_t, const char*))
H5F(hid_t, H5Screate, (H5S_class_t c), (c), (H5S_class_t))
H5F(hid_t, H5Screate_simple, (int n, const hsize_t* d, const hsize_t* m), (n, d, m), (int, const hsize_t*, const hsize_t*))
H5F(hid_t, H5Pcreate, (hid_t c), (c), (hid_t))
// every node is a process of its own for HDF5: a file opened for writing is locked for all others, one opened for reading for writers.
// (The library is shared by the simulated nodes, so its own locking cannot see them.)
struct H5Lock { int rank; bool ex; dev_t dev; ino_t ino; };
static std::map<hid_t, H5Lock> h5locks;
static std::vector<H5Lock> h5left; // closed by the program with objects of the file still open: HDF5 keeps the file
void h5_rank_gone(int rank) { for (auto i = h5locks.begin(); i != h5locks.end();) if (i->second.rank == rank) i = h5locks.erase(i); else ++i; h5left.erase(std::remove_if(h5left.begin(), h5left.end(), [&](const H5Lock& l) { return l.rank == rank; }), h5left.end()); }
static bool h5conflict(const char* n, bool ex) {
  struct stat st; if (syscall(SYS_newfstatat, AT_FDCWD, n, &st, 0)) return false;
  int r = cur_rank(); bool c = false;
  auto hit = [&](const H5Lock& l) { if (l.rank != r && l.dev == st.st_dev && l.ino == st.st_ino && (ex || l.ex)) c = true; };
  for (auto& l : h5locks) hit(l.second);
  for (auto& l : h5left) hit(l);
  if (c) { count("note.h5-lock-conflict"); event("H5", "lock conflict %s", n); }
  return c;
}
static void h5lock(hid_t h, const char* n, bool ex) { struct stat st; if (h >= 0 && !syscall(SYS_newfstatat, AT_FDCWD, n, &st, 0)) h5locks[h] = H5Lock{cur_rank(), ex, st.st_dev, st.st_ino}; }
hid_t H5Fcreate(const char* n, unsigned f, hid_t a, hid_t b) { NEXT(hid_t, H5Fcreate, (const char*, unsigned, hid_t, hid_t)); if (on()) sync_point("H5Fcreate"); if (APP) { h5cur[cur_rank()] = rel(n); if (libfault(h5cur, "H5Fcreate") || h5conflict(n, true)) return -1; } hid_t r = real_H5Fcreate(n, f, a, b); if (APP) h5lock(r, n, true); if (on()) { event("H5", "create %s %d", n, r >= 0); sync_point("H5Fcreated"); } return r; }
hid_t H5Fopen(const char* n, unsigned f, hid_t a) { NEXT(hid_t, H5Fopen, (const char*, unsigned, hid_t)); if (on()) sync_point("H5Fopen"); if (APP) { h5cur[cur_rank()] = rel(n); if (libfault(h5cur, "H5Fopen") || h5conflict(n, f & H5F_ACC_RDWR)) return -1; } hid_t r = real_H5Fopen(n, f, a); if (APP) h5lock(r, n, f & H5F_ACC_RDWR); if (on()) { event("H5", "open %s %d", n, r >= 0); sync_point("H5Fopened"); } return r; }
herr_t H5Fclose(hid_t h) { NEXT(herr_t, H5Fclose, (hid_t)); if (on()) sync_point("H5Fclose"); bool lf = APP && libfault(h5cur, "H5Fclose");
  if (APP) { auto l = h5locks.find(h); if (l != h5locks.end()) { if (H5Fget_obj_count(h, H5F_OBJ_LOCAL | H5F_OBJ_DATASET | H5F_OBJ_GROUP | H5F_OBJ_ATTR) > 0) h5left.push_back(l->second); h5locks.erase(l); } }
  herr_t r = real_H5Fclose(h); if (on()) { event("H5", "close %d", r >= 0); sync_point("H5Fclosed"); } return lf ? -1 : r; }
static void h5range(hid_t ds, hid_t mt, hid_t ms, hid_t fs, const void* b, bool wr, const char* fn, const void* pc) {
  if (!on() || !b) return;
  hid_t sp = -1; bool own = false; hssize_t n = -1;
  if (ms != H5S_ALL) { n = H5Sget_simple_extent_npoints(ms); } // the whole extent of the memory space has to exist
  else if (fs != H5S_ALL) n = H5Sget_simple_extent_npoints(fs);
  else { sp = H5Dget_space(ds); own = true; if (sp >= 0) n = H5Sget_simple_extent_npoints(sp); }
  size_t s = H5Tget_size(mt); if (own && sp >= 0) H5Sclose(sp);
  if (n > 0 && s > 0) {
    // a hyperslab selection of the memory space touches only a part of it
    if (ms != H5S_ALL && H5Sget_select_type(ms) == H5S_SEL_HYPERSLABS) { hsize_t lo[8], hi[8], d[8]; int nd = H5Sget_simple_extent_ndims(ms); if (nd > 0 && nd <= 8 && H5Sget_select_bounds(ms, lo, hi) >= 0 && H5Sget_simple_extent_dims(ms, d, nullptr) == nd) { hsize_t a = 0, z = 0; for (int i = 0; i < nd; i++) { a = a * d[i] + lo[i]; z = z * d[i] + hi[i]; } check_range((const char*)b + a * s, (z - a + 1) * s, wr, fn, pc); return; } }
    check_range(b, (size_t)n * s, wr, fn, pc);
  }
}
herr_t H5Dwrite(hid_t d, hid_t mt, hid_t ms, hid_t fs, hid_t pl, const void* b) { NEXT(herr_t, H5Dwrite, (hid_t, hid_t, hid_t, hid_t, hid_t, const void*)); h5range(d, mt, ms, fs, b, false, "H5Dwrite", PC); if (APP && libfault(h5cur, "H5Dwrite")) return -1; herr_t r = real_H5Dwrite(d, mt, ms, fs, pl, b); if (on()) sync_point("H5Dwrite"); return r; }
herr_t H5Dread(hid_t d, hid_t mt, hid_t ms, hid_t fs, hid_t pl, void* b) { NEXT(herr_t, H5Dread, (hid_t, hid_t, hid_t, hid_t, hid_t, void*)); h5range(d, mt, ms, fs, b, true, "H5Dread", PC); if (APP && libfault(h5cur, "H5Dread")) return -1; herr_t r = real_H5Dread(d, mt, ms, fs, pl, b); if (on()) sync_point("H5Dread"); return r; }
herr_t H5Awrite(hid_t a, hid_t mt, const void* b) { NEXT(herr_t, H5Awrite, (hid_t, hid_t, const void*)); if (on()) { hid_t sp = H5Aget_space(a); hssize_t n = H5Sget_simple_extent_npoints(sp); H5Sclose(sp); if (n > 0) check_range(b, (size_t)n * H5Tget_size(mt), false, "H5Awrite", PC); } if (APP && libfault(h5cur, "H5Awrite")) return -1; return real_H5Awrite(a, mt, b); }
herr_t H5Aread(hid_t a, hid_t mt, void* b) { NEXT(herr_t, H5Aread, (hid_t, hid_t, void*)); if (on()) { hid_t sp = H5Aget_space(a); hssize_t n = H5Sget_simple_extent_npoints(sp); H5Sclose(sp); if (n > 0) check_range(b, (size_t)n * H5Tget_size(mt), true, "H5Aread", PC); } if (APP && libfault(h5cur, "H5Aread")) return -1; return real_H5Aread(a, mt, b); }
}
