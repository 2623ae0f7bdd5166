/* LD_PRELOAD seam owned by the simulator: virtual wall clock, entropy and storage faults.
 *
 * clock: CLOCK_REALTIME / gettimeofday / time are answered from a simulated
 *        clock once one has been set (SIM_CLOCK_NS in the environment or
 *        sim_clock_set from Python). Monotonic clocks stay real: they only
 *        drive the harness' own watchdogs.
 * rnd:   getrandom / getentropy are answered from a seeded generator.
 * fs:    one fault rule at a time, matched by path substring.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static volatile int clk_on = 0;
static volatile int64_t clk_ns = 0, clk_step = 0;
static volatile int64_t clk_reads = 0;

__attribute__((constructor)) static void init(void) {
  const char *s = getenv("SIM_CLOCK_NS");
  if (s && *s) { clk_ns = strtoll(s, 0, 10); clk_on = 1; }
  s = getenv("SIM_CLOCK_STEP");
  if (s && *s) clk_step = strtoll(s, 0, 10);
}
void sim_clock_set(int64_t ns, int64_t step) { clk_ns = ns; clk_step = step; clk_on = 1; }
int64_t sim_clock_reads(void) { return clk_reads; }
static int64_t vnow(void) { clk_reads++; int64_t v = clk_ns; clk_ns += clk_step; return v; }

int clock_gettime(clockid_t id, struct timespec *ts) {
  if (clk_on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
    int64_t v = vnow();
    int64_t s = v / 1000000000LL, n = v % 1000000000LL;
    if (n < 0) { n += 1000000000LL; s--; }
    ts->tv_sec = s; ts->tv_nsec = n; return 0;
  }
  return syscall(SYS_clock_gettime, id, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
  return 0;
}
time_t time(time_t *t) {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}

/* ---- entropy --------------------------------------------------------- */
static volatile int ent_on = 0;
static uint64_t ent_state = 0;
static volatile int64_t ent_reads = 0;
__attribute__((constructor)) static void init_ent(void) {
  const char *s = getenv("SIM_ENTROPY");
  if (s && *s) { ent_state = strtoull(s, 0, 10); ent_on = 1; }
}
void sim_entropy_set(uint64_t s) { ent_state = s; ent_on = 1; }
int64_t sim_entropy_reads(void) { return ent_reads; }
static void ent_fill(unsigned char *p, size_t n) {
  ent_reads++;
  for (size_t i = 0; i < n; i++) {
    uint64_t z = (ent_state += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    p[i] = (unsigned char)((z ^ (z >> 31)) & 0xff);
  }
}
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
  if (ent_on) { ent_fill(buf, n); return (ssize_t)n; }
  return syscall(SYS_getrandom, buf, n, flags);
}
int getentropy(void *buf, size_t n) {
  if (ent_on) { ent_fill(buf, n); return 0; }
  return syscall(SYS_getrandom, buf, n, 0) == (long)n ? 0 : -1;
}

/* ---- storage faults -------------------------------------------------- */
static char fs_path[512];
static volatile int fs_on = 0, f_open_err = 0, f_stat_err = 0, f_read_err = 0, f_short = 0, f_eintr = 0;
static volatile int64_t f_read_after = 0;
static volatile int fs_count[8]; /* opens matched, open errs, stat errs, read errs, short reads, eintr */
static int fds[64]; static int64_t fdread[64]; static int nfds = 0;

void sim_fs_set(const char *path, int open_err, int stat_err, int read_err, int64_t read_after, int shortr, int eintr) {
  fs_on = 0; strncpy(fs_path, path, sizeof fs_path - 1);
  f_open_err = open_err; f_stat_err = stat_err; f_read_err = read_err; f_read_after = read_after;
  f_short = shortr; f_eintr = eintr; nfds = 0; memset((void *)fs_count, 0, sizeof fs_count);
  fs_on = path[0] != 0;
}
int sim_fs_count(int i) { return fs_count[i]; }
static int match(const char *p) { return fs_on && p && strstr(p, fs_path) != 0; }

/* a concurrent writer: at the n-th system call on the path, another file is renamed over it (or it is removed) */
static char sw_from[512], sw_to[512];
static volatile int sw_at = -1, sw_n = 0, sw_done = 0;
void sim_fs_swap(const char *from, const char *to, int at) {
  strncpy(sw_from, from, sizeof sw_from - 1); strncpy(sw_to, to, sizeof sw_to - 1); sw_at = at; sw_n = 0; sw_done = 0;
}
int sim_fs_swapped(void) { return sw_done; }
static void swap_point(void) {
  if (sw_at >= 0 && sw_n++ == sw_at) {
    int e = errno;
    if (sw_from[0]) syscall(SYS_renameat, AT_FDCWD, sw_from, AT_FDCWD, sw_to);
    else syscall(SYS_unlinkat, AT_FDCWD, sw_to, 0);
    sw_done = 1; errno = e;
  }
}

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  int m = match(path);
  if (m) {
    swap_point();
    fs_count[0]++;
    if (f_open_err) { fs_count[1]++; errno = f_open_err; return -1; }
  }
  int fd = syscall(SYS_openat, dirfd, path, flags, mode);
  if (m && fd >= 0 && nfds < 64) { fds[nfds] = fd; fdread[nfds] = 0; nfds++; }
  return fd;
}
#define MODE() mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
int open(const char *path, int flags, ...) { MODE(); return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE(); return do_open(AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { MODE(); return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE(); return do_open(d, path, flags, mode); }
int close(int fd) {
  for (int i = 0; i < nfds; i++) if (fds[i] == fd) { fds[i] = fds[nfds-1]; fdread[i] = fdread[nfds-1]; nfds--; break; }
  return syscall(SYS_close, fd);
}
ssize_t read(int fd, void *buf, size_t n) {
  if (fs_on) for (int i = 0; i < nfds; i++) if (fds[i] == fd) {
    swap_point();
    if (f_eintr > 0) { f_eintr--; fs_count[5]++; errno = EINTR; return -1; }
    if (f_read_err) {
      if (fdread[i] >= f_read_after) { fs_count[3]++; errno = f_read_err; return -1; }
      if ((int64_t)n > f_read_after - fdread[i]) n = f_read_after - fdread[i];
    }
    if (f_short > 0 && n > (size_t)f_short) { n = f_short; fs_count[4]++; }
    ssize_t r = syscall(SYS_read, fd, buf, n);
    if (r > 0) fdread[i] += r;
    return r;
  }
  return syscall(SYS_read, fd, buf, n);
}
static int do_stat(int d, const char *path, struct stat *st, int flags) {
  if (match(path)) swap_point();
  if (match(path) && f_stat_err) { fs_count[2]++; errno = f_stat_err; return -1; }
  return syscall(SYS_newfstatat, d, path, st, flags);
}
int stat(const char *path, struct stat *st) { return do_stat(AT_FDCWD, path, st, 0); }
int stat64(const char *path, struct stat64 *st) { return do_stat(AT_FDCWD, path, (struct stat *)st, 0); }
int fstatat(int d, const char *path, struct stat *st, int f) { return do_stat(d, path, st, f); }
int fstatat64(int d, const char *path, struct stat64 *st, int f) { return do_stat(d, path, (struct stat *)st, f); }
