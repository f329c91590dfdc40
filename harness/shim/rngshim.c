/* LD_PRELOAD stand-in for the OS randomness source. Delivers a deterministic stream that
   never repeats, records every delivery in a shared file, injects faults on request. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>
#include <time.h>
struct ctl {
  uint64_t seed;             /* 0 */
  _Atomic uint64_t pos;      /* 8  bytes delivered */
  _Atomic uint64_t calls;    /* 16 library draws so far (faults count these) */
  uint64_t from, to;         /* 24 32 draws [from,to) are faulted */
  uint64_t kind;             /* 40 fault kind */
  _Atomic uint64_t hits;     /* 48 faults injected */
  uint64_t cap;              /* 56 size of data */
  _Atomic uint64_t std_draws;/* 64 draws by the language runtime (hash seeds) */
  _Atomic uint64_t opens;    /* 72 device opens */
  uint64_t probe_kind;       /* 80 errno for the zero-length availability probe */
  uint8_t pad[4096 - 88];
  uint8_t data[];
};
static struct ctl *C;
static long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
__attribute__((constructor)) static void init(void) {
  if (C) return;
  const char *p = getenv("VERIF_RNG");
  if (!p) return;
  int fd = raw6(SYS_open, (long)p, O_RDWR | O_CLOEXEC, 0, 0, 0, 0);
  if (fd < 0) _exit(97);
  off_t n = raw6(SYS_lseek, fd, 0, SEEK_END, 0, 0, 0);
  C = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (C == MAP_FAILED) _exit(97);
  raw6(SYS_close, fd, 0, 0, 0, 0, 0);
}
static void deliver(void *buf, size_t n) {
  uint64_t p = atomic_fetch_add(&C->pos, n);
  if (p + n > C->cap) _exit(96);
  if (n) C->data[C->cap + p] = 1; /* a read begins here */
  for (size_t i = 0; i < n; i++) {
    uint64_t z = (C->seed ^ ((p + i) * 0x9E3779B97F4A7C15ull)) + 0x632BE59BD9B4E019ull;
    z = (z ^ z >> 30) * 0xBF58476D1CE4E5B9ull; z = (z ^ z >> 27) * 0x94D049BB133111EBull; z ^= z >> 31;
    C->data[p + i] = (uint8_t)z;
  }
  memcpy(buf, C->data + p, n);
}
/* kinds: 1 one byte, 2 half, 3 all but one, 4 EINTR, 5 EAGAIN, 6 EIO, 7 ENOSYS, 8 EPERM, 9 EFAULT,
   11 half then EIO, 12 zero bytes (end of file), 13 one byte and EINTR in turn, 20 open: ENOENT, 21 open: EMFILE */
static ssize_t draw(void *buf, size_t n, int is_file) {
  uint64_t c = atomic_fetch_add(&C->calls, 1);
  if (c >= C->from && c < C->to) {
    uint64_t k = C->kind; size_t m = n; int e = 0;
    switch (k) {
      case 1: m = n ? 1 : 0; break;
      case 2: m = n > 1 ? n / 2 : n; break;
      case 3: m = n > 1 ? n - 1 : n; break;
      case 4: e = EINTR; break;
      case 5: e = EAGAIN; break;
      case 6: e = EIO; break;
      case 7: e = ENOSYS; break;
      case 8: e = EPERM; break;
      case 9: e = EFAULT; break;
      case 11: if (c == C->from) m = n / 2; else e = EIO; break;
      case 12: m = 0; break;
      case 30: { struct timespec t = {0, (long)((c * 2654435761u) % 300000)}; nanosleep(&t, 0); k = 0; break; } /* slow source */
      case 13: if ((c - C->from) & 1) e = EINTR; else m = n ? 1 : 0; break;
    }
    if (k) atomic_fetch_add(&C->hits, 1);
    if (e) { errno = e; return -1; }
    n = m;
  }
  deliver(buf, n);
  return n;
}
static ssize_t gr(void *buf, size_t n, unsigned flags) {
  if (n == 0 && C->probe_kind) { atomic_fetch_add(&C->hits, 1); errno = C->probe_kind; return -1; }
  if (flags & 4 /* GRND_INSECURE: hash seeds of the runtime */) { atomic_fetch_add(&C->std_draws, 1); deliver(buf, n); return n; }
  return draw(buf, n, 0);
}
long syscall(long n, ...) {
  va_list v; va_start(v, n);
  long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long), e = va_arg(v, long), f = va_arg(v, long);
  va_end(v);
  if (!C) init();
  if (n == SYS_getrandom && C) return gr((void *)a, b, c);
  return raw6(n, a, b, c, d, e, f);
}
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
  if (!C) init();
  if (C) return gr(buf, n, flags);
  return raw6(SYS_getrandom, (long)buf, n, flags, 0, 0, 0);
}
int getentropy(void *buf, size_t n) {
  if (!C) init();
  if (!C) return raw6(SYS_getrandom, (long)buf, n, 0, 0, 0, 0) == (long)n ? 0 : -1;
  size_t k = 0;
  while (k < n) { ssize_t r = draw((char *)buf + k, n - k, 0); if (r < 0) { if (errno == EINTR) continue; return -1; } k += r; }
  return 0;
}
static _Atomic unsigned char isdev[4096];
static int note(const char *p, int fd) {
  if (fd >= 0 && fd < 4096) isdev[fd] = p && (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random"));
  return fd;
}
static int dev_open_fault(const char *p) {
  if (!C) init();
  if (!C || !p || (strcmp(p, "/dev/urandom") && strcmp(p, "/dev/random"))) return 0;
  atomic_fetch_add(&C->opens, 1);
  if (C->kind == 20 || C->kind == 21) { atomic_fetch_add(&C->hits, 1); errno = C->kind == 20 ? ENOENT : EMFILE; return 1; }
  return 0;
}
#define MODE mode_t m = 0; if (fl & (O_CREAT | 020000000)) { va_list v; va_start(v, fl); m = va_arg(v, int); va_end(v); }
int open(const char *p, int fl, ...) { MODE if (dev_open_fault(p)) return -1; return note(p, raw6(SYS_openat, AT_FDCWD, (long)p, fl, m, 0, 0)); }
int open64(const char *p, int fl, ...) { MODE if (dev_open_fault(p)) return -1; return note(p, raw6(SYS_openat, AT_FDCWD, (long)p, fl | O_LARGEFILE, m, 0, 0)); }
int openat(int d, const char *p, int fl, ...) { MODE if (dev_open_fault(p)) return -1; return note(p, raw6(SYS_openat, d, (long)p, fl, m, 0, 0)); }
int openat64(int d, const char *p, int fl, ...) { MODE if (dev_open_fault(p)) return -1; return note(p, raw6(SYS_openat, d, (long)p, fl | O_LARGEFILE, m, 0, 0)); }
int close(int fd) { if (fd >= 0 && fd < 4096) isdev[fd] = 0; return raw6(SYS_close, fd, 0, 0, 0, 0, 0); }
ssize_t read(int fd, void *b, size_t n) {
  if (C && fd >= 0 && fd < 4096 && isdev[fd]) return draw(b, n, 1);
  return raw6(SYS_read, fd, (long)b, n, 0, 0, 0);
}
