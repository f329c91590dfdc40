/* LD_PRELOAD: a clock of its own.  VERIF_CLOCK: epoch (stands near 1970), far (year 2242), still (one instant),
   jump (every look at it is seconds to years later; the calendar also goes back).  Results must not depend on it. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
static uint64_t calls, mono = 1000, state = 88172645463325252ull;
static uint64_t rnd(void) { uint64_t x = __atomic_add_fetch(&state, 0x9e3779b97f4a7c15ull, __ATOMIC_RELAXED); x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; return x ^ x >> 31; }
static char mode(void) { static char m; if (!m) { const char *e = getenv("VERIF_CLOCK"); m = e && *e ? *e : 'n'; } return m; }
static void now(int real, struct timespec *t) {
  uint64_t n = __atomic_add_fetch(&calls, 1, __ATOMIC_RELAXED); static const uint64_t step[] = {1, 61, 301, 3601, 86401, 2678401, 31622401, 94867201};
  t->tv_nsec = 0;
  switch (mode()) {
    case 'e': t->tv_sec = real ? n / 1000 : 1 + n / 1000; t->tv_nsec = n % 1000 * 1000000; break;
    case 'f': t->tv_sec = (real ? 8589934592ull : 4294967296ull) + n; break;
    case 's': t->tv_sec = real ? 1700000000 : 5000; break;
    default:
      if (real) { t->tv_sec = rnd() % 8589934592ull; t->tv_nsec = rnd() % 1000000000; }
      else t->tv_sec = __atomic_add_fetch(&mono, step[rnd() & 7], __ATOMIC_RELAXED);
  }
}
int clock_gettime(clockid_t id, struct timespec *t) { now(id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE, t); return 0; }
int gettimeofday(struct timeval *restrict v, void *restrict z) { struct timespec t; (void)z; now(1, &t); v->tv_sec = t.tv_sec; v->tv_usec = t.tv_nsec / 1000; return 0; }
time_t time(time_t *p) { struct timespec t; now(1, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
