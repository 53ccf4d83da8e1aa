// Environment the compiler must not depend on, under the check's control: hash seeds, clock, process ids.
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/random.h>
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>

static uint64_t state;
static int ready;
static uint64_t next(void) {
  if (!ready) {
    const char *s = getenv("MC_SEED");
    state = s ? strtoull(s, 0, 10) * 0x9e3779b97f4a7c15ull + 1 : 1;
    ready = 1;
  }
  state ^= state << 13; state ^= state >> 7; state ^= state << 17;
  return state * 0x2545f4914f6cdd1dull;
}
ssize_t getrandom(void *b, size_t n, unsigned f) {
  (void)f;
  for (size_t i = 0; i < n; i++) ((uint8_t *)b)[i] = (uint8_t)(next() >> 32);
  return (ssize_t)n;
}
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) < 0; }
static int fixed(struct timespec *t) {
  const char *s = getenv("MC_TIME");
  if (!s) return 0;
  t->tv_sec = strtoll(s, 0, 10);
  t->tv_nsec = 123456789;
  return 1;
}
int clock_gettime(clockid_t c, struct timespec *t) {
  // monotonic time stays the real one: waiting must work
  if (c == CLOCK_REALTIME && fixed(t)) return 0;
  return (int)syscall(SYS_clock_gettime, c, t);
}
time_t time(time_t *p) {
  struct timespec t;
  if (!fixed(&t)) clock_gettime(CLOCK_REALTIME, &t);
  if (p) *p = t.tv_sec;
  return t.tv_sec;
}
int gettimeofday(struct timeval *tv, void *z) {
  (void)z;
  struct timespec t;
  if (!fixed(&t)) clock_gettime(CLOCK_REALTIME, &t);
  tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000;
  return 0;
}
pid_t getpid(void) { const char *s = getenv("MC_PID"); return s ? atoi(s) : 4242; }
int gethostname(char *b, size_t n) { strncpy(b, "elsewhere", n); return 0; }
