/* Linked into the real programs: the clock the program sees is shifted by VERIF_TIMESHIFT seconds,
   so that anything seeded from or dependent on the time of day differs between runs. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>

static long shift(void)
{
  static long s; static int init;
  if (!init) { const char *e = getenv("VERIF_TIMESHIFT"); s = e ? atol(e) : 0; init = 1; }
  return s;
}
int clock_gettime(clockid_t id, struct timespec *ts)
{
  int r = syscall(SYS_clock_gettime, id, ts);
  if (!r && id == CLOCK_REALTIME) ts->tv_sec += shift();
  return r;
}
time_t time(time_t *t)
{
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
  struct timespec ts;
  (void)tz;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
  return 0;
}
