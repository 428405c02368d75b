// Linked into the real programs: records every evaluation of the fit statistic (or of the
// deviates) that the running program makes, by replacing the entries of the model classes'
// virtual tables at start-up.  The program's own code is not changed.
//
// env VERIF_TRACE=<file>       binary records: int32 type, int32 nparams, double value,
//                              int64 nextra, double params[nparams], double extra[nextra]
//   type 1: GetFitStatistic(params) -> value
//   type 2: ComputeDeviates(params); value = sum of squares; extra = deviates if VERIF_TRACE_DEV
//   type 3: MakeBootstrapSample()  value = status
// env VERIF_TRACE_KILL="n"     deliver SIGINT to this process at the n-th top-level evaluation
#include <atomic>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <mutex>
#include <vector>
#include <dlfcn.h>
#include <link.h>
#include <elf.h>
#include <sys/mman.h>
#include <unistd.h>
#include "model_object.h"

extern "C" {
extern char _ZTV11ModelObject[] __attribute__((weak));
extern char _ZTV20ModelObjectMultImage[] __attribute__((weak));
double _ZN11ModelObject15GetFitStatisticEPd(ModelObject *, double *) __attribute__((weak));
double _ZN20ModelObjectMultImage15GetFitStatisticEPd(ModelObject *, double *) __attribute__((weak));
void _ZN11ModelObject15ComputeDeviatesEPdS0_(ModelObject *, double *, double *) __attribute__((weak));
void _ZN20ModelObjectMultImage15ComputeDeviatesEPdS0_(ModelObject *, double *, double *) __attribute__((weak));
int _ZN11ModelObject19MakeBootstrapSampleEv(ModelObject *) __attribute__((weak));
int _ZN20ModelObjectMultImage19MakeBootstrapSampleEv(ModelObject *) __attribute__((weak));
}

static FILE *out = nullptr;
static std::mutex mtx;
static thread_local int depth = 0;
static bool withDev = false;
static long killAt = -1;
static std::atomic<long> count(0);
static std::atomic<bool> boot(false);

static void rec(int type, ModelObject *m, const double *p, int n, double v, const double *x, long nx)
{
  std::lock_guard<std::mutex> g(mtx);
  int32_t h[2] = {type, n};
  int64_t k = nx;
  fwrite(h, sizeof h, 1, out);
  fwrite(&v, sizeof v, 1, out);
  fwrite(&k, sizeof k, 1, out);
  if (n) fwrite(p, sizeof(double), n, out);
  if (nx) fwrite(x, sizeof(double), nx, out);
  if (type == 3 || killAt >= 0) fflush(out);
}

static void tick()
{
  long c = ++count;
  if (killAt >= 0 && c == killAt) kill(getpid(), SIGINT);
}

typedef double (*GF)(ModelObject *, double *);
typedef void (*CD)(ModelObject *, double *, double *);
typedef int (*MB)(ModelObject *);

static double gf(GF f, ModelObject *m, double *p)
{
  depth++;
  double v = f(m, p);
  depth--;
  if (depth == 0) { rec(1, m, p, m->GetNParams(), v, nullptr, 0); tick(); }
  return v;
}
static void cd(CD f, ModelObject *m, double *y, double *p)
{
  depth++;
  f(m, y, p);
  depth--;
  if (depth == 0) {
    long n = boot ? m->GetNValidPixels() : m->GetNDataValues();
    double s = 0;
    for (long i = 0; i < n; i++) s += y[i]*y[i];
    rec(2, m, p, m->GetNParams(), s, y, withDev ? n : 0);
    tick();
  }
}
static int mb(MB f, ModelObject *m)
{
  depth++;
  int s = f(m);
  depth--;
  if (depth == 0) { boot = true; rec(3, m, nullptr, 0, s, nullptr, 0); }
  return s;
}

static double gf1(ModelObject *m, double *p) { return gf(_ZN11ModelObject15GetFitStatisticEPd, m, p); }
static double gf2(ModelObject *m, double *p) { return gf(_ZN20ModelObjectMultImage15GetFitStatisticEPd, m, p); }
static void cd1(ModelObject *m, double *y, double *p) { cd(_ZN11ModelObject15ComputeDeviatesEPdS0_, m, y, p); }
static void cd2(ModelObject *m, double *y, double *p) { cd(_ZN20ModelObjectMultImage15ComputeDeviatesEPdS0_, m, y, p); }
static int mb1(ModelObject *m) { return mb(_ZN11ModelObject19MakeBootstrapSampleEv, m); }
static int mb2(ModelObject *m) { return mb(_ZN20ModelObjectMultImage19MakeBootstrapSampleEv, m); }

static void patch(char *table)
{
  if (!table) return;
  Dl_info di;
  const ElfW(Sym) *sym = nullptr;
  size_t size = 60*sizeof(void *);
  if (dladdr1(table, &di, (void **)&sym, RTLD_DL_SYMENT) && sym) size = sym->st_size;
  long pg = sysconf(_SC_PAGESIZE);
  uintptr_t a = (uintptr_t)table & ~(uintptr_t)(pg - 1), b = ((uintptr_t)table + size + pg - 1) & ~(uintptr_t)(pg - 1);
  if (mprotect((void *)a, b - a, PROT_READ | PROT_WRITE)) { perror("trace: mprotect"); _exit(97); }
  void **e = (void **)table;
  struct { void *from, *to; } r[] = {
    {(void *)_ZN11ModelObject15GetFitStatisticEPd, (void *)gf1},
    {(void *)_ZN20ModelObjectMultImage15GetFitStatisticEPd, (void *)gf2},
    {(void *)_ZN11ModelObject15ComputeDeviatesEPdS0_, (void *)cd1},
    {(void *)_ZN20ModelObjectMultImage15ComputeDeviatesEPdS0_, (void *)cd2},
    {(void *)_ZN11ModelObject19MakeBootstrapSampleEv, (void *)mb1},
    {(void *)_ZN20ModelObjectMultImage19MakeBootstrapSampleEv, (void *)mb2},
  };
  for (size_t i = 0; i < size/sizeof(void *); i++)
    for (auto &x : r)
      if (x.from && e[i] == x.from) { e[i] = x.to; break; }
}

__attribute__((constructor)) static void start()
{
  const char *f = getenv("VERIF_TRACE");
  if (!f) return;
  out = fopen(f, "wb");
  if (!out) return;
  setvbuf(out, nullptr, _IOFBF, 1 << 20);
  withDev = getenv("VERIF_TRACE_DEV") != nullptr;
  if (getenv("VERIF_TRACE_KILL")) killAt = atol(getenv("VERIF_TRACE_KILL"));
  patch(_ZTV11ModelObject);
  patch(_ZTV20ModelObjectMultImage);
}
