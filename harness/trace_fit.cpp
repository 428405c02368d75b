// Runs the real solvers (through DispatchToSolver) on analytic objectives, recording every
// evaluation they make.
//   trace_fit <spec file> <trace file>
// spec: key value... lines (see checks/c10.py).  The trace uses the record format of trace.cpp;
// type 9 = start (value = objective), type 10 = final (value = objective there; extra = reported
// best value, reported initial value, status, reported number of evaluations, errors...)
#include <csignal>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include "definitions.h"
#include "model_object.h"
#include "param_struct.h"
#include "solver_results.h"
#include "dispatch_solver.h"
using namespace std;
volatile sig_atomic_t stopSignal_flag = 0;

static FILE *out;
static void rec(int type, const vector<double> &p, double v, const vector<double> &x = vector<double>())
{
  int32_t h[2] = {type, (int32_t)p.size()};
  int64_t k = x.size();
  fwrite(h, sizeof h, 1, out); fwrite(&v, sizeof v, 1, out); fwrite(&k, sizeof k, 1, out);
  fwrite(p.data(), sizeof(double), p.size(), out);
  if (k) fwrite(x.data(), sizeof(double), k, out);
}

struct Obj : ModelObject {
  string kind; int n; vector<double> a, c; long intAt = -1, cnt = 0, nanAfter = -1; bool log = true;
  // residuals
  vector<double> res(const double *p) {
    vector<double> r;
    if (kind == "quad" || kind == "nan" || kind == "plateau") {
      for (int i = 0; i < n; i++) {
        double s = 0;
        for (int j = 0; j < n; j++) s += a[i*n + j]*(p[j] - c[j]);
        if (kind == "plateau") s = floor(s*4)/4;
        r.push_back(s);
      }
    } else if (kind == "rosen") {
      if (n == 1) { r.push_back(p[0] - c[0]); r.push_back(0.1*(p[0]*p[0])); }
      for (int i = 0; i + 1 < n; i++) { r.push_back(10*(p[i+1] - p[i]*p[i])); r.push_back(1 - p[i]); }
    } else if (kind == "wave") {
      for (int i = 0; i < n; i++) { r.push_back(a[i]*(p[i] - c[i])); r.push_back(2*sin(5*(p[i] - c[i]))); }
    } else if (kind == "flat") {
      for (int i = 0; i < n + 1; i++) r.push_back(1.5);
    }
    while ((int)r.size() < n + 1) r.push_back(0.25);
    if (kind == "nan" && p[0] > c[0]) r[0] = NAN;
    return r;
  }
  double val(const double *p) { double s = 0; for (double x : res(p)) s += x*x; return s; }
  void tick() { cnt++; if (cnt == intAt) stopSignal_flag = 1; }
  double GetFitStatistic(double p[]) override {
    double v = val(p);
    if (log) { rec(1, vector<double>(p, p + n), v); tick(); }
    return v;
  }
  void ComputeDeviates(double y[], double p[]) override {
    vector<double> r = res(p);
    for (size_t i = 0; i < r.size(); i++) y[i] = r[i];
    if (log) { rec(2, vector<double>(p, p + n), val(p)); tick(); }
  }
  int nres() { vector<double> z(n, 0.1); return res(z.data()).size(); }
};

int main(int argc, char **argv)
{
  map<string, vector<double>> m; map<string, string> s;
  ifstream f(argv[1]); string ln;
  while (getline(f, ln)) {
    istringstream is(ln); string k; is >> k;
    if (k == "kind" || k == "name") { is >> s[k]; continue; }
    string t; while (is >> t) m[k].push_back(strtod(t.c_str(), nullptr));
  }
  out = fopen(argv[2], "wb");
  Obj o; o.kind = s["kind"]; o.n = m["start"].size(); o.a = m["a"]; o.c = m["c"];
  if (m.count("interrupt")) o.intAt = (long)m["interrupt"][0];
  int n = o.n;
  vector<mp_par> pi(n);
  int nfree = 0; bool lim = false;
  for (int i = 0; i < n; i++) {
    mp_par q; memset((void *)&q, 0, sizeof q); pi[i] = q;
    pi[i].fixed = (int)m["fixed"][i];
    pi[i].limited[0] = (int)m["limlo"][i]; pi[i].limited[1] = (int)m["limhi"][i];
    pi[i].limits[0] = m["lo"][i]; pi[i].limits[1] = m["hi"][i];
    if (!pi[i].fixed) nfree++;
    if (pi[i].fixed || pi[i].limited[0] || pi[i].limited[1]) lim = true;
  }
  vector<double> p = m["start"];
  rec(9, p, o.val(p.data()));
  SolverResults sr; string nm = s["name"];
  int st = DispatchToSolver((int)m["solver"][0], n, nfree, o.nres(), p.data(), pi, &o, m["ftol"][0], lim,
                            (int)m["verbose"][0], &sr, nm, (unsigned long)m["seed"][0], m["lhs"][0] != 0);
  vector<double> x = {sr.GetBestfitStatisticValue(), sr.GetInitialStatisticValue(), (double)st, (double)sr.GetNFunctionEvals()};
  if (sr.ErrorsPresent()) { vector<double> e(n); sr.GetErrors(e.data()); x.insert(x.end(), e.begin(), e.end()); }
  rec(10, p, o.val(p.data()), x);
  fclose(out);
  return 0;
}
