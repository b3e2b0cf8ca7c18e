// Shared parts of the replay harnesses.  A harness runs numbered cases; case n is a
// function of (seed, n) alone, so "<harness> <seed> <budget> <n>" replays one case.
#ifndef ORACLE_HPP
#define ORACLE_HPP
#include <algorithm>
#include <array>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <numeric>
#include <set>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>

namespace oracle {
struct rng {
  uint64_t s;
  explicit rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; i++) next(); }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  long in(long a, long b) { return a + (long)(next() >> 11) % (b - a + 1); }
  bool one_in(int n) { return in(1, n) == 1; }
  double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  float unitf() { float x; do { x = (float)unit(); } while (!(x > 0 && x < 1)); return x; }
};
static long cur_case = -1; static uint64_t cur_seed = 0; static char cur_desc[4000] = "";
static bool verbose = false;
inline void desc(const char* f, ...) { va_list a; va_start(a, f); vsnprintf(cur_desc, sizeof cur_desc, f, a); va_end(a); if (verbose) fprintf(stderr, "case %ld: %s\n", cur_case, cur_desc); }
[[noreturn]] inline void fail(const char* f, ...) {
  char b[4000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  fflush(stdout);
  fprintf(stderr, "\nORACLE-FAIL seed=%llu case=%ld\n  input: %s\n  failed: %s\n", (unsigned long long)cur_seed, cur_case, cur_desc, b);
  fflush(stderr); _exit(1);
}
inline void on_signal(int s) {
  char b[4400]; int n = snprintf(b, sizeof b, "\nORACLE-FAIL seed=%llu case=%ld\n  input: %s\n  failed: %s\n", (unsigned long long)cur_seed, cur_case, cur_desc,
    s == SIGALRM ? "does not terminate (case time limit)" : "crashed (memory fault or abort)");
  if (write(2, b, n)) {} _exit(1);
}
inline void on_death() { on_signal(SIGABRT); }
}
extern "C" void __asan_on_error() __attribute__((weak));
extern "C" void __asan_on_error() {
  char b[4400]; int n = snprintf(b, sizeof b, "\nORACLE-FAIL seed=%llu case=%ld\n  input: %s\n  failed: access outside an array (address sanitizer)\n",
    (unsigned long long)oracle::cur_seed, oracle::cur_case, oracle::cur_desc);
  if (write(2, b, n)) {}
}
namespace oracle {
// run case(n, rng) for n = 0.. until the budget is used (at least `minimum`, at most `maximum` cases)
inline int run(int argc, char** argv, long minimum, long maximum, unsigned limit, std::function<void(long, rng&)> f) {
  cur_seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1; double budget = argc > 2 ? atof(argv[2]) : 10;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGALRM}) signal(s, on_signal);
  std::set_terminate(on_death);
  auto t0 = std::chrono::steady_clock::now();
  long only = argc > 3 ? atol(argv[3]) : -1; verbose = only >= 0;
  long n = only >= 0 ? only : 0, done = 0;
  for (; n < maximum; n++) {
    double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (only < 0 && n >= minimum && el > budget) break;
    if (only < 0 && el > 4 * budget) break;
    cur_case = n; cur_desc[0] = 0; rng r(cur_seed * 1000003 + n);
    alarm(limit); f(n, r); alarm(0); done++;
    if (only >= 0) break;
  }
  double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  fflush(stdout);
  fprintf(stderr, "ORACLE-OK cases=%ld secs=%.2f\n", done, el);
  return 0;
}

typedef std::array<float, 3> pt;
// point sets of several shapes
inline std::vector<pt> points(rng& r, long n, int shape, int gr = 0) {
  std::vector<pt> v;
  for (long i = 0; i < n; i++) {
    pt p;
    for (int c = 0; c < 3; c++) {
      float x = r.unitf();
      if (shape == 1) { x = 0.45f + 0.1f * x; }                      // clustered
      if (shape == 2) { x = (float)(r.in(1, 6) / 7.0); }             // lattice with ties
      if (shape == 3 && gr > 0) {                                    // next to cell borders, 0 and 1
        int k = r.in(0, gr); float b = (float)k / gr;
        switch (r.in(0, 3)) { case 0: x = b; break; case 1: x = std::nextafterf(b, 2.f); break; case 2: x = std::nextafterf(b, -1.f); break; default: break; }
      }
      if (shape == 4) x = r.one_in(2) ? 1e-3f * x + 1e-6f : 1.0f - 1e-3f * x - 1e-6f; // corners
      if (!(x > 0)) x = std::nextafterf(0.f, 1.f);
      if (!(x < 1)) x = std::nextafterf(1.f, 0.f);
      p[c] = x;
    }
    v.push_back(p);
  }
  if (shape == 5) for (size_t i = 1; i < v.size(); i += 3) v[i] = v[i - 1];   // duplicates
  return v;
}
inline std::string show(const std::vector<pt>& v, size_t lim = 12) {
  std::string s; char b[100];
  for (size_t i = 0; i < v.size() && i < lim; i++) { snprintf(b, sizeof b, "(%.9g,%.9g,%.9g)", v[i][0], v[i][1], v[i][2]); s += b; }
  if (v.size() > lim) s += "...";
  return s;
}

// ---- reference convex cell: polygon faces in long double, clipped plane by plane
struct cell {
  typedef std::array<double, 3> v3;
  struct face { int tag; std::vector<v3> v; };
  std::vector<face> f; double margin = 1e9; v3 c;
  explicit cell(const pt& p) : c{p[0], p[1], p[2]} {
    for (int a = 0; a < 3; a++) for (int s = 0; s < 2; s++) {
      face g; g.tag = -1 - (2 * a + s); int b = (a + 1) % 3, d = (a + 2) % 3;
      for (int k = 0; k < 4; k++) { v3 x; x[a] = s; x[b] = (k == 1 || k == 2); x[d] = (k >= 2); g.v.push_back(x); }
      f.push_back(g);
    }
  }
  double radius2() const { double m = 0; for (auto& g : f) for (auto& x : g.v) { double d = 0; for (int i = 0; i < 3; i++) d += (x[i] - c[i]) * (x[i] - c[i]); m = std::max(m, d); } return m; }
  // keep the side of p: points nearer to p than to q. returns true if something was cut
  bool clip(const pt& q, int tag) {
    v3 n; double d = 0, len = 0;
    for (int i = 0; i < 3; i++) { n[i] = (double)q[i] - c[i]; d -= ((double)q[i] * q[i] - c[i] * c[i]) / 2; len += n[i] * n[i]; }
    len = std::sqrt(len);
    auto val = [&](const v3& x) { return (n[0] * x[0] + n[1] * x[1] + n[2] * x[2] + d) / (len > 0 ? len : 1); };
    bool cut = false;
    for (auto& g : f) for (auto& x : g.v) { double w = val(x); margin = std::min(margin, std::fabs(w)); if (w > 0) cut = true; }
    if (!cut) return false;
    std::vector<face> nf; std::vector<std::pair<v3, v3>> seg;
    for (auto& g : f) {
      face h; h.tag = g.tag; std::vector<v3> cross;
      size_t m = g.v.size();
      for (size_t k = 0; k < m; k++) {
        const v3 &a = g.v[k], &b = g.v[(k + 1) % m]; double wa = val(a), wb = val(b);
        if (wa <= 0) h.v.push_back(a);
        if ((wa <= 0) != (wb <= 0)) { v3 x; double t = wa / (wa - wb); for (int i = 0; i < 3; i++) x[i] = a[i] + t * (b[i] - a[i]); h.v.push_back(x); cross.push_back(x); }
      }
      if (h.v.size() >= 3) nf.push_back(h);
      if (cross.size() == 2) seg.push_back({cross[0], cross[1]});
    }
    // new face: order the segment end points around their centre
    if (seg.size() >= 3) {
      face h; h.tag = tag; std::vector<v3> pts; v3 o{0, 0, 0};
      for (auto& s : seg) { pts.push_back(s.first); pts.push_back(s.second); }
      for (auto& x : pts) for (int i = 0; i < 3; i++) o[i] += x[i] / pts.size();
      v3 u{}, w{}; int ax = std::fabs(n[0]) > std::fabs(n[1]) ? 1 : 0; v3 e{0, 0, 0}; e[ax] = 1;
      u = {n[1] * e[2] - n[2] * e[1], n[2] * e[0] - n[0] * e[2], n[0] * e[1] - n[1] * e[0]};
      w = {n[1] * u[2] - n[2] * u[1], n[2] * u[0] - n[0] * u[2], n[0] * u[1] - n[1] * u[0]};
      std::vector<std::pair<double, v3>> an;
      double lu = std::sqrt(u[0]*u[0]+u[1]*u[1]+u[2]*u[2]), lw = std::sqrt(w[0]*w[0]+w[1]*w[1]+w[2]*w[2]);
      for (auto& x : pts) { double a = 0, b = 0; for (int i = 0; i < 3; i++) { a += (x[i] - o[i]) * u[i] / lu; b += (x[i] - o[i]) * w[i] / lw; } an.push_back({std::atan2(b, a), x}); }
      std::sort(an.begin(), an.end(), [](const auto& a, const auto& b) { return a.first < b.first; });
      for (auto& x : an) {
        if (!h.v.empty()) { double dd = 0; for (int i = 0; i < 3; i++) dd += std::fabs(h.v.back()[i] - x.second[i]); if (dd < 1e-11) continue; }
        h.v.push_back(x.second);
      }
      if (h.v.size() > 1) { double dd = 0; for (int i = 0; i < 3; i++) dd += std::fabs(h.v.back()[i] - h.v[0][i]); if (dd < 1e-11) h.v.pop_back(); }
      if (h.v.size() >= 3) nf.push_back(h);
    }
    f.swap(nf);
    return true;
  }
  std::set<int> tags() const { std::set<int> s; for (auto& g : f) if (g.tag >= 0) s.insert(g.tag); return s; }
  // smallest edge length: how far the combinatorics are from degenerate
  double edge() const { double m = 1e9; for (auto& g : f) for (size_t k = 0; k < g.v.size(); k++) { double d = 0; for (int i = 0; i < 3; i++) { double x = g.v[k][i] - g.v[(k + 1) % g.v.size()][i]; d += x * x; } m = std::min(m, std::sqrt(d)); } return m; }
  size_t nverts() const { std::set<std::array<long, 3>> s; for (auto& g : f) for (auto& x : g.v) s.insert({std::lround(x[0] * 1e9), std::lround(x[1] * 1e9), std::lround(x[2] * 1e9)}); return s.size(); }
};
}
#endif
