#include "oracle.hpp"
#include <arguments.hpp>
using namespace oracle;
static const char* keys[] = {"k", "cpu_nthreads", "gpu_ndsize", "chunksize", "use_chunking", "use_recompute", "knn_grid_resolution", "cc_p_maxsize", "cc_t_maxsize", "dev_suppress_stdout"};
static const long defs[] = {64, 0, 1, 8196, 0, 0, 16, 32, 32, 1};
static void check(const votess::vtargs& a, const std::vector<long>& want, const char* when) {
  for (int i = 0; i < 10; i++) { long v = a[keys[i]].get<long>(); if (v != want[i]) fail("%s is %ld, expected %ld (%s)", keys[i], v, want[i], when); }
  if (a.get_xyzset().grid_resolution != want[6]) fail("grid resolution handed to the sort is %d (%s)", a.get_xyzset().grid_resolution, when);
  if (a.get_knn().k != want[0] || a.get_knn().grid_resolution != want[6]) fail("k=%d resolution=%d handed to the search (%s)", a.get_knn().k, a.get_knn().grid_resolution, when);
  if (a.get_cc().k != want[0] || a.get_cc().p_maxsize != want[7] || a.get_cc().t_maxsize != want[8]) fail("k=%d p=%d t=%d handed to clipping (%s)", a.get_cc().k, a.get_cc().p_maxsize, a.get_cc().t_maxsize, when);
}
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
int main(int c, char** v) {
  return run(c, v, 400, 100000, 10, [](long n, rng& r) {
    votess::vtargs a; std::vector<long> w(defs, defs + 10); std::string log; check(a, w, "defaults");
    int ops = n == 0 ? 0 : r.in(1, 12);
    for (int o = 0; o < ops; o++) {
      int i = r.in(0, 9); bool flag = i == 4 || i == 5 || i == 9; long x = flag ? r.in(0, 1) : r.one_in(8) ? r.in(0, 2) : r.one_in(6) ? 2147483647 - r.in(0, 3) : r.in(0, 100000);
      log += std::string(keys[i]) + "=" + std::to_string(x) + " "; desc("%s", log.c_str());
      if (r.one_in(4)) { votess::vtargs b = a; b[keys[i]] = (int)x; check(a, w, "after a store to a copy"); long got = b[keys[i]].get<long>(); if (got != x) fail("copy holds %ld", got); continue; }
      if (flag && r.one_in(2)) a[keys[i]] = (bool)x; else if (r.one_in(3)) a[keys[i]] = (long)x; else if (r.one_in(5)) a[keys[i]] = std::to_string(x); else a[keys[i]] = (int)x;
      w[i] = x; check(a, w, "after a store");
      int y = a[keys[i]]; if (y != x) fail("implicit read of %s gives %d", keys[i], y);
      if (flag && a[keys[i]].get<bool>() != (bool)x) fail("%s as bool", keys[i]);
    }
    const votess::vtargs& ca = a;
    for (const char* k : {"", "K", "k ", "nope", "use_device", "cc_p_maxsiz", "grid_resolution"}) {
      desc("%s then unknown key '%s'", log.c_str(), k);
      if (!throws([&] { (void)ca[k].get<int>(); })) fail("reading key '%s' is accepted", k);
      if (!throws([&] { a[k] = 3; })) fail("writing key '%s' is accepted", k);
    }
    check(a, w, "after unknown keys");
    for (const char* bad : {"abc", "", "x1"}) { votess::vtargs b = a; b["k"] = std::string(bad); desc("k='%s' read as int", bad); if (!throws([&] { (void)b["k"].get<int>(); })) fail("accepted"); if (!throws([&] { int z = b["k"]; (void)z; })) fail("implicit read accepted"); if (!throws([&] { (void)b.get_knn(); })) fail("handed to the search"); }
    { votess::vtargs b = a; b["use_chunking"] = 7; desc("use_chunking=7 read as bool"); if (!throws([&] { (void)b["use_chunking"].get<bool>(); })) fail("accepted"); }
    { votess::vtargs b = a; b["cc_p_maxsize"] = std::string("99999999999999"); desc("cc_p_maxsize=99999999999999 read as int"); if (!throws([&] { (void)b["cc_p_maxsize"].get<int>(); })) fail("accepted"); }
  });
}
