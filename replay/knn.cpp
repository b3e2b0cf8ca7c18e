#include "oracle.hpp"
#include <arguments.hpp>
#include <xyzset.hpp>
#include <status.hpp>
#include <knn.hpp>
using namespace oracle;
// argv[4] absent: all layouts.  VARIANT: 0 host, 1 device row, 2 device column
static int from = 0, to = 2;
template <class T> using RD = device_accessor_read_t<T>; template <class T> using RW = device_accessor_readwrite_t<T>;
static void one(long n, rng& r) {
  int var = from + n % (to - from + 1); int gr = r.one_in(3) ? r.in(1, 3) : r.in(2, 24); long N = r.one_in(5) ? r.in(1, 4) : r.one_in(10) ? r.in(200, 700) : r.in(2, 90);
  int shape = r.in(0, 5); if (n % 50 == 9) { gr = r.in(30, 60); }
  auto pts = points(r, N, shape, gr); auto res = xyzset::sort<int, float>(pts, args::xyzset(gr)); auto id = res.first, off = res.second;
  int k = r.one_in(4) ? r.in(N - 1 > 0 ? N - 1 : 1, N + 6) : r.in(1, std::min<long>(N + 3, 40));
  long rows = r.in(1, 4), row = r.in(0, rows - 1), q = r.in(0, N - 1);
  desc("%s n=%ld gr=%d k=%d query=%ld row=%ld of %ld sorted points=%s", var == 0 ? "host" : var == 1 ? "device row" : "device column", N, gr, k, q, row, rows, show(pts, 30).c_str());
  std::vector<int> hid(rows * k, -32); std::vector<float> hpq(rows * k, var == 0 ? INFINITY : 128.0f);
  args::knn a(k, gr);
  for (long w = 0; w < rows; w++) if (w != row) for (int j = 0; j < k; j++) { long p = var == 2 ? rows * j + w : k * w + j; hid[p] = 7000 + p; hpq[p] = 0.5f + p; }
  auto hid0 = hid; auto hpq0 = hpq;
  std::vector<float> soa(3 * N); for (long i = 0; i < N; i++) for (int c = 0; c < 3; c++) soa[c * N + i] = pts[i][c];
  if (var == 0) knni::compute<int, float>(row, q, pts, N, id, off, pts, N, hid, hpq, a);
  else {
    RD<float> ax(soa.data(), soa.size()); RD<int> aid(id.data(), id.size()), ao(off.data(), off.size()); RW<int> ah(hid.data(), hid.size()); RW<float> ap(hpq.data(), hpq.size());
    if (var == 1) knni::compute<int, float>(row, q, ax, N, aid, ao, ax, N, ah, ap, a); else knni::compute<int, float>(row, q, ax, N, aid, ao, ax, N, ah, ap, (int)rows, a);
  }
  auto at = [&](int j) { return var == 2 ? rows * j + row : (long)k * row + j; };
  std::set<long> in; for (int j = 0; j < k; j++) in.insert(at(j));
  for (size_t p = 0; p < hid.size(); p++) if (!in.count(p) && (hid[p] != hid0[p] || hpq[p] != hpq0[p])) fail("entry %zu of another row changed", p);
  std::vector<double> d; for (long p = 0; p < N; p++) if (p != q) { double s = 0; for (int c = 0; c < 3; c++) { double x = (double)pts[p][c] - pts[q][c]; s += x * x; } d.push_back(s); }
  std::sort(d.begin(), d.end()); long want = std::min<long>(k, d.size()); std::set<int> seen;
  for (long j = 0; j < k; j++) {
    int g = hid[at(j)]; float pq = hpq[at(j)];
    if (j < want) {
      if (g < 0 || g >= N) fail("slot %ld holds %d, expected one of %ld neighbours", j, g, want);
      if (g == q) fail("slot %ld holds the query point itself", j);
      if (!seen.insert(g).second) fail("point %d returned twice", g);
      double s = 0; for (int c = 0; c < 3; c++) { double x = (double)pts[g][c] - pts[q][c]; s += x * x; }
      if (std::fabs(s - pq) > 1e-5 * s + 1e-12) fail("slot %ld: point %d at squared distance %.9g, reported %.9g", j, g, s, pq);
      if (j && hpq[at(j - 1)] > pq) fail("distances decrease at slot %ld", j);
      if (std::fabs(pq - d[j]) > 2e-5 * d[j] + 1e-9) fail("slot %ld: squared distance %.9g, the %ld-th nearest is at %.9g", j, pq, j + 1, d[j]);
    } else if (g != -32) fail("slot %ld holds %d instead of the undefined mark", j, g);
  }
}
int main(int c, char** v) {
  if (getenv("ORACLE_VARIANT")) { std::string s = getenv("ORACLE_VARIANT"); if (s == "host") to = 0; if (s == "device") from = 1; }
  return run(c, v, 300, 400000, 30, one);
}
