#include "oracle.hpp"
#include <arguments.hpp>
#include <xyzset.hpp>
using namespace oracle;
// grid cell by an independent reading of "cell of x": the c with c/gr <= x < (c+1)/gr, one cell of slack for rounding at a border
template <class Tf> static bool cell_ok(Tf x, long c, long gr) {
  if (c < 0 || c >= gr) return false;
  double y = (double)x * gr; double tol = 1e-5 * gr + 1e-6;
  return y >= c - tol && y <= c + 1 + tol;
}
template <class Ti, class Tf> static void one(long n, rng& r, const char* ty) {
  long gr, N; int shape = r.in(0, 5);
  if (n % 40 == 7) { gr = n % 80 == 7 ? 41 : 103; N = r.in(1, 400); } else if (n == 20) { gr = 257; N = 300; } else { gr = r.one_in(3) ? r.in(1, 3) : r.in(1, 40); N = r.one_in(6) ? r.in(0, 2) : r.one_in(6) ? r.in(300, 3000) : r.in(0, 120); }
  auto base = points(r, N, shape, gr);
  std::vector<std::array<Tf, 3>> in; for (auto& p : base) in.push_back({(Tf)p[0], (Tf)p[1], (Tf)p[2]});
  desc("%s gr=%ld n=%ld points=%s", ty, gr, N, show(base).c_str());
  auto out = in; auto res = xyzset::sort<Ti, Tf>(out, args::xyzset((int)gr)); auto& id = res.first; auto& off = res.second;
  if (out.size() != in.size() || id.size() != in.size()) fail("size changed: %zu points, %zu ids", out.size(), id.size());
  long nc = gr * gr * gr;
  if ((long)off.size() != nc + 1) fail("%zu offsets for %ld cells", off.size(), nc);
  for (long i = 0; i < N; i++) {
    long c = id[i]; if (c < 0 || c >= nc) fail("id[%ld]=%ld outside the grid", i, c);
    if (i && id[i] < id[i - 1]) fail("ids not ascending at %ld", i);
    if (!cell_ok(out[i][0], c % gr, gr) || !cell_ok(out[i][1], (c / gr) % gr, gr) || !cell_ok(out[i][2], c / (gr * gr), gr)) fail("id[%ld]=%ld is not the cell of (%.9g,%.9g,%.9g)", i, c, (double)out[i][0], (double)out[i][1], (double)out[i][2]);
  }
  if (off[0] != 0) fail("offset[0]=%ld", (long)off[0]);
  { std::vector<long> cnt(nc + 1, 0); for (long i = 0; i < N; i++) cnt[id[i] + 1]++; for (long c = 1; c <= nc; c++) cnt[c] += cnt[c - 1]; for (long c = 0; c <= nc; c++) if (cnt[c] != (long)off[c]) fail("offset[%ld]=%ld, %ld points lie in lower cells", c, (long)off[c], cnt[c]); }
  // permutation, stable inside each cell: same cell (as the code assigns it) => input order
  std::map<std::array<Tf, 3>, Ti> cellof; for (long i = 0; i < N; i++) { auto it = cellof.find(out[i]); if (it != cellof.end() && it->second != id[i]) fail("equal points in different cells"); cellof[out[i]] = id[i]; }
  std::vector<std::array<Tf, 3>> want; std::vector<long> ord(N); std::iota(ord.begin(), ord.end(), 0);
  for (auto& p : in) if (!cellof.count(p)) fail("point (%.9g,%.9g,%.9g) lost", (double)p[0], (double)p[1], (double)p[2]);
  std::stable_sort(ord.begin(), ord.end(), [&](long a, long b) { return cellof[in[a]] < cellof[in[b]]; });
  for (long i = 0; i < N; i++) if (!(out[i] == in[ord[i]])) fail("position %ld does not hold the expected point (lost, altered, or order inside its cell changed)", i);
  // the validators accept this and reject corrupted copies
  if (!xyzset::validate_xyzset<Tf>(out)) fail("validate_xyzset rejects points inside (0,1)");
  if (!xyzset::validate_id<Ti>(id)) fail("validate_id rejects ascending ids");
  if (!xyzset::validate_sort<Ti, Tf>(out, id, (Ti)gr)) fail("validate_sort rejects a sorted set");
  if (N > 0) {
    auto bad = out; bad[r.in(0, N - 1)][r.in(0, 2)] = r.one_in(2) ? (Tf)1 : (Tf)0; if (xyzset::validate_xyzset<Tf>(bad)) fail("validate_xyzset accepts a coordinate on the border");
    auto bid = id; long j = r.in(0, N - 1); bid[j] += 1; if (xyzset::validate_sort<Ti, Tf>(out, bid, (Ti)gr)) fail("validate_sort accepts a wrong id at %ld", j);
    for (long i = 1; i < N; i++) if (id[i] > id[i - 1]) { auto d = id; std::swap(d[i], d[i - 1]); if (xyzset::validate_id<Ti>(d)) fail("validate_id accepts descending ids"); break; }
  }
}
int main(int c, char** v) {
  return run(c, v, 80, 200000, 60, [](long n, rng& r) { switch (n % 4) { case 1: one<int, double>(n, r, "int,double"); break; case 3: one<long, float>(n, r, "long,float"); break; default: one<int, float>(n, r, "int,float"); } });
}
