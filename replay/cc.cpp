// (the row-accessor overload of cci::compute cannot be instantiated and is not covered)
// cci::compute against a reference clipper in double precision, all three memory layouts.
// Cases closer to a degeneracy than the margin are only checked for memory and row discipline.
#include "oracle.hpp"
#include <arguments.hpp>
#include <xyzset.hpp>
#include <status.hpp>
#include <cc.hpp>
using namespace oracle;
template <class T> using RD = device_accessor_read_t<T>; template <class T> using RW = device_accessor_readwrite_t<T>;
static int from = 0, to = 2; static std::string mode = "all"; static long checked = 0, total = 0;
static const double MARGIN = 4e-4;
struct expect { bool sr = false, pover = false, tover = false, degenerate = false; std::vector<int> row; size_t nv = 0; std::vector<std::array<double,3>> verts; };
static expect reference(const std::vector<pt>& pts, int q, const std::vector<int>& cand, int pmax, int tmax) {
  expect e; cell c(pts[q]); long ps = 6;
  if (pmax < 6) e.pover = true; if (tmax < 8) e.tover = true; if (e.pover || e.tover) return e;
  for (size_t n = 0; n < cand.size(); n++) {
    if (cand[n] == -32) break;
    double R = c.radius2(), d2 = 0; for (int i = 0; i < 3; i++) { double x = (double)pts[cand[n]][i] - pts[q][i]; d2 += x * x; }
    if (d2 < 1e-4) { e.degenerate = true; return e; }
    bool cut = c.clip(pts[cand[n]], n);
    if (c.margin < MARGIN || c.edge() < 1e-3) { e.degenerate = true; return e; }
    if (cut) {
      if (ps >= pmax || ps >= 255) { e.pover = true; return e; }
      ps++;
      if (c.f.empty()) { e.degenerate = true; return e; }
      if ((long)c.nverts() > tmax) { e.tover = true; return e; }
    }
    if (std::fabs(d2 - 4 * R) < 1e-3) { e.degenerate = true; return e; }
    if (d2 > 4 * R) { e.sr = true; break; }
  }
  for (int t : c.tags()) e.row.push_back(cand[t]);
  e.nv = c.nverts(); for (auto& g : c.f) for (auto& x : g.v) e.verts.push_back(x);
  return e;
}
static void one(long n, rng& r) {
  int var = from == 1 || (to == 2 && n % 2) ? 2 : 0; long N = r.one_in(6) ? r.in(1, 3) : r.in(3, 18); int shape = r.one_in(6) ? 4 : 0; long kind = n % 11;
  auto pts = points(r, N, shape); int q = r.in(0, N - 1); std::vector<int> cand;
  if (kind == 10) { // a shell of points at about the same distance: many vertices
    N = r.in(12, 70); pts.assign(1, pt{0.5f, 0.5f, 0.5f}); q = 0;
    while ((long)pts.size() < N) { double v[3], s = 0; for (auto& x : v) { x = r.unit() * 2 - 1; s += x * x; } if (s < 0.01 || s > 1) continue; double R = 0.35 + 0.03 * r.unit(); pt p; for (int c = 0; c < 3; c++) p[c] = (float)(0.5 + R * v[c] / std::sqrt(s)); pts.push_back(p); }
  }
  if (kind == 3 || kind == 7) { // shrinking box: many planes, few vertices
    long steps = kind == 3 ? r.in(240, 262) : r.in(5, 60); pts.assign(1, pt{0.5f, 0.5f, 0.5f}); q = 0;
    pts[0] = {0.5f + (float)(r.unit() - .5) * .02f, 0.5f + (float)(r.unit() - .5) * .02f, 0.5f + (float)(r.unit() - .5) * .02f};
    for (long s = 0; s < steps; s++) { double d = 0.46 - 0.36 * s / steps; int a = (int)r.in(0, 5); pt p = pts[0]; p[a / 2] += (float)(a & 1 ? d : -d); pts.push_back(p); }
    for (long s = 1; s <= steps; s++) cand.push_back(s);
  } else {
    for (int i = 0; i < N; i++) if (i != q) cand.push_back(i);
    auto dist = [&](int i) { double s = 0; for (int c = 0; c < 3; c++) { double x = (double)pts[i][c] - pts[q][c]; s += x * x; } return s; };
    std::sort(cand.begin(), cand.end(), [&](int a, int b) { return dist(a) < dist(b); });
    if (kind == 5) for (size_t i = cand.size(); i > 1; i--) std::swap(cand[i - 1], cand[r.in(0, i - 1)]);   // any order
    if (kind == 6) std::reverse(cand.begin(), cand.end());
  }
  int k = r.one_in(3) ? (int)cand.size() + r.in(0, 3) : r.in(1, cand.size() + 1); if (kind == 3 || kind == 7) k = cand.size();
  if (k < 1) k = 1; cand.resize(std::min<size_t>(cand.size(), k)); while ((int)cand.size() < k) cand.push_back(-32);
  if (kind == 10) k = cand.size();
  int pmax = kind == 3 ? r.in(250, 300) : 128, tmax = kind == 10 ? r.one_in(3) ? r.in(30, 140) : 200 : 128;
  if (kind == 1 || kind == 4 || kind == 8) pmax = r.in(1, 24); if (kind == 2 || kind == 4 || kind == 9) tmax = r.in(1, 34);
  if (kind == 3 && r.one_in(3)) pmax = r.in(250, 260);
  long rows = r.in(1, 3), row = r.in(0, rows - 1), nd = var == 2 ? r.in(1, rows) : 1, li = row % nd;
  uint8_t st0 = 0;
  desc("%s n=%zu k=%d p_maxsize=%d t_maxsize=%d point=%d row=%ld of %ld kind=%ld points=%s", var == 0 ? "host" : var == 1 ? "device row" : "device column", pts.size(), k, pmax, tmax, q, row, rows, kind, show(pts, 20).c_str());
  N = pts.size();
  std::vector<cc::state> states(N); for (long i = 0; i < N; i++) states[i].byte = i == q ? st0 : (uint8_t)(37 * i);
  std::vector<float> P(rows * pmax * 4), soa(3 * N); std::vector<uint8_t> T(rows * tmax * 3), dR((var == 2 ? nd : rows) * pmax); std::vector<int> knn(rows * k), dk(rows * k, -32);
  for (size_t i = 0; i < P.size(); i++) P[i] = 50 + i; for (size_t i = 0; i < T.size(); i++) T[i] = 200 + i % 7; for (size_t i = 0; i < dR.size(); i++) dR[i] = 100 + i % 9; for (size_t i = 0; i < knn.size(); i++) knn[i] = 9000 + i;
  for (long i = 0; i < N; i++) for (int c = 0; c < 3; c++) soa[c * N + i] = pts[i][c];
  long stride = rows;
  auto ka = [&](long j) { return var == 2 ? stride * j + row : (long)k * row + j; };
  auto pa = [&](long j, int c) { return var == 0 ? 4 * pmax * row + 4 * j + c : 4 * stride * j + stride * c + row; };
  for (int j = 0; j < k; j++) knn[ka(j)] = cand[j];
  if (var != 2) for (size_t i = 0; i < dk.size(); i++) if ((long)i / k != row) dk[i] = 8000 + i;
  auto P0 = P; auto T0 = T; auto R0 = dR; auto k0 = knn, d0 = dk; auto s0 = states; auto pts0 = pts;
  args::cc a(k, pmax, tmax);
  if (var == 0) cci::compute<int, float, uint8_t>(row, q, states, P.data(), T.data(), dR.data(), knn, dk, pts, N, pts, N, a);
  else {
    RW<cc::state> as(states.data(), N); RW<float> aP(P.data(), P.size()); RW<uint8_t> aT(T.data(), T.size()); RW<int> ak(knn.data(), knn.size()), ad(dk.data(), dk.size()); RD<float> ax(soa.data(), soa.size());
    {
      sycl::local_accessor<uint8_t, 1> aR(dR.data(), dR.size());
      cci::compute<int, float, uint8_t>(row, li, q, as, aP, aT, aR, ak, (int)stride, ad, ax, N, ax, N, a);
    }
  }
  // row discipline
  for (long i = 0; i < N; i++) if (i != q && states[i].byte != s0[i].byte) fail("flags of point %ld changed", i);
  { std::set<long> in; for (int j = 0; j < k; j++) in.insert(ka(j)); for (size_t i = 0; i < knn.size(); i++) if (!in.count(i) && (knn[i] != k0[i] || dk[i] != d0[i])) fail("candidate row of another point changed at %zu", i); }
  if (var != 1) { std::set<long> in; for (int j = 0; j < pmax; j++) for (int c = 0; c < 4; c++) in.insert(pa(j, c)); for (size_t i = 0; i < P.size(); i++) if (!in.count(i) && P[i] != P0[i]) fail("planes of another point changed at %zu", i); }
  for (size_t i = 0; i < T.size(); i++) if ((long)i / (3 * tmax) != row && T[i] != T0[i]) fail("vertices of another point changed at %zu", i);
  for (size_t i = 0; i < dR.size(); i++) if ((long)i / pmax != (var == 2 ? li : row) && dR[i] != R0[i]) fail("boundary row of another point changed at %zu", i);
  // outcome
  auto& s = states[q]; bool po = s.get(cc::error_p_overflow), to_ = s.get(cc::error_t_overflow), ib = s.get(cc::error_infinite_boundary), sr = s.get(cc::security_radius_reached);
  auto e = reference(pts, q, cand, pmax, tmax); total++;
  if (!po && !to_ && !ib) { // structure of the row whatever the margin
    bool und = false; std::set<int> seen; size_t pos = 0;
    for (int j = 0; j < k; j++) { int g = knn[ka(j)]; if (g == -32) { und = true; continue; } if (und) fail("entry %d after the undefined mark", g); if (!seen.insert(g).second) fail("neighbour %d listed twice", g); while (pos < cand.size() && cand[pos] != g) pos++; if (pos == cand.size()) fail("neighbour %d is not in candidate order", g); }
  }
  if (e.degenerate) return;
  checked++;
  if (po != e.pover) fail("plane overflow flag %d, expected %d", po, e.pover);
  if (to_ != e.tover) fail("vertex overflow flag %d, expected %d", to_, e.tover);
  if (ib) fail("boundary failure on a regular cell");
  if (sr != e.sr) fail("security radius flag %d, expected %d", sr, e.sr);
  if (s.get(cc::error_occurred) || s.get(cc::error_nonvalid_neighbor) || s.get(cc::error_nonvalid_vertices)) fail("error flag left set: 0x%x", s.byte);
  if (po || to_) return;
  std::vector<int> got; for (int j = 0; j < k; j++) if (knn[ka(j)] != -32) got.push_back(knn[ka(j)]);
  if (got != e.row) { std::string w; for (int x : got) w += std::to_string(x) + " "; w += " expected "; for (int x : e.row) w += std::to_string(x) + " "; fail("neighbours %s", w.c_str()); }
  // vertices
  std::set<std::array<int, 3>> seen;
  for (size_t m = 0; m < e.nv; m++) {
    int t[3]; for (int j = 0; j < 3; j++) t[j] = T[3 * tmax * row + 3 * m + j];
    double A[3][4]; for (int j = 0; j < 3; j++) for (int c = 0; c < 4; c++) { if (t[j] >= pmax) fail("vertex %zu refers to plane %d of %d", m, t[j], pmax); A[j][c] = P[pa(t[j], c)]; }
    auto det = [](double a, double b, double c, double d, double e_, double f, double g, double h, double i_) { return a * (e_ * i_ - f * h) - b * (d * i_ - f * g) + c * (d * h - e_ * g); };
    double D = det(A[0][0], A[0][1], A[0][2], A[1][0], A[1][1], A[1][2], A[2][0], A[2][1], A[2][2]); if (D == 0) fail("vertex %zu lies on dependent planes", m);
    double x = -det(A[0][3], A[0][1], A[0][2], A[1][3], A[1][1], A[1][2], A[2][3], A[2][1], A[2][2]) / D, y = -det(A[0][0], A[0][3], A[0][2], A[1][0], A[1][3], A[1][2], A[2][0], A[2][3], A[2][2]) / D, z = -det(A[0][0], A[0][1], A[0][3], A[1][0], A[1][1], A[1][3], A[2][0], A[2][1], A[2][3]) / D;
    double best = 1e9; for (auto& v : e.verts) best = std::min(best, std::fabs(v[0] - x) + std::fabs(v[1] - y) + std::fabs(v[2] - z));
    if (best > 3e-3) fail("vertex %zu at (%g,%g,%g) is not a vertex of the cell", m, x, y, z);
    std::array<int, 3> key{t[0], t[1], t[2]}; std::sort(key.begin(), key.end()); if (!seen.insert(key).second) fail("vertex %zu repeated", m);
  }
}
int main(int c, char** v) {
  if (getenv("ORACLE_VARIANT")) { std::string s = getenv("ORACLE_VARIANT"); if (s == "host") to = 0; if (s == "device") from = 1; }
  int rc = run(c, v, 400, 400000, 30, one);
  fprintf(stderr, "compared with the reference: %ld of %ld\n", checked, total);
  if (c <= 3 && checked * 5 < total) fprintf(stderr, "note: few cases away from degeneracy\n");
  return rc;
}
