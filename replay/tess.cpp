// whole-run behaviour: threads and chunks, device, recompute, assembly, top level (ORACLE_MODE)
#include "oracle.hpp"
#include <votess.hpp>
using namespace oracle;
typedef std::vector<std::vector<int>> rowsT;
static std::string mode = "threads";
struct data { std::vector<pt> raw, pts; std::vector<int> id, off; };
static data make(rng& r, long N, int shape, int gr) { data d; d.raw = points(r, N, shape, gr); d.pts = d.raw; auto x = xyzset::sort<int, float>(d.pts, args::xyzset(gr)); d.id = x.first; d.off = x.second; return d; }
static rowsT rows_of(votess::dnn<int>& d) { rowsT o(d.size()); for (size_t i = 0; i < d.size(); i++) for (size_t j = 0; j < d[i].size(); j++) o[i].push_back(d[i][j]); return o; }
// each point on its own: search, then clip, in private storage
static std::vector<int> single(const data& d, int q, int k, int gr, int pm, int tm, uint8_t& st) {
  std::vector<int> hid(k, -32), dk(k, -32); std::vector<float> hpq(k, INFINITY), P(4 * pm); std::vector<uint8_t> T(3 * tm), R(pm); std::vector<cc::state> s(d.pts.size()); for (auto& x : s) x.reset();
  knni::compute<int, float>(0, q, d.pts, d.pts.size(), d.id, d.off, d.pts, d.pts.size(), hid, hpq, args::knn(k, gr));
  cci::compute<int, float, uint8_t>(0, q, s, P.data(), T.data(), R.data(), hid, dk, d.pts, d.pts.size(), d.pts, d.pts.size(), args::cc(k, pm, tm));
  st = s[q].byte; std::vector<int> o; for (int x : hid) { if (x == -32) break; o.push_back(x); } return o;
}
static rowsT composed(const data& d, int k, int gr, int pm, int tm, std::vector<int>& st) { rowsT o; st.clear(); for (size_t q = 0; q < d.pts.size(); q++) { uint8_t b; o.push_back(single(d, q, k, gr, pm, tm, b)); st.push_back(b); } return o; }
static bool full_cell(const data& d, int q, std::set<int>& out) {
  cell c(d.pts[q]); std::vector<std::pair<double, int>> o; for (size_t i = 0; i < d.pts.size(); i++) if ((int)i != q) { double s = 0; for (int k = 0; k < 3; k++) { double x = (double)d.pts[i][k] - d.pts[q][k]; s += x * x; } o.push_back({s, (int)i}); if (s < 1e-4) return false; }
  std::sort(o.begin(), o.end()); for (auto& x : o) { c.clip(d.pts[x.second], x.second); if (c.margin < 4e-4 || c.edge() < 1e-3) return false; }
  out = c.tags(); return true;
}
static std::string rowtxt(const std::vector<int>& v) { std::string s = "["; for (int x : v) s += std::to_string(x) + " "; return s + "]"; }
static void same(const rowsT& got, const rowsT& want, const char* what) {
  if (got.size() != want.size()) fail("%zu rows for %zu points (%s)", got.size(), want.size(), what);
  for (size_t i = 0; i < got.size(); i++) if (got[i] != want[i]) fail("row %zu is %s, expected %s (%s)", i, rowtxt(got[i]).c_str(), rowtxt(want[i]).c_str(), what);
}
static votess::vtargs mkargs(int k, int gr, int pm, int tm) { votess::vtargs a; a["k"] = k; a["knn_grid_resolution"] = gr; a["cc_p_maxsize"] = pm; a["cc_t_maxsize"] = tm; return a; }
static std::string cfg(const data& d, votess::vtargs& a) { char b[600]; snprintf(b, sizeof b, "n=%zu k=%d resolution=%d p_maxsize=%d t_maxsize=%d threads=%d chunking=%d chunksize=%d ndsize=%d recompute=%d points=", d.raw.size(), a["k"].get<int>(), a["knn_grid_resolution"].get<int>(), a["cc_p_maxsize"].get<int>(), a["cc_t_maxsize"].get<int>(), a["cpu_nthreads"].get<int>(), (int)a["use_chunking"].get<bool>(), a["chunksize"].get<int>(), a["gpu_ndsize"].get<int>(), (int)a["use_recompute"].get<bool>()); return b + show(d.raw, 30); }
static void sched(rng& r, votess::vtargs& a, long N) {
  int t[] = {1, 2, 3, 5, 8, (int)N, (int)N + 3}; a["cpu_nthreads"] = std::max(1, std::min(t[r.in(0, 6)], 24)); if (r.one_in(8)) a["cpu_nthreads"] = 0;
  if (r.one_in(4)) { a["use_chunking"] = false; a["chunksize"] = (int)r.in(1, N + 2); } else { a["use_chunking"] = true; int c[] = {1, 2, 3, (int)N - 1, (int)N, (int)N + 1, (int)N / 2, (int)N / 3, (int)r.in(1, N + 2), 0}; int x = c[r.in(0, 9)]; a["chunksize"] = x < 0 ? 1 : x; }
  a["gpu_ndsize"] = (int)r.in(0, 5);
}
static void threads(long n, rng& r) {
  int gr = r.in(1, 6); long N = r.one_in(6) ? r.in(0, 3) : r.one_in(25) ? r.in(40, 400) : r.in(2, 40); auto d = make(r, N, r.in(0, 5), gr); int k = r.one_in(12) ? r.in(15, 60) : r.in(1, 14), pm = r.one_in(3) ? r.in(6, 14) : 40, tm = r.one_in(3) ? r.in(8, 24) : 80;
  auto a = mkargs(k, gr, pm, tm); sched(r, a, std::max(N, 1L)); bool dev = mode == "device"; sycl::device::fake_gpu() = dev; desc("%s %s", dev ? "device" : "host", cfg(d, a).c_str());
  std::vector<int> st; auto want = composed(d, k, gr, pm, tm, st);
  rowsT tmp(N); std::vector<cc::state> s(N); for (auto& x : s) x.reset(); std::ostringstream sink; auto* old = std::cout.rdbuf(sink.rdbuf());
  if (dev) { if (N > 0) votess::__gpu__tesellate<int, float, uint8_t>(d.pts, d.id, d.off, d.pts, tmp, s, a); } else votess::__cpu__tesellate<int, float, uint8_t>(d.pts, d.id, d.off, d.pts, tmp, s, a);
  std::cout.rdbuf(old); same(tmp, want, "after the stage");
  for (long i = 0; i < N; i++) if (s[i].byte != st[i]) fail("flags of point %ld are 0x%x, expected 0x%x", i, s[i].byte, st[i]);
  auto raw = d.raw; auto out = votess::tesellate<int, float>(raw, a, dev ? votess::device::gpu : votess::device::cpu); if (raw != d.pts) fail("the point set is not in sorted order after the run"); same(rows_of(out), want, "result");
}
static void recompute(long n, rng& r) {
  int gr = r.in(1, 6); long N = r.one_in(6) ? r.in(1, 5) : r.in(4, 40); auto d = make(r, N, r.one_in(5) ? 4 : 0, gr); int k = r.one_in(6) ? r.in(N > 1 ? N - 1 : 1, N + 4) : r.in(1, 8), pm = r.one_in(2) ? r.in(1, 12) : 40, tm = r.one_in(2) ? r.in(1, 20) : 80;
  auto a = mkargs(k, gr, pm, tm); a["use_recompute"] = true; a["cpu_nthreads"] = (int)r.in(1, 6); desc("%s", cfg(d, a).c_str());
  rowsT tmp(N); std::vector<cc::state> s(N); for (auto& x : s) x.reset(); std::ostringstream sink; auto* old = std::cout.rdbuf(sink.rdbuf());
  votess::__cpu__tesellate<int, float, uint8_t>(d.pts, d.id, d.off, d.pts, tmp, s, a);
  std::set<int> keep; for (long i = 0; i < N; i++) if (r.one_in(4)) { s[i].set_true(cc::security_radius_reached); tmp[i] = {-7, (int)i}; }
  for (long i = 0; i < N; i++) if (s[i].get(cc::security_radius_reached)) keep.insert(i); auto tmp0 = tmp;
  votess::__cpu__recompute<int, float, uint8_t>(d.pts, d.id, d.off, d.pts, tmp, s, a); std::cout.rdbuf(old);
  if ((long)tmp.size() != N) fail("%zu rows", tmp.size());
  for (long i = 0; i < N; i++) {
    if (keep.count(i)) { if (tmp[i] != tmp0[i]) fail("row %ld had reached its security radius and changed to %s", i, rowtxt(tmp[i]).c_str()); continue; }
    std::set<int> w; if (!full_cell(d, i, w)) continue; std::set<int> g(tmp[i].begin(), tmp[i].end());
    if (g != w || g.size() != tmp[i].size()) { std::vector<int> ww(w.begin(), w.end()); fail("row %ld is %s after recompute, the cell has %s", i, rowtxt(tmp[i]).c_str(), rowtxt(ww).c_str()); }
  }
}
static void assembly(long n, rng& r) {
  long N = r.one_in(6) ? r.in(0, 2) : r.one_in(20) ? r.in(30, 400) : r.in(1, 30); int k = r.one_in(8) ? r.in(10, 300) : r.in(1, 9); rowsT tmp(N); for (auto& x : tmp) for (long j = r.in(0, 3); j > 0; j--) x.push_back(r.in(100, 200)); auto want = tmp;
  std::vector<int> ind(N); std::iota(ind.begin(), ind.end(), 0); for (long i = N; i > 1; i--) std::swap(ind[i - 1], ind[r.in(0, i - 1)]); long size = r.in(0, N); std::vector<int> knn(N * k + r.in(0, 4), 5555);
  for (long i = 0; i < size; i++) { long m = r.one_in(3) ? 0 : r.one_in(3) ? k : r.in(0, k); want[ind[i]].clear(); for (int j = 0; j < k; j++) { knn[k * i + j] = j < m ? (int)r.in(0, 4000) : -32; if (j < m) want[ind[i]].push_back(knn[k * i + j]); } if (m + 1 < k && r.one_in(3)) knn[k * i + m + 1] = 77; }
  votess::vtargs a; a["k"] = k; std::string t; for (auto& x : want) t += rowtxt(x); desc("n=%ld k=%d filled=%ld rows=%s", N, k, size, t.c_str());
  auto ind0 = ind; auto knn0 = knn; votess::tmpnn_fill<int>(tmp, ind, size, knn, a); same(tmp, want, "after filling"); if (ind != ind0 || knn != knn0) fail("the inputs changed");
  auto d = votess::tmpnn_getdnn<int>(tmp); if (d.size() != (size_t)N) fail("container has %zu rows", d.size()); same(rows_of(d), want, "in the container");
  std::vector<int> cat; for (auto& x : want) cat.insert(cat.end(), x.begin(), x.end()); if (d.list != cat) fail("the list is not the concatenation of the rows"); if ((long)d.offs.size() != N + 1 || d.offs[0] != 0 || d.offs[N] != (int)cat.size()) fail("offsets do not delimit the rows");
}
static void top(long n, rng& r) {
  int gr = r.in(1, 8); long N = r.one_in(6) ? r.in(0, 3) : r.one_in(25) ? r.in(40, 200) : r.in(2, 40); auto d = make(r, N, r.one_in(3) ? r.in(1, 5) : 0, gr); int k = r.one_in(12) ? r.in(13, 40) : r.in(1, 12), pm = 40, tm = 80; auto a = mkargs(k, gr, pm, tm); bool rec = r.one_in(2); a["use_recompute"] = rec; sched(r, a, std::max(N, 1L));
  bool gpu = r.one_in(2), have = r.one_in(2), quiet = r.one_in(2); sycl::device::fake_gpu() = have; a["dev_suppress_stdout"] = quiet; desc("device=%s available=%d quiet=%d %s", gpu ? "gpu" : "cpu", have, quiet, cfg(d, a).c_str());
  if (N == 0 && gpu && have) return;
  std::vector<int> st; auto want = composed(d, k, gr, pm, tm, st); auto raw = d.raw; std::ostringstream cap; auto* old = std::cout.rdbuf(cap.rdbuf()); long q0 = sycl::queue::created();
  auto* mine = std::cout.rdbuf(); auto out = votess::tesellate<int, float>(raw, a, gpu ? votess::device::gpu : votess::device::cpu); bool ok = std::cout.rdbuf() == mine; std::cout << "tail"; std::string text = cap.str(); std::cout.rdbuf(old);
  if (!ok || text.size() < 4 || text.substr(text.size() - 4) != "tail") fail("standard output is not connected as before"); if (quiet && text != "tail") fail("a quiet run printed: %s", text.c_str());
  if ((sycl::queue::created() > q0) != (gpu && have)) fail("device %sused", gpu && have ? "not " : "");
  if (raw != d.pts) fail("the point set is not the sorted input"); auto rows = rows_of(out); if ((long)rows.size() != N) fail("%zu rows for %ld points", rows.size(), N);
  for (auto& x : rows) for (int y : x) if (y < 0 || y >= N) fail("neighbour %d outside the point set", y);
  if (!rec) same(rows, want, "without recompute");
  else for (long i = 0; i < N; i++) {
    if (st[i] & (1 << cc::security_radius_reached)) { if (rows[i] != want[i]) fail("row %ld had reached its security radius: %s, expected %s", i, rowtxt(rows[i]).c_str(), rowtxt(want[i]).c_str()); }
    std::set<int> w; if (!full_cell(d, i, w)) continue; std::set<int> g(rows[i].begin(), rows[i].end()); std::vector<int> ww(w.begin(), w.end()); if (g != w) fail("row %ld is %s, the cell has %s", i, rowtxt(rows[i]).c_str(), rowtxt(ww).c_str());
  }
  if (r.one_in(5)) { votess::vtargs b = a; b["use_recompute"] = std::string("abc"); auto* m2 = std::cout.rdbuf(cap.rdbuf()); bool thrown = false; try { auto raw2 = d.raw; votess::tesellate<int, float>(raw2, b, votess::device::cpu); } catch (const std::exception&) { thrown = true; } bool ok2 = std::cout.rdbuf() == cap.rdbuf(); std::cout.rdbuf(m2); if (!thrown) fail("a malformed parameter was accepted"); if (!ok2) fail("standard output lost after an exception"); }
}
int main(int c, char** v) {
  if (getenv("ORACLE_MODE")) mode = getenv("ORACLE_MODE"); std::ostringstream es; auto* oe = std::cerr.rdbuf(es.rdbuf());
  int rc = run(c, v, 60, 400000, 60, [](long n, rng& r) { if (mode == "recompute") recompute(n, r); else if (mode == "assembly") assembly(n, r); else if (mode == "top") top(n, r); else threads(n, r); });
  std::cerr.rdbuf(oe); return rc;
}
