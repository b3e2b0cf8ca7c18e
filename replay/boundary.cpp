#include "oracle.hpp"
#include <status.hpp>
#include <boundary.hpp>
using namespace oracle;
typedef std::array<int, 3> tri;
// closed oriented triangulation (stacked from a tetrahedron, then edge flips)
static std::vector<tri> sphere(rng& r, int nv) {
  std::vector<tri> t{{0, 1, 2}, {0, 2, 3}, {0, 3, 1}, {1, 3, 2}};
  for (int v = 4; v < nv; v++) { int f = r.in(0, t.size() - 1); tri x = t[f]; t[f] = {x[0], x[1], v}; t.push_back({x[1], x[2], v}); t.push_back({x[2], x[0], v}); }
  for (int k = 0; k < 3 * nv; k++) {
    int a = r.in(0, t.size() - 1), e = r.in(0, 2); int u = t[a][e], v = t[a][(e + 1) % 3], w = t[a][(e + 2) % 3]; int b = -1, x = -1;
    for (size_t i = 0; i < t.size(); i++) for (int j = 0; j < 3; j++) if (t[i][j] == v && t[i][(j + 1) % 3] == u) { b = i; x = t[i][(j + 2) % 3]; }
    bool has = false; for (auto& y : t) for (int j = 0; j < 3; j++) if ((y[j] == w && y[(j + 1) % 3] == x) || (y[j] == x && y[(j + 1) % 3] == w)) has = true;
    if (b >= 0 && !has && w != x) { t[a] = {w, u, x}; t[b] = {x, v, w}; }
  }
  return t;
}
static void one(long n, rng& r) {
  int kind = n % 6, dev = (n / 6) % 2; int nv = r.one_in(5) ? r.in(4, 60) : r.in(4, 12); int shift = r.one_in(3) ? r.in(0, 254 - nv) : 0; int rows = r.in(1, 3), row = r.in(0, rows - 1);
  int drs = r.one_in(3) ? nv + shift : std::min<int>(300, nv + shift + r.in(0, 6)); std::vector<tri> R; bool disc = false;
  if (kind == 5) { int m = r.in(1, 7); for (int i = 0; i < m; i++) { tri x; x[0] = r.in(0, nv - 1); do x[1] = r.in(0, nv - 1); while (x[1] == x[0]); do x[2] = r.in(0, nv - 1); while (x[2] == x[0] || x[2] == x[1]); R.push_back(x); } }
  else {
    auto s = sphere(r, nv);
    if (kind == 4) { R = s; if (r.one_in(2)) { R.erase(R.begin() + r.in(0, R.size() - 1)); } while (r.one_in(2) && R.size() > 1) R.erase(R.begin() + r.in(0, R.size() - 1)); }
    else { // grow a disc: add a triangle when the union stays a disc
      std::vector<char> used(s.size(), 0); int f = r.in(0, s.size() - 1); used[f] = 1; R.push_back(s[f]); int goal = r.in(1, s.size() - 1);
      std::set<int> vs(s[f].begin(), s[f].end()); disc = true;
      for (int tries = 0; tries < 400 && (int)R.size() < goal; tries++) {
        int g = r.in(0, s.size() - 1); if (used[g]) continue; int sh = 0; bool e[3];
        for (int j = 0; j < 3; j++) { e[j] = false; for (size_t i = 0; i < s.size(); i++) if (used[i]) for (int m = 0; m < 3; m++) if (s[i][m] == s[g][(j + 1) % 3] && s[i][(m + 1) % 3] == s[g][j]) e[j] = true; sh += e[j]; }
        if (sh == 1) { for (int j = 0; j < 3; j++) if (e[j]) { if (vs.count(s[g][(j + 2) % 3])) goto no; vs.insert(s[g][(j + 2) % 3]); } }
        else if (sh != 2) goto no;
        used[g] = 1; R.push_back(s[g]); no:;
      }
    }
    for (size_t i = R.size(); i > 1; i--) std::swap(R[i - 1], R[r.in(0, i - 1)]);
    for (auto& x : R) { int k = r.in(0, 2); std::rotate(x.begin(), x.begin() + k, x.end()); }
  }
  for (auto& x : R) for (int& y : x) y += shift;
  std::string txt; for (auto& x : R) txt += "(" + std::to_string(x[0]) + "," + std::to_string(x[1]) + "," + std::to_string(x[2]) + ")";
  desc("%s triangles=%s row size=%d row=%d of %d", dev ? "device" : "host", txt.c_str(), drs, row, rows);
  int roff = 3 * r.in(0, 4); std::vector<uint8_t> cyc(rows * drs, 77), T(roff + 3 * R.size() + 3 * r.in(0, 3), 99);
  for (int j = 0; j < drs; j++) cyc[row * drs + j] = 255; for (size_t i = 0; i < R.size(); i++) for (int j = 0; j < 3; j++) T[roff + 3 * i + j] = R[i][j];
  auto T0 = T; short head = -1; boundary::bstatus st;
  if (!dev) st = boundary::compute<int, uint8_t>(cyc.data(), row * drs, drs, head, T.data(), roff, (int)R.size());
  else { sycl::local_accessor<uint8_t, 1> c(cyc.data(), cyc.size()); device_accessor_readwrite_t<uint8_t> a(T.data(), T.size()); st = boundary::compute<int, uint8_t>(c, row * drs, drs, head, a, roff, (int)R.size()); }
  for (int i = 0; i < rows * drs; i++) if (i / drs != row && cyc[i] != 77) fail("another boundary row changed at %d", i);
  for (size_t i = 0; i < T.size(); i++) if ((i < (size_t)roff || i >= roff + 3 * R.size()) && T[i] != T0[i]) fail("a vertex outside the removed ones changed at %zu", i);
  std::vector<tri> got; for (size_t i = 0; i < R.size(); i++) got.push_back({T[roff + 3 * i], T[roff + 3 * i + 1], T[roff + 3 * i + 2]});
  auto a = R, b = got; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) fail("the removed triangles are not a reordering of the input");
  if (st != boundary::success && st != boundary::unreachable) fail("status %d", (int)st);
  if (st != boundary::success) { if (disc) fail("no boundary reported for a disc of triangles"); return; }
  std::map<std::pair<int, int>, int> e; for (auto& x : R) for (int j = 0; j < 3; j++) e[{x[j], x[(j + 1) % 3]}]++;
  std::map<std::pair<int, int>, int> bd; for (auto& x : e) { auto it = e.find({x.first.second, x.first.first}); int m = x.second - (it == e.end() ? 0 : it->second); if (m > 0) bd[x.first] = m; }
  int nodes = 0; for (int j = 0; j < drs; j++) if (cyc[row * drs + j] != 255) nodes++;
  if (head < 0 || head >= drs) fail("head %d", head);
  int cur = head; int steps = 0; std::map<std::pair<int, int>, int> w; std::set<int> vis;
  do { if (!vis.insert(cur).second) fail("node %d visited twice", cur); int nx = cyc[row * drs + cur]; if (nx == 255 || nx >= drs) fail("cycle broken at node %d", cur); w[{cur, nx}]++; cur = nx; steps++; } while (cur != head && steps <= 300);
  if (cur != head) fail("the cycle does not close"); if (steps != nodes) fail("%d nodes recorded, %d on the cycle", nodes, steps);
  if (w != bd) { std::string s = "cycle"; for (auto& x : w) s += " " + std::to_string(x.first.first) + ">" + std::to_string(x.first.second); s += " boundary"; for (auto& x : bd) s += " " + std::to_string(x.first.first) + ">" + std::to_string(x.first.second); fail("%s", s.c_str()); }
}
int main(int c, char** v) { return run(c, v, 3000, 1000000, 10, one); }
