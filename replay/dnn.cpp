#include "oracle.hpp"
#include <dnn.hpp>
#include <fstream>
using namespace oracle;
typedef std::vector<std::vector<long>> rowsT;
static std::string tmpf;
// "a, b, " per row between braces
static rowsT parse_print(const std::string& s) {
  rowsT out; size_t i = s.find('{'); if (i == std::string::npos) fail("no opening brace"); i++;
  while (i < s.size()) { size_t a = s.find_first_of("{}", i); if (a == std::string::npos) fail("unbalanced output"); if (s[a] == '}') { return out; } size_t b = s.find('}', a); if (b == std::string::npos) fail("unbalanced output");
    std::vector<long> row; std::string t = s.substr(a + 1, b - a - 1); if (t.find('{') != std::string::npos) fail("unbalanced output"); for (char& ch : t) if (ch == ',') ch = ' '; std::istringstream is(t); long x; while (is >> x) row.push_back(x); out.push_back(row); i = b + 1; }
  fail("unterminated output");
}
template <class Ti> static void one(long n, rng& r, const char* ty) {
  bool big = n == 13 || n == 15 || n % 5000 == 14; long N = n < 12 ? n / 3 : big ? 300 : r.in(0, 14); rowsT rows(N); int dens = big ? 3 : r.in(0, 3); std::string txt;
  for (auto& x : rows) { long m = dens == 0 ? 0 : r.one_in(3) ? 0 : r.in(0, big ? 800 : 5); for (long j = 0; j < m; j++) x.push_back(r.one_in(4) ? r.in(0, 3) : r.in(-40, 4000)); txt += "["; for (long y : x) txt += std::to_string(y) + " "; txt += "]"; }
  if (big) { txt = "300 rows of sizes "; for (auto& x : rows) txt += std::to_string(x.size()) + " "; }
  desc("%s rows=%s", ty, txt.c_str());
  std::vector<Ti> list, offs(1, 0); for (auto& x : rows) { for (long y : x) list.push_back((Ti)y); offs.push_back((Ti)list.size()); }
  auto l = list, o = offs; votess::dnn<Ti> d = r.one_in(2) ? votess::dnn<Ti>(l, o) : votess::dnn<Ti>(std::move(l), std::move(o));
  { votess::dnn<Ti> e; if (e.size() != 0) fail("a default container has size %zu", e.size()); }
  if (d.size() != (size_t)N) fail("size %zu of %ld rows", d.size(), N);
  auto check = [&](const char* when) { for (long i = 0; i < N; i++) { if (d[(int)i].size() != rows[i].size()) fail("row %ld has length %zu%s", i, d[(int)i].size(), when); for (size_t j = 0; j < rows[i].size(); j++) if (d[(int)i][j] != (Ti)rows[i][j]) fail("element (%ld,%zu) is %ld%s", i, j, (long)d[(int)i][j], when); } };
  check("");
  std::ostringstream cap; auto* old = std::cout.rdbuf(cap.rdbuf()); d.print(); std::cout.rdbuf(old);
  auto got = parse_print(cap.str()); if (got != rows) fail("printed %zu rows: %s", got.size(), cap.str().c_str());
  d.savetxt(tmpf); std::ifstream f(tmpf); rowsT file; std::string ln; while (std::getline(f, ln)) { std::istringstream is(ln); std::vector<long> row; long x; while (is >> x) row.push_back(x); file.push_back(row); }
  if (file != rows) { std::ifstream g(tmpf); std::stringstream b; b << g.rdbuf(); fail("saved %zu lines for %ld rows: %s", file.size(), N, b.str().c_str()); }
  check(" after printing");
  for (int w = 0; w < 4 && N; w++) { long i = r.in(0, N - 1); if (rows[i].empty()) continue; long j = r.in(0, rows[i].size() - 1); long v = r.in(-9, 9); d[(int)i][j] = (Ti)v; rows[i][j] = v; check(" after a write"); }
  if (d.size() != (size_t)N) fail("size changed");
}
int main(int c, char** v) {
  char t[] = "/tmp/oracle_dnn_XXXXXX"; int fd = mkstemp(t); close(fd); tmpf = t;
  int rc = run(c, v, 600, 200000, 10, [](long n, rng& r) { if (n % 4 == 3) one<long>(n, r, "long"); else one<int>(n, r, "int"); });
  unlink(t); return rc;
}
