// command line (C16): option parsing and whole runs of the real main()
#include "oracle.hpp"
#define main votess_main
#include <main.cpp>
#undef main
#include <fstream>
using namespace oracle;
static const char* keys[] = {"k", "cpu_nthreads", "gpu_ndsize", "chunksize", "use_chunking", "use_recompute", "knn_grid_resolution", "cc_p_maxsize", "cc_t_maxsize", "dev_suppress_stdout"};
static const long defs[] = {64, 0, 1, 8196, 0, 0, 16, 32, 32, 1};
struct opt { char s; const char* l; int key; };          // key -1: input file, -2: device
static const opt opts[] = {{'i', "infile", -1}, {'k', "k-init", 0}, {'g', "grid-resolution", 6}, {'t', "cpu-nthreads", 1}, {'d', "gpu-ndsize", 2}, {'c', "chunksize", 3}, {'u', "use-chunking", 4}, {'r', "use-recompute", 5}, {'p', "p-maxsize", 7}, {'m', "t-maxsize", 8}, {'x', "use-device", -2}};
struct line { std::vector<std::string> words; std::string file; std::vector<long> want; bool gpu = false;
  void add(rng& r, const opt& o, const std::string& v) {
    bool flag = o.key == 4 || o.key == 5;
    if (r.one_in(2)) { std::string w = std::string("-") + o.s; if (flag) words.push_back(w); else if (r.one_in(2)) words.push_back(w + v); else { words.push_back(w); words.push_back(v); } }
    else { std::string w = std::string("--") + o.l; if (flag) words.push_back(w); else if (r.one_in(2)) words.push_back(w + "=" + v); else { words.push_back(w); words.push_back(v); } }
    if (o.key == -1) file = v; else if (o.key == -2) gpu = v == "gpu"; else want[o.key] = flag ? 1 : atol(v.c_str());
  }
  std::string text() const { std::string s; for (auto& w : words) s += w + " "; return s; }
  std::vector<char*> argv() const { std::vector<char*> a; a.push_back(strdup("clvotess")); for (auto& w : words) a.push_back(strdup(w.c_str())); a.push_back(nullptr); return a; }
};
static std::string dir;
static int run_main(const line& l, std::string& out, long& queues) {
  auto a = l.argv(); optind = 0; std::ostringstream cap, err; auto* oc = std::cout.rdbuf(cap.rdbuf()); auto* oe = std::cerr.rdbuf(err.rdbuf()); long q = sycl::queue::created();
  int rc = votess_main((int)a.size() - 1, a.data()); queues = sycl::queue::created() - q; std::cout.rdbuf(oc); std::cerr.rdbuf(oe); out = cap.str(); for (auto p : a) free(p); return rc;
}
int main(int c, char** v) {
  char t[] = "/tmp/votess_cli_XXXXXX"; if (!mkdtemp(t)) return 2; dir = t; opterr = 0;
  static std::string file = dir + "/in.txt";
  atexit([] { unlink(file.c_str()); rmdir(dir.c_str()); });
  int rc = run(c, v, 300, 100000, 20, [](long n, rng& r) {
    // --- parsing
    { line l; l.want.assign(defs, defs + 10); int m = n == 0 ? 0 : r.in(1, 9);
      for (int i = 0; i < m; i++) { const opt& o = opts[n > 0 && n <= 11 && i == 0 ? n - 1 : r.in(0, 10)]; std::string val = o.key == -1 ? "file" + std::to_string(r.in(0, 9)) : o.key == -2 ? (r.one_in(2) ? "cpu" : "gpu") : std::to_string(r.one_in(4) ? r.in(0, 3) : r.in(0, 99999)); l.add(r, o, val); }
      desc("clvotess %s", l.text().c_str()); auto a = l.argv(); optind = 0; auto [f, args, dev] = parse_args((int)a.size() - 1, a.data()); for (auto p : a) free(p);
      if (f != l.file) fail("input file is '%s'", f.c_str()); if ((dev == votess::device::gpu) != l.gpu) fail("device is %s", l.gpu ? "cpu" : "gpu");
      for (int i = 0; i < 10; i++) { long x = args[keys[i]].get<long>(); if (x != l.want[i]) fail("%s is %ld, expected %ld", keys[i], x, l.want[i]); }
    }
    if (n % 4) return;
    // --- whole run
    line l; l.want.assign(defs, defs + 10); l.file = ""; int kind = n / 4 < 7 ? (n / 4) % 7 : r.in(0, 9); bool bad = kind < 6; int N = r.in(1, 30), gr = r.in(1, 5); auto pts = points(r, N, 0, gr);
    std::string txt; char b[120]; int badline = r.in(0, N - 1);
    for (int i = 0; i < N; i++) { snprintf(b, sizeof b, "%.9g %.9g %.9g", pts[i][0], pts[i][1], pts[i][2]); std::string s = b; if (i == badline) { if (kind == 1) s = "0.5 0.5"; if (kind == 2) s = "0.1 x 0.2"; if (kind == 3) s = "a,b,c"; } txt += s; if (i + 1 < N || r.one_in(2)) txt += "\n"; }
    { std::ofstream o(file); o << txt; }
    if (kind != 0) l.add(r, opts[0], kind == 4 ? dir + "/missing.txt" : kind == 5 ? std::string("") : file);
    if (kind == 5) { l.words = {"-i", ""}; l.file = ""; }
    l.add(r, opts[2], std::to_string(gr)); if (r.one_in(2)) l.add(r, opts[1], std::to_string(r.in(0, 12))); if (r.one_in(2)) l.add(r, opts[7], "");
    if (r.one_in(2)) l.add(r, opts[8], "40"); if (r.one_in(2)) l.add(r, opts[9], "80"); if (r.one_in(2)) l.add(r, opts[3], std::to_string(r.in(1, 5))); if (r.one_in(3)) { l.add(r, opts[6], ""); l.add(r, opts[5], std::to_string(r.in(1, N + 1))); }
    bool gpu = r.one_in(3); sycl::device::fake_gpu() = gpu; if (gpu) { l.add(r, opts[10], "gpu"); l.add(r, opts[4], std::to_string(r.in(1, 4))); }
    desc("clvotess %s with %d points, input kind %d", l.text().c_str(), N, kind); std::string out; long q; int rc = run_main(l, out, q);
    if (bad) { if (rc == 0) fail("exit status 0"); return; }
    if (rc != 0) fail("exit status %d", rc);
    if ((q > 0) != gpu) fail("device %sused", gpu ? "not " : "");
    votess::vtargs a; for (int i = 0; i < 10; i++) a[keys[i]] = (int)l.want[i]; if (l.want[0] == 0) a["k"] = std::min(N, 64);
    auto p2 = pts; auto d = votess::tesellate<int, float>(p2, a, gpu ? votess::device::gpu : votess::device::cpu); std::ostringstream cap; auto* oc = std::cout.rdbuf(cap.rdbuf()); d.print(); std::cout.rdbuf(oc);
    if (cap.str() != out) fail("printed result differs from the library's:\n%s\nversus\n%s", out.substr(0, 600).c_str(), cap.str().substr(0, 600).c_str());
  });
  unlink(file.c_str()); rmdir(dir.c_str()); return rc;
}
