// the Python binding, run inside an embedded interpreter with the real pybind11
#include <pybind11/embed.h>
#include <pybind11/pyvotess.cpp>
#include "oracle.hpp"
using namespace oracle;
namespace py = pybind11;
static const char* keys[] = {"k", "cpu_nthreads", "gpu_ndsize", "chunksize", "use_chunking", "use_recompute", "knn_grid_resolution", "cc_p_maxsize", "cc_t_maxsize", "dev_suppress_stdout"};
static const long defs[] = {64, 0, 1, 8196, 0, 0, 16, 32, 32, 1};
template <class F> static std::string raised(F f) {
  try { f(); } catch (py::error_already_set& e) { std::string n = py::str(e.type().attr("__name__")); return n; }
  return "";
}
static void params(long, rng& r) {
  py::module_ m = py::module_::import("pyvotess"); py::object a = m.attr("vtargs")(); votess::vtargs& c = a.cast<votess::vtargs&>();
  std::vector<std::string> want(10), log(1);
  for (int i = 0; i < 10; i++) want[i] = std::to_string(defs[i]);
  auto check = [&](const char* when) {
    for (int i = 0; i < 10; i++) { std::string s = c[keys[i]].get<std::string>(); if (s != want[i]) fail("%s holds '%s', expected '%s' (%s)", keys[i], s.c_str(), want[i].c_str(), when); }
  };
  desc("defaults"); check("defaults"); int ops = r.in(1, 10); std::string l;
  for (int o = 0; o < ops; o++) {
    int i = r.in(0, 9), kind = r.in(0, 3); py::object v; std::string w;
    if (kind == 0) { long x = r.one_in(6) ? 2147483647 - r.in(0, 2) : r.one_in(6) ? -2147483648L + r.in(0, 2) : r.in(-5, 100000); v = py::int_(x); w = std::to_string(x); }
    else if (kind == 1) { bool b = r.one_in(2); v = py::bool_(b); w = b ? "1" : "0"; }
    else if (kind == 2) { float x = r.in(-4000, 4000) / 8.0f; v = py::float_(x); std::ostringstream t; t << x; w = t.str(); }
    else { w = r.one_in(3) ? "true" : std::to_string(r.in(0, 999)); v = py::str(w); }
    std::string key = keys[i]; l += key + "=" + (std::string)py::str(py::repr(v)) + " "; desc("%s", l.c_str());
    std::string e = raised([&] { a.attr("__setitem__")(key, v); }); if (!e.empty()) fail("raises %s", e.c_str());
    want[i] = w; check("after a store");
    if (kind < 2) { py::object g; e = raised([&] { g = a.attr("__getitem__")(key); }); if (!e.empty()) fail("reading it raises %s", e.c_str()); if (!py::isinstance<py::int_>(g) || g.cast<long>() != std::stol(w)) fail("reads back as %s", ((std::string)py::str(g)).c_str()); }
  }
  for (const char* bad : {"abc", "", "x1", "99999999999999"}) {
    desc("%s then k='%s' read", l.c_str(), bad); a.attr("__setitem__")("k", bad); want[0] = bad;
    if (raised([&] { a.attr("__getitem__")("k"); }).empty()) fail("text that is no int is read as one");
  }
  a.attr("__setitem__")("k", 7); want[0] = "7";
  for (const char* k : {"", "K", "nope", "k "}) {
    desc("%s then unknown key '%s'", l.c_str(), k);
    if (raised([&] { a.attr("__setitem__")(k, 3); }).empty()) fail("writing it is accepted");
    if (raised([&] { a.attr("__getitem__")(k); }).empty()) fail("reading it is accepted");
  }
  desc("%s then values of other types", l.c_str());
  for (py::object v : {(py::object)py::none(), (py::object)py::list(), (py::object)py::eval("10**12"), (py::object)py::eval("-2**31-1"), (py::object)py::bytes("5")})
    if (raised([&] { a.attr("__setitem__")("k", v); }).empty()) fail("value %s is accepted", ((std::string)py::str(py::repr(v))).c_str());
  check("after rejected stores");
}
static void containers(rng& r) {
  py::module_ m = py::module_::import("pyvotess"); py::object d;
  std::vector<std::vector<int>> rows(r.in(0, 6)); std::vector<int> list, offs{0}; std::string t;
  for (auto& w : rows) { w.resize(r.in(0, 5)); for (int& x : w) x = r.in(-9, 99); list.insert(list.end(), w.begin(), w.end()); offs.push_back(list.size()); t += std::to_string(w.size()) + " "; }
  desc("container of %zu rows, sizes %s", rows.size(), t.c_str());
  std::string e = raised([&] {
    d = m.attr("dnn")(list, offs); if (d.attr("size")().cast<size_t>() != rows.size()) fail("size() is %zu", d.attr("size")().cast<size_t>());
    for (size_t i = 0; i < rows.size(); i++) {
      py::object p = d.attr("__getitem__")((int)i); if (p.attr("size")().cast<size_t>() != rows[i].size()) fail("row %zu has size %zu", i, p.attr("size")().cast<size_t>());
      for (size_t j = 0; j < rows[i].size(); j++) { int x = p.attr("__getitem__")((int)j).cast<int>(); if (x != rows[i][j]) fail("element %zu of row %zu is %d, expected %d", j, i, x, rows[i][j]); }
      for (long j : {-1L, (long)rows[i].size(), (long)rows[i].size() + 7, 2147483647L, -2147483648L}) { auto k = raised([&] { p.attr("__getitem__")((int)j); }); if (k != "IndexError") fail("element %ld of row %zu: '%s' instead of IndexError", j, i, k.c_str()); }
    }
    for (long j : {-1L, (long)rows.size(), (long)rows.size() + 9, 2147483647L, -2147483648L}) { auto k = raised([&] { d.attr("__getitem__")((int)j); }); if (k != "IndexError") fail("row %ld: '%s' instead of IndexError", j, k.c_str()); }
    char path[] = "/tmp/pyoracleXXXXXX"; int fd = mkstemp(path); close(fd); d.attr("savetxt")(std::string(path)); std::string got; { FILE* f = fopen(path, "r"); int ch; while ((ch = fgetc(f)) != EOF) got += (char)ch; fclose(f); } unlink(path);
    std::ostringstream cap; auto* mine = std::cout.rdbuf(cap.rdbuf()); d.attr("print")(); std::cout.rdbuf(mine); { votess::dnn<int> ref(list, offs); std::ostringstream w; mine = std::cout.rdbuf(w.rdbuf()); ref.print(); std::cout.rdbuf(mine); if (w.str() != cap.str()) fail("print() writes something else than the container"); }
    { char p2[] = "/tmp/pyoracleXXXXXX"; int f2 = mkstemp(p2); close(f2); votess::dnn<int> ref(list, offs); ref.savetxt(p2); std::string w; FILE* f = fopen(p2, "r"); int ch; while ((ch = fgetc(f)) != EOF) w += (char)ch; fclose(f); unlink(p2); if (w != got) fail("savetxt() writes something else than the container"); }
    std::vector<py::object> keep; for (size_t i = 0; i < rows.size(); i++) keep.push_back(d.attr("__getitem__")((int)i));
    desc("container of %zu rows, sizes %s, dropped while its rows are held", rows.size(), t.c_str());
    d = py::none(); py::module_::import("gc").attr("collect")();
    for (size_t i = 0; i < rows.size(); i++) for (size_t j = 0; j < rows[i].size(); j++) { int x = keep[i].attr("__getitem__")((int)j).cast<int>(); if (x != rows[i][j]) fail("element %zu of row %zu is %d, expected %d", j, i, x, rows[i][j]); }
  });
  if (!e.empty()) fail("raises %s", e.c_str());
}
static void runs(rng& r) {
  py::module_ m = py::module_::import("pyvotess"); int N = r.in(1, 40), k = r.in(1, N > 12 ? 12 : std::max(1, N - 1)), how = r.in(0, 3); bool have = r.one_in(2);
  std::vector<std::array<float, 3>> pts(N); for (auto& p : pts) for (float& x : p) x = r.unitf();
  int gr = r.in(1, 5), pm = r.in(2, 60), tm = r.in(2, 60), th = r.in(1, 3);
  sycl::device::fake_gpu() = have; bool gpu = how != 0;
  desc("n=%d k=%d resolution=%d p_maxsize=%d t_maxsize=%d threads=%d, %s, GPU %savailable", N, k, gr, pm, tm, th, how == 0 ? "device.cpu" : how == 1 ? "device.gpu" : how == 2 ? "no device given" : "keyword device=device.gpu", have ? "" : "not ");
  auto ref = pts; votess::vtargs c; c["k"] = k; c["knn_grid_resolution"] = gr; c["cc_p_maxsize"] = pm; c["cc_t_maxsize"] = tm; c["cpu_nthreads"] = th;
  std::ostringstream e0, e1; auto* ce = std::cerr.rdbuf(e0.rdbuf()); int q0 = sycl::queue::created();
  auto want = votess::tesellate<int, float>(ref, c, gpu ? votess::device::gpu : votess::device::cpu); int q1 = sycl::queue::created(); std::cerr.rdbuf(e1.rdbuf());
  py::object out, a = m.attr("vtargs")();
  std::string e = raised([&] {
    a.attr("__setitem__")("k", k); a.attr("__setitem__")("knn_grid_resolution", gr); a.attr("__setitem__")("cc_p_maxsize", pm); a.attr("__setitem__")("cc_t_maxsize", tm); a.attr("__setitem__")("cpu_nthreads", th);
    py::list l; for (auto& p : pts) l.append(py::make_tuple(p[0], p[1], p[2]));
    py::object f = m.attr("tesellate"), d = m.attr("device");
    if (how == 0) out = f(l, a, d.attr("cpu")); else if (how == 1) out = f(l, a, d.attr("gpu")); else if (how == 2) out = f(l, a); else out = f(py::arg("xyzset") = l, py::arg("args") = a, py::arg("device") = d.attr("gpu"));
  });
  int q2 = sycl::queue::created(); std::cerr.rdbuf(ce); if (!e.empty()) fail("raises %s", e.c_str());
  if ((q1 > q0) != (q2 > q1) || e0.str() != e1.str()) fail("the run does not use the device asked for");
  e = raised([&] {
    if (out.attr("size")().cast<size_t>() != want.size()) fail("%zu rows, expected %zu", out.attr("size")().cast<size_t>(), want.size());
    for (size_t i = 0; i < want.size(); i++) {
      py::object p = out.attr("__getitem__")((int)i); auto w = want[i]; if (p.attr("size")().cast<size_t>() != w.size()) fail("row %zu has %zu elements, expected %zu", i, p.attr("size")().cast<size_t>(), w.size());
      for (size_t j = 0; j < w.size(); j++) if (p.attr("__getitem__")((int)j).cast<int>() != w[j]) fail("element %zu of row %zu is %d, expected %d", j, i, p.attr("__getitem__")((int)j).cast<int>(), w[j]);
    }
  });
  if (!e.empty()) fail("reading the result raises %s", e.c_str());
}
int main(int c, char** v) {
  setenv("PYTHONMALLOC", "malloc", 1); setenv("PYTHONDONTWRITEBYTECODE", "1", 1); unsetenv("PYTHONHOME"); unsetenv("PYTHONPATH"); unsetenv("PYTHONSTARTUP");
  PyImport_AppendInittab("pyvotess", PyInit_pyvotess); py::initialize_interpreter(false);
  return run(c, v, 120, 100000, 20, [](long n, rng& r) { if (n % 3 == 0) params(n, r); else if (n % 3 == 1) containers(r); else runs(r); });
}
