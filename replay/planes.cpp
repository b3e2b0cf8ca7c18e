// planes, distances and the security radius; small integers make every float operation exact
#include "oracle.hpp"
#include <arguments.hpp>
#include <xyzset.hpp>
#include <planes.hpp>
#include <sradius.hpp>
using namespace oracle;
template <class T> static void one(long n, rng& r, const char* ty) {
  int lim = r.one_in(3) ? 2 : 20; double eps = std::numeric_limits<T>::epsilon();
  auto I = [&]() { return (T)r.in(-lim, lim); };
  T p[3] = {I(), I(), I()}, q[3] = {I(), I(), I()}, x[4] = {I(), I(), I(), (T)1}, a[12]; for (T& y : a) y = I();
  if (r.one_in(4)) for (int c = 0; c < 4; c++) a[4 + c] = a[c]; // degenerate
  if (r.one_in(4)) { T u = I(), w = I(); for (int c = 0; c < 3; c++) a[8 + c] = u * a[c] + w * a[4 + c]; }
  { int e = r.one_in(2) ? 0 : r.in(0, 12); for (T* y : {p, q, x}) for (int c = 0; c < 3; c++) y[c] = std::ldexp(y[c], -e); }   // powers of two keep it exact
  for (int i = 0; i < 3; i++) { int e = r.one_in(2) ? 0 : r.in(0, 12); for (int c = 0; c < 4; c++) a[4 * i + c] = std::ldexp(a[4 * i + c], -e); }
  desc("%s p=(%g,%g,%g) q=(%g,%g,%g) x=(%g,%g,%g) planes=(%g,%g,%g,%g)(%g,%g,%g,%g)(%g,%g,%g,%g)", ty, (double)p[0], (double)p[1], (double)p[2], (double)q[0], (double)q[1], (double)q[2], (double)x[0], (double)x[1], (double)x[2],
    (double)a[0], (double)a[1], (double)a[2], (double)a[3], (double)a[4], (double)a[5], (double)a[6], (double)a[7], (double)a[8], (double)a[9], (double)a[10], (double)a[11]);
  T b[4]; planes::bisect<T>(b[0], b[1], b[2], b[3], p[0], p[1], p[2], q[0], q[1], q[2]);
  for (int c = 0; c < 3; c++) if (b[c] != p[c] - q[c]) fail("bisector normal %d is %g", c, (double)b[c]);
  double mid = b[3], pos = b[3]; for (int c = 0; c < 3; c++) { mid += (double)b[c] * ((double)p[c] + q[c]) / 2; pos += (double)b[c] * p[c]; }
  if (mid != 0) fail("bisector misses the midpoint by %g", mid);
  if ((p[0] != q[0] || p[1] != q[1] || p[2] != q[2]) && !(pos > 0)) fail("first point not on the positive side: %g", pos);
  T dt = planes::dot<T>(x[0], x[1], x[2], x[3], b[0], b[1], b[2], b[3]); double dw = 0; for (int c = 0; c < 4; c++) dw += (double)x[c] * b[c]; if ((double)dt != dw) fail("dot=%g expected %g", (double)dt, dw);
  { T g = planes::dot<T>(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); double w = 0; for (int c = 0; c < 4; c++) w += (double)a[c] * a[4 + c]; if ((double)g != w) fail("dot=%g expected %g", (double)g, w); }
  T v[4] = {7, 7, 7, 7}; planes::intersect<T>(v[0], v[1], v[2], v[3], a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
  double A[3][4]; for (int i = 0; i < 3; i++) for (int c = 0; c < 4; c++) A[i][c] = a[4 * i + c];
  auto det = [&](int i, int j, int k) { return A[0][i] * (A[1][j] * A[2][k] - A[1][k] * A[2][j]) - A[0][j] * (A[1][i] * A[2][k] - A[1][k] * A[2][i]) + A[0][k] * (A[1][i] * A[2][j] - A[1][j] * A[2][i]); };
  double D = det(0, 1, 2); if (v[3] != 1) fail("fourth coordinate %g", (double)v[3]);
  if (D == 0) { if (v[0] != 0 || v[1] != 0 || v[2] != 0) fail("degenerate planes meet at (%g,%g,%g)", (double)v[0], (double)v[1], (double)v[2]); }
  else { double w[3] = {-det(3, 1, 2) / D, -det(0, 3, 2) / D, -det(0, 1, 3) / D}; for (int c = 0; c < 3; c++) if (std::fabs(v[c] - w[c]) > 4 * eps * (std::fabs(w[c])) + 1e-30) fail("coordinate %d of the intersection is %.9g, expected %.9g", c, (double)v[c], w[c]); }
  T d = xyzset::get_distance<T>(p[0], p[1], p[2], q[0], q[1], q[2]); double w = 0; for (int c = 0; c < 3; c++) w += ((double)p[c] - q[c]) * ((double)p[c] - q[c]); if ((double)d != w) fail("squared distance %g expected %g", (double)d, w);
  T s0 = r.one_in(3) ? (T)w : (T)(w * r.in(0, 8) / 4); T s1 = sr::update<T>(p[0], p[1], p[2], q[0], q[1], q[2], s0); if (std::fabs((double)s1 - std::max(w, (double)s0)) > 0) fail("security radius after update of %g is %g, expected %g", (double)s0, (double)s1, std::max(w, (double)s0));
  T s2 = r.one_in(3) ? (T)(w / 4) : (T)(w * r.in(0, 8) / 16); bool rc = sr::is_reached<T>(p[0], p[1], p[2], q[0], q[1], q[2], s2); if (rc != (w > 4 * (double)s2)) fail("radius %g, neighbour at %g: reached=%d", (double)s2, w, rc);
}
int main(int c, char** v) { return run(c, v, 20000, 2000000, 20, [](long n, rng& r) { if (n % 2) one<double>(n, r, "double"); else one<float>(n, r, "float"); }); }
