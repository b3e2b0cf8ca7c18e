#include "oracle.hpp"
#include <utils.hpp>
#include <limits>
using namespace oracle;
template <class T> static T pick(rng& r) {
  if (std::is_integral<T>::value) return (T)r.in(-1000, 1000);
  switch (r.in(0, 5)) { case 0: return (T)r.in(-4, 4); case 1: return (T)(r.unit() * 2 - 1); case 2: return (T)(std::ldexp(r.unit(), (int)r.in(-20, 20)) * (r.one_in(2) ? 1 : -1)); case 3: return (T)0; case 4: return (T)-0.5; default: return (T)(r.in(-1000, 1000) / 8.0); }
}
template <class T> static void one(rng& r, const char* ty) {
  T a = pick<T>(r), b = r.one_in(5) ? a : pick<T>(r), c = r.one_in(5) ? b : pick<T>(r);
  desc("%s a=%.17g b=%.17g c=%.17g", ty, (double)a, (double)b, (double)c);
  if (utils::bmax(a, b) != std::max(a, b)) fail("bmax(a,b)=%.17g", (double)utils::bmax(a, b));
  if (utils::bmin(a, b) != std::min(a, b)) fail("bmin(a,b)=%.17g", (double)utils::bmin(a, b));
  if (utils::bmax(a, b, c) != std::max({a, b, c})) fail("bmax(a,b,c)=%.17g", (double)utils::bmax(a, b, c));
  if (utils::bmin(a, b, c) != std::min({a, b, c})) fail("bmin(a,b,c)=%.17g", (double)utils::bmin(a, b, c));
  if (utils::square(a) != a * a) fail("square(a)=%.17g", (double)utils::square(a));
  if (std::is_integral<T>::value) { if (utils::cube(a) != a * a * a) fail("cube(a)=%.17g", (double)utils::cube(a)); } else { T x = utils::cube(a); long double w = (long double)a * a * a; long double eps = std::numeric_limits<T>::epsilon(); if (std::fabs((double)(x - w)) > 4 * eps * std::fabs((double)w) + std::numeric_limits<T>::min()) fail("cube(a)=%.17g", (double)x); }
  T x = a, y = b; utils::swap(x, y); if (x != b || y != a) fail("swap(a,b) gave %.17g %.17g", (double)x, (double)y);
}
template <class T> static void fm(rng& r, const char* ty) {
  // exact cases: multiples of 1/8 with a power-of-two or small divisor; then a tolerance
  T y = (T)(r.in(1, 16) * (r.one_in(3) ? -1 : 1)); T x = (T)(r.in(-4000, 4000) / 8.0);
  if (r.one_in(2)) { y = (T)std::ldexp(1.0, (int)r.in(-3, 4)); }
  desc("%s bfmod x=%.17g y=%.17g", ty, (double)x, (double)y);
  T got = utils::bfmod(x, y), want = std::fmod(x, y);
  double tol = 8 * std::numeric_limits<T>::epsilon() * (std::fabs((double)x) + std::fabs((double)y));
  double d = std::fabs((double)got - (double)want); double ay = std::fabs((double)y);
  if (!(d <= tol || std::fabs(d - ay) <= tol)) fail("bfmod=%.17g fmod=%.17g", (double)got, (double)want);
  bool pow2 = std::ldexp(1.0, std::ilogb((double)y)) == ay;
  if (pow2 && got != want) fail("bfmod=%.17g fmod=%.17g (exactly representable)", (double)got, (double)want);
}
int main(int c, char** v) {
  return run(c, v, 20000, 2000000, 20, [](long n, rng& r) { switch (n % 6) { case 0: one<float>(r, "float"); break; case 1: one<double>(r, "double"); break; case 2: one<int>(r, "int"); break; case 3: fm<float>(r, "float"); break; case 4: fm<double>(r, "double"); break; default: one<long>(r, "long"); } });
}
