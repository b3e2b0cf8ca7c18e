// Stand-in for <CL/sycl.hpp>, used (a) when /repo's sources are compiled to
// LLVM IR for verification and (b) in replay harnesses.  It gives the SYCL names
// the project uses a plain host meaning: a buffer owns an array, an accessor is a
// view of it, parallel_for runs the kernel once per work item, in order.
// The SYCL runtime itself is outside what is verified (see DESIGN.md).
#ifndef VERIF_STUB_SYCL_HPP
#define VERIF_STUB_SYCL_HPP
#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <limits>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace sycl {

namespace access {
enum class mode { read, write, read_write };
enum class target { device, host_buffer, local };
}
#define VERIF_F1(f) template <class T> inline T f(T x) { return std::f(x); }
#define VERIF_F2(f) template <class T> inline T f(T x, T y) { return std::f(x, y); }
VERIF_F1(trunc) VERIF_F1(floor) VERIF_F1(ceil) VERIF_F1(round) VERIF_F1(rint) VERIF_F1(fabs) VERIF_F1(sqrt) VERIF_F1(cbrt) VERIF_F1(exp) VERIF_F1(log)
VERIF_F1(sin) VERIF_F1(cos) VERIF_F1(tan) VERIF_F2(fmod) VERIF_F2(pow) VERIF_F2(fmin) VERIF_F2(fmax) VERIF_F2(hypot) VERIF_F2(remainder) VERIF_F2(copysign) VERIF_F2(nextafter)
template <class T> inline bool isnan(T x) { return std::isnan(x); } template <class T> inline bool isinf(T x) { return std::isinf(x); } template <class T> inline bool isfinite(T x) { return std::isfinite(x); }
template <class T> inline T fma(T x, T y, T z) { return std::fma(x, y, z); } template <class T> inline T mad(T x, T y, T z) { return x * y + z; }
template <class T> inline T abs(T x) { return x < 0 ? -x : x; } template <class T> inline T rsqrt(T x) { return T(1) / std::sqrt(x); }
template <class T> inline T min(T x, T y) { return y < x ? y : x; } template <class T> inline T max(T x, T y) { return x < y ? y : x; }
template <class T> inline T clamp(T x, T a, T b) { return sycl::min(sycl::max(x, a), b); }
template <class T> inline T sign(T x) { return x > 0 ? T(1) : x < 0 ? T(-1) : x; }
template <class T> inline int popcount(T x) { return __builtin_popcountll((unsigned long long)x & (~0ull >> (64 - 8 * sizeof(T)))); }

template <int D = 1> struct range {
  std::size_t v;
  range(std::size_t n) : v(n) {}
  std::size_t size() const { return v; }
  std::size_t operator[](int) const { return v; }
};
template <int D = 1> struct id {
  std::size_t v;
  id(std::size_t n = 0) : v(n) {}
  operator std::size_t() const { return v; }
  std::size_t operator[](int) const { return v; }
};
template <int D = 1> struct nd_range {
  std::size_t g, l;
  nd_range(range<D> a, range<D> b) : g(a.v), l(b.v) {}
};
template <int D = 1> struct nd_item {
  std::size_t g, l;
  std::size_t get_global_linear_id() const { return g; }
  std::size_t get_local_linear_id() const { return l; }
};

struct read_only_tag {}; struct write_only_tag {}; struct read_write_tag {};
static const read_only_tag read_only{};
static const write_only_tag write_only{};
static const read_write_tag read_write{};
namespace property { struct no_init {}; }
static const property::no_init no_init{};

class handler;

template <class T, int D = 1> class buffer {
  public:
    std::shared_ptr<std::vector<T>> d;
    T* back = nullptr;
    buffer(range<D> r) : d(std::make_shared<std::vector<T>>(r.v)) {}
    buffer(T* p, range<D> r) : d(std::make_shared<std::vector<T>>(p, p + r.v)) {}
    buffer(const T* p, range<D> r)
      : d(std::make_shared<std::vector<T>>(p, p + r.v)) {}
    std::size_t size() const { return d->size(); }
    struct host_view {
      std::shared_ptr<std::vector<T>> d;
      typename std::vector<T>::iterator begin() const { return d->begin(); }
      typename std::vector<T>::iterator end() const { return d->end(); }
      T& operator[](std::size_t i) const { return (*d)[i]; }
    };
    host_view get_host_access() { return host_view{d}; }
};

template <class T, int D = 1, access::mode M = access::mode::read_write,
          access::target G = access::target::device>
class accessor {
  public:
    T* p = nullptr;
    std::size_t n = 0;
    accessor() {}
    accessor(T* q, std::size_t m) : p(q), n(m) {}
    accessor(buffer<T, D>& b, handler&, read_only_tag) : p(b.d->data()), n(b.size()) {}
    accessor(buffer<T, D>& b, handler&, read_write_tag) : p(b.d->data()), n(b.size()) {}
    accessor(buffer<T, D>& b, handler&, read_write_tag, property::no_init)
      : p(b.d->data()), n(b.size()) {}
    accessor(buffer<T, D>& b, handler&, write_only_tag, property::no_init)
      : p(b.d->data()), n(b.size()) {}
    T& operator[](std::size_t i) const { return p[i]; }
    std::size_t size() const { return n; }
};
template <class T, int D>
accessor(buffer<T, D>&, handler&, read_only_tag)
  -> accessor<T, D, access::mode::read, access::target::device>;
template <class T, int D>
accessor(buffer<T, D>&, handler&, read_write_tag)
  -> accessor<T, D, access::mode::read_write, access::target::device>;
template <class T, int D>
accessor(buffer<T, D>&, handler&, read_write_tag, property::no_init)
  -> accessor<T, D, access::mode::read_write, access::target::device>;
template <class T, int D>
accessor(buffer<T, D>&, handler&, write_only_tag, property::no_init)
  -> accessor<T, D, access::mode::write, access::target::device>;

template <class T, int D = 1> class local_accessor {
  public:
    T* p = nullptr;
    std::size_t n = 0;
    std::shared_ptr<std::vector<T>> d;
    local_accessor() {}
    local_accessor(T* q, std::size_t m) : p(q), n(m) {}
    local_accessor(range<D> r, handler&)
      : d(std::make_shared<std::vector<T>>(r.v)) { p = d->data(); n = r.v; }
    T& operator[](std::size_t i) const { return p[i]; }
    std::size_t size() const { return n; }
};

class handler {
  public:
    template <class K = void, class F> void parallel_for(range<1> r, F f) {
      for (std::size_t i = 0; i < r.v; i++) f(id<1>(i));
    }
    template <class K = void, class F> void parallel_for(nd_range<1> r, F f) {
      for (std::size_t i = 0; i < r.g; i++) f(nd_item<1>{i, i % r.l});
    }
};
struct event { void wait() {} };

namespace info {
enum class device_type { cpu, gpu, all };
namespace device {
struct name { using t = std::string; };
struct vendor { using t = std::string; };
struct max_work_group_size { using t = std::size_t; };
struct preferred_vector_width_double { using t = std::size_t; };
struct max_compute_units { using t = std::size_t; };
struct max_mem_alloc_size { using t = std::size_t; };
struct global_mem_size { using t = std::size_t; };
struct local_mem_size { using t = std::size_t; };
}
}
class device {
  public:
    template <class I> typename I::t get_info() const { return typename I::t(); }
    bool is_cpu() const { return true; }
    bool is_gpu() const { return false; }
    static bool& fake_gpu() { static bool b = false; return b; }
    static std::vector<device> get_devices(info::device_type t) {
      (void)t;
      return std::vector<device>(fake_gpu() ? 1 : 0);
    }
};
class queue {
  public:
    static long& created() { static long n = 0; return n; }
    queue() { created()++; }
    device get_device() const { return device(); }
    template <class F> event submit(F f) { handler h; f(h); return event(); }
    void wait() {}
};
}
#endif
