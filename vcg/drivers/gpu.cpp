// __gpu__tesellate, instantiated.  SYCL's host-side objects as plain views of arrays the verifier knows: a buffer is an array (its
// own, or the host's), an accessor created with no_init starts from unknown contents, a kernel runs once per work item.
#define VERIF_STUB_SYCL_HPP
#include <algorithm>
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <limits>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
namespace cc { class state; }
extern "C" { void* verif_buffer(void*, std::size_t, int); void* verif_discard(void*, int); void* verif_access(void*, int); void* verif_local(std::size_t); std::size_t verif_local_id(std::size_t, std::size_t); }
namespace sycl {
namespace access { enum class mode { read, write, read_write }; enum class target { device, host_buffer, local }; }
template <class T> inline T trunc(T x) { return std::trunc(x); } template <class T> inline T fmod(T x, T y) { return std::fmod(x, y); }
template <class T> struct verif_kind { static const int v = 3; };
template <> struct verif_kind<int> { static const int v = 0; };
template <> struct verif_kind<float> { static const int v = 1; };
template <> struct verif_kind<unsigned char> { static const int v = 2; };
template <int D = 1> struct range { std::size_t v; range(std::size_t n) : v(n) {} std::size_t size() const { return v; } std::size_t operator[](int) const { return v; } };
template <int D = 1> struct id { std::size_t v; id(std::size_t n = 0) : v(n) {} operator std::size_t() const { return v; } std::size_t operator[](int) const { return v; } };
template <int D = 1> struct nd_range { std::size_t g, l; nd_range(range<D> a, range<D> b) : g(a.v), l(b.v) {} };
template <int D = 1> struct nd_item { std::size_t g, l; std::size_t get_global_linear_id() const { return g; } std::size_t get_local_linear_id() const { return l; } std::size_t get_global_id(int) const { return g; } std::size_t get_local_id(int) const { return l; } };
struct read_only_tag {}; struct write_only_tag {}; struct read_write_tag {};
static const read_only_tag read_only{}; static const write_only_tag write_only{}; static const read_write_tag read_write{};
namespace property { struct no_init {}; }
static const property::no_init no_init{};
class handler;
template <class T, int D = 1> class buffer {
  public:
    T* p; std::size_t n;
    buffer(range<D> r) : n(r.v) { p = (T*)verif_buffer(this, n, verif_kind<T>::v); }
    buffer(T* q, range<D> r) : p(q), n(r.v) {}
    buffer(const T* q, range<D> r) : p(const_cast<T*>(q)), n(r.v) {}
    std::size_t size() const { return n; }
    struct host_view { T* p; std::size_t n; T* begin() const { return p; } T* end() const { return p + n; } T& operator[](std::size_t i) const { return p[i]; } std::size_t size() const { return n; } };
    host_view get_host_access() { return host_view{(T*)verif_access(this, verif_kind<T>::v), n}; }
};
template <class T, int D = 1, access::mode M = access::mode::read_write, access::target G = access::target::device>
class accessor {
  public:
    T* p;
    accessor(buffer<T, D>& b, handler&, read_only_tag) : p((T*)verif_access(&b, verif_kind<T>::v)) {}
    accessor(buffer<T, D>& b, handler&, read_write_tag) : p((T*)verif_access(&b, verif_kind<T>::v)) {}
    accessor(buffer<T, D>& b, handler&, read_write_tag, property::no_init) : p((T*)verif_discard(&b, verif_kind<T>::v)) {}
    accessor(buffer<T, D>& b, handler&, write_only_tag, property::no_init) : p((T*)verif_discard(&b, verif_kind<T>::v)) {}
    accessor(buffer<T, D>& b, handler&, write_only_tag) : p((T*)verif_access(&b, verif_kind<T>::v)) {}
    T& operator[](std::size_t i) const { return p[i]; }
};
template <class T, int D> accessor(buffer<T, D>&, handler&, read_only_tag) -> accessor<T, D, access::mode::read, access::target::device>;
template <class T, int D> accessor(buffer<T, D>&, handler&, read_write_tag) -> accessor<T, D, access::mode::read_write, access::target::device>;
template <class T, int D> accessor(buffer<T, D>&, handler&, read_write_tag, property::no_init) -> accessor<T, D, access::mode::read_write, access::target::device>;
template <class T, int D> accessor(buffer<T, D>&, handler&, write_only_tag, property::no_init) -> accessor<T, D, access::mode::write, access::target::device>;
template <class T, int D> accessor(buffer<T, D>&, handler&, write_only_tag) -> accessor<T, D, access::mode::write, access::target::device>;
template <class T, int D = 1> class local_accessor {
  public:
    T* p; local_accessor(range<D> r, handler&) { p = (T*)verif_local(r.v); } T& operator[](std::size_t i) const { return p[i]; }
};
class handler {
  public:
    template <class K = void, class F> void parallel_for(range<1> r, F f) { for (std::size_t item = 0; item < r.v; item++) f(id<1>(item)); }
    template <class K = void, class F> void parallel_for(nd_range<1> r, F f) { for (std::size_t gitem = 0; gitem < r.g; gitem++) f(nd_item<1>{gitem, verif_local_id(gitem, r.l)}); }
};
struct event { void wait() {} };
namespace info { enum class device_type { cpu, gpu, all };
namespace device { struct name { using t = std::string; }; struct vendor { using t = std::string; }; struct max_work_group_size { using t = std::size_t; }; struct preferred_vector_width_double { using t = std::size_t; }; struct max_compute_units { using t = std::size_t; }; struct max_mem_alloc_size { using t = std::size_t; }; struct global_mem_size { using t = std::size_t; }; struct local_mem_size { using t = std::size_t; }; } }
class device {
  public:
    template <class I> typename I::t get_info() const { return typename I::t(); }
    bool is_cpu() const { return true; } bool is_gpu() const { return false; }
    static std::vector<device> get_devices(info::device_type) { return std::vector<device>(0); }
};
class queue {
  public:
    device get_device() const { return device(); }
    template <class F> event submit(F f) { handler h; f(h); return event(); }
    void wait() {}
};
}
#include <votess.hpp>
auto use_gpu = &votess::__gpu__tesellate<int, float, uint8_t>;
