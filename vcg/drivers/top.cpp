// votess::tesellate, instantiated.  std::thread is replaced as in cpu.cpp.
#include <thread>
#include <mutex>
#include <iostream>
#include <iomanip>
#include <fstream>
#include <chrono>
#include <memory>
#include <sstream>
#include <vector>
#include <array>
#include <CL/sycl.hpp>
extern "C" { void verif_spawn_begin(const void*); void verif_spawn_end(); void verif_join(); void verif_terminate(); unsigned verif_hardware_concurrency(); }
namespace std {
struct verif_thread {
  unsigned char joinable_;
  verif_thread() noexcept : joinable_(0) {}
  template <class F> explicit verif_thread(F&& f) : joinable_(1) { verif_spawn_begin(&f); f(); verif_spawn_end(); }
  verif_thread(const verif_thread&) = delete;
  verif_thread(verif_thread&& o) noexcept : joinable_(o.joinable_) { o.joinable_ = 0; }
  verif_thread& operator=(verif_thread&& o) noexcept { if (joinable_) verif_terminate(); joinable_ = o.joinable_; o.joinable_ = 0; return *this; }
  ~verif_thread() { if (joinable_) verif_terminate(); }
  bool joinable() const noexcept { return joinable_; }
  void join() { if (!joinable_) verif_terminate(); joinable_ = 0; verif_join(); }
  static unsigned hardware_concurrency() noexcept { return verif_hardware_concurrency(); }
};
}
#define thread verif_thread
#include <votess.hpp>
auto use_top = &votess::tesellate<int, float>;
