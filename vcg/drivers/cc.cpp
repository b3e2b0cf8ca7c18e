#include <array>
#include <vector>
#include <cc.hpp>
template void cci::compute<int, float, uint8_t>(const int, const int, std::vector<cc::state>&, float*, uint8_t*, uint8_t*, std::vector<int>&, std::vector<int>&,
  const std::vector<std::array<float,3>>&, const int, const std::vector<std::array<float,3>>&, const int, const struct args::cc&);
template void cci::compute<int, float, uint8_t>(const int, const int, const int, const device_accessor_readwrite_t<cc::state>&, const device_accessor_readwrite_t<float>&,
  const device_accessor_readwrite_t<uint8_t>&, const sycl::local_accessor<uint8_t, 1>&, const device_accessor_readwrite_t<int>&, const int, const device_accessor_readwrite_t<int>&,
  const device_accessor_read_t<float>&, const int, const device_accessor_read_t<float>&, const int, const struct args::cc&);
