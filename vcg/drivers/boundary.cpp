#include <boundary.hpp>
template boundary::bstatus boundary::compute<int, uint8_t>(uint8_t*, const int, const int, short int&, uint8_t*, const int, const int);
template boundary::bstatus boundary::compute<int, uint8_t>(const sycl::local_accessor<uint8_t, 1>&, const int, const int, short int&, const device_accessor_readwrite_t<uint8_t>&, const int, const int);
