#include <array>
#include <vector>
#include <knn.hpp>
using V3 = std::vector<std::array<float,3>>; using VI = std::vector<int>; using VF = std::vector<float>;
using RI = device_accessor_read_t<int>; using RF = device_accessor_read_t<float>; using WI = device_accessor_readwrite_t<int>; using WF = device_accessor_readwrite_t<float>;
template void knni::compute<int,float>(const int, const int, const V3&, const int, const VI&, const VI&, const V3&, const int, VI&, VF&, const struct args::knn&);
template void knni::compute<int,float>(const int, const int, const RF&, const int, const RI&, const RI&, const RF&, const int, const WI&, const WF&, const struct args::knn&);
template void knni::compute<int,float>(const int, const int, const RF&, const int, const RI&, const RI&, const RF&, const int, const WI&, const WF&, const int, const struct args::knn&);
