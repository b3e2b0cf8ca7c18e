#include <heap.hpp>
using AI = device_accessor_readwrite_t<int>; using AF = device_accessor_readwrite_t<float>;
using VI = std::vector<int>; using VF = std::vector<float>;
template void heap::maxheapify<int,float>(VI&, VF&, const size_t, const size_t, size_t);
template void heap::sort<int,float>(VI&, VF&, const size_t, const size_t);
template void heap::maxheapify<int,float>(const AI&, const AF&, const size_t, const size_t, size_t);
template void heap::sort<int,float>(const AI&, const AF&, const size_t, const size_t);
template void heap::maxheapify<int,float>(const AI&, const AF&, const int, const int, const int, int);
template void heap::sort<int,float>(const AI&, const AF&, const int, const int, const int);
