#include <array>
#include <vector>
#include <cmath>
#include <xyzset.hpp>
template const std::pair<std::vector<int>, std::vector<int>> xyzset::sort<int, float>(std::vector<std::array<float,3>>&, const args::xyzset&);
template bool xyzset::validate_xyzset<float>(const std::vector<std::array<float,3>>&);
template bool xyzset::validate_id<int>(const std::vector<int>&);
template const std::pair<std::vector<int>, std::vector<int>> xyzset::sort<int, double>(std::vector<std::array<double,3>>&, const args::xyzset&);
