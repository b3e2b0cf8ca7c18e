#include <utils.hpp>
#include <planes.hpp>
#include <sradius.hpp>
#include <cstdint>
#include <status.hpp>
#include <boundary.hpp>
#include <xyzset.hpp>
template float utils::square<float>(const float); template double utils::square<double>(const double);
template float utils::cube<float>(const float); template double utils::cube<double>(const double);
template float utils::bmax<float>(const float, const float); template float utils::bmin<float>(const float, const float);
template float utils::bmax<float>(const float, const float, const float); template float utils::bmin<float>(const float, const float, const float);
template int utils::bmax<int>(const int, const int); template int utils::bmin<int>(const int, const int);
template int utils::bmax<int>(const int, const int, const int); template int utils::bmin<int>(const int, const int, const int);
template float utils::bfmod<float>(const float, const float); template double utils::bfmod<double>(const double, const double);
template void utils::swap<float>(float&, float&); template void utils::swap<int>(int&, int&); template void utils::swap<uint8_t>(uint8_t&, uint8_t&);
template void planes::intersect<float>(float&, float&, float&, float&, const float, const float, const float, const float, const float, const float, const float, const float, const float, const float, const float, const float);
template float planes::dot<float>(const float, const float, const float, const float, const float, const float, const float, const float);
template void planes::bisect<float>(float&, float&, float&, float&, const float, const float, const float, const float, const float, const float);
template float sr::update<float>(const float, const float, const float, const float, const float, const float, const float);
template bool sr::is_reached<float>(const float, const float, const float, const float, const float, const float, const float);
template float xyzset::get_distance<float>(const float, const float, const float, const float, const float, const float);
template int xyzset::get_cell<int, float>(const float, const float, const int);
// the members are not templates: taking their addresses makes the compiler emit them
cc::state mk_state() { return cc::state(); }
auto p1 = &cc::state::get; auto p2 = &cc::state::set_true; auto p3 = &cc::state::set_false; auto p4 = &cc::state::reset;
boundary::vstatus mk_vstatus() { return boundary::vstatus(); }
auto q1 = &boundary::vstatus::get; auto q2 = &boundary::vstatus::set_true; auto q3 = &boundary::vstatus::get_nshared_edges; auto q4 = &boundary::vstatus::get_shared_position;
