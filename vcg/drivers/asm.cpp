#include <votess.hpp>
auto use_fill = &votess::tmpnn_fill<int>;
auto use_getdnn = &votess::tmpnn_getdnn<int>;
