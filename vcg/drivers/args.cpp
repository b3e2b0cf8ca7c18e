#include <arguments.hpp>
// clients of the parameter set: every member of vtargs and vtargref is inlined into them
typedef votess::vtargs A;
typedef const std::string& S;
int  client_default(S key) { A a; return a[key]; }
int  client_read_int(A& a, S key) { return a[key]; }
int  client_read_const(const A& a, S key) { return a[key]; }
int  client_get_int(const A& a, S key) { return a[key].get<int>(); }
bool client_get_bool(A& a, S key) { return a[key].get<bool>(); }
size_t client_get_size(A& a, S key) { return a[key].get<size_t>(); }
int  client_store_int(A& a, S k1, int v, S k2) { a[k1] = v; return a[k2]; }
bool client_store_bool(A& a, S k1, bool v, S k2) { a[k1] = v; return a[k2].get<bool>(); }
size_t client_store_size(A& a, S k1, size_t v, S k2) { a[k1] = v; return a[k2].get<size_t>(); }
int  client_copy_store(A& a, S k1, int v, S k2) { A b = a; b[k1] = v; return a[k2]; }
int  client_copy_read(A& a, S k1, int v, S k2) { A b = a; a[k1] = v; return b[k2]; }
int  client_xyzset(const A& a) { return a.get_xyzset().grid_resolution; }
int  client_knn_k(const A& a) { return a.get_knn().k; }
int  client_knn_gr(const A& a) { return a.get_knn().grid_resolution; }
int  client_cc_k(const A& a) { return a.get_cc().k; }
int  client_cc_p(const A& a) { return a.get_cc().p_maxsize; }
int  client_cc_t(const A& a) { return a.get_cc().t_maxsize; }
