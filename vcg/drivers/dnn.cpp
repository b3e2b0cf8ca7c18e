#include <dnn.hpp>
// clients of the container: every member is inlined into them
typedef std::vector<int> V;
typedef votess::dnn<int> D;
size_t client_size(V& list, V& offs) { D d(list, offs); return d.size(); }
size_t client_size_moved(V&& list, V&& offs) { D d(std::move(list), std::move(offs)); return d.size(); }
size_t client_size_default() { D d; return d.size(); }
size_t client_row(V& list, V& offs, int i) { D d(list, offs); return d[i].size(); }
int client_read(V& list, V& offs, int i, size_t j) { D d(list, offs); return d[i][j]; }
int client_read_moved(V&& list, V&& offs, int i, size_t j) { D d(std::move(list), std::move(offs)); return d[i][j]; }
int client_write(V& list, V& offs, int i, size_t j, int v, int i2, size_t j2) { D d(list, offs); d[i][j] = v; return d[i2][j2]; }
size_t client_write_row(V& list, V& offs, int i, size_t j, int v, int i2) { D d(list, offs); d[i][j] = v; return d[i2].size(); }
void client_print(V& list, V& offs) { D d(list, offs); d.print(); }
void client_savetxt(V& list, V& offs, const std::string& f) { D d(list, offs); d.savetxt(f); }
