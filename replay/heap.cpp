#include "oracle.hpp"
#include <heap.hpp>
using namespace oracle;
using AI = device_accessor_readwrite_t<int>; using AF = device_accessor_readwrite_t<float>;
// one row in a bigger array, in the three layouts
template <class Tf> static float key(rng& r, int shape) { (void)sizeof(Tf);
  if (shape == 0) return (float)r.in(0, 3); if (shape == 1) return r.one_in(4) ? INFINITY : r.unitf(); if (shape == 2) return (float)r.in(-1000, 1000); return r.unitf(); }
int main(int c, char** v) {
  return run(c, v, 2000, 400000, 20, [](long n, rng& r) {
    int lay = n % 3, what = (n / 3) % 2, shape = r.in(0, 3); long k = n < 120 ? n / 6 : r.in(0, r.one_in(8) ? 90 : 12);
    long rows = r.in(1, 5), row = r.in(0, rows - 1), s = lay == 2 ? rows : 1, pre = lay == 2 ? row : r.in(0, 9);
    long N = lay == 2 ? rows * k + rows : pre + k + r.in(0, 7);
    std::vector<int> id(N); std::vector<float> pq(N);
    auto at = [&](long j) { return lay == 2 ? s * j + row : pre + j; };
    for (long i = 0; i < N; i++) { id[i] = 1000 + i; pq[i] = key<float>(r, shape); }
    long start = 0;
    if (what == 0 && k > 0) {
      start = r.in(0, k - 1);
      for (long j = k - 1; j > start; j--) for (long ch : {2 * j + 1, 2 * j + 2}) if (ch < k && pq[at(j)] < pq[at(ch)]) pq[at(j)] = pq[at(ch)];
    }
    std::string ks; for (long j = 0; j < k && j < 40; j++) ks += std::to_string(pq[at(j)]) + " ";
    desc("%s layout=%s row size=%ld first=%ld stride=%ld start=%ld keys=%s", what ? "sort" : "maxheapify", lay == 0 ? "host" : lay == 1 ? "device row" : "device column", k, lay == 2 ? row : pre, s, start, ks.c_str());
    auto id0 = id; auto pq0 = pq;
    AI ai(id.data(), N); AF af(pq.data(), N);
    if (what == 0) { if (lay == 0) heap::maxheapify<int, float>(id, pq, pre, k, start); else if (lay == 1) heap::maxheapify<int, float>(ai, af, (size_t)pre, (size_t)k, (size_t)start); else heap::maxheapify<int, float>(ai, af, (int)s, (int)row, (int)k, (int)start); }
    else { if (lay == 0) heap::sort<int, float>(id, pq, pre, k); else if (lay == 1) heap::sort<int, float>(ai, af, (size_t)pre, (size_t)k); else heap::sort<int, float>(ai, af, (int)s, (int)row, (int)k); }
    std::set<long> in; for (long j = 0; j < k; j++) in.insert(at(j));
    for (long i = 0; i < N; i++) if (!in.count(i) && (id[i] != id0[i] || pq[i] != pq0[i])) fail("element %ld outside the row changed", i);
    std::vector<std::pair<int, float>> a, b; for (long j = 0; j < k; j++) { a.push_back({id0[at(j)], pq0[at(j)]}); b.push_back({id[at(j)], pq[at(j)]}); }
    if (what == 1) for (long j = 1; j < k; j++) if (pq[at(j)] < pq[at(j - 1)]) fail("keys not in order at %ld", j);
    if (what == 0) for (long j = start; j < k; j++) for (long ch : {2 * j + 1, 2 * j + 2}) if (ch < k && pq[at(j)] < pq[at(ch)]) fail("heap order broken at %ld", j);
    std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) fail("the row is not a permutation of (id,key) pairs");
  });
}
