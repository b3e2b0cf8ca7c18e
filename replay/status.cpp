#include "oracle.hpp"
#include <status.hpp>
#include <boundary.hpp>
using namespace oracle;
static const int exp_n[8] = {0, 1, 1, 2, 1, 2, 2, 3};
int main(int c, char** v) {
  return run(c, v, 256 * 8, 256 * 8, 20, [](long n, rng&) {
    int byte = n % 256, f = n / 256;
    desc("state byte=%d flag=%d", byte, f);
    { cc::state s; if (s.byte != 0) fail("a new state has flags 0x%x", s.byte); }
    { cc::state s; s.byte = byte; s.reset(); if (s.byte != 0) fail("reset leaves 0x%x", s.byte); for (int g = 0; g < 8; g++) if (s.get((cc::status)g)) fail("flag %d set after reset", g); }
    cc::state s; s.byte = byte; bool g = s.get((cc::status)f);
    if (s.byte != byte) fail("reading changed the state");
    if (g != (bool)((byte >> f) & 1)) fail("get=%d", g);
    s.set_true((cc::status)f); for (int b = 0; b < 8; b++) if (s.get((cc::status)b) != (b == f ? true : (bool)((byte >> b) & 1))) fail("after set_true flag %d is %d", b, s.get((cc::status)b));
    s.byte = byte; s.set_false((cc::status)f); for (int b = 0; b < 8; b++) if (s.get((cc::status)b) != (b == f ? false : (bool)((byte >> b) & 1))) fail("after set_false flag %d is %d", b, s.get((cc::status)b));
    if (byte < 8) {
      boundary::vstatus w; if (w.byte != 0) fail("a new edge record is 0x%x", w.byte); if (w.get_nshared_edges() != 0) fail("a new record counts edges");
      for (int b = 0; b < 3; b++) if ((byte >> b) & 1) w.set_true(b);
      for (int b = 0; b < 3; b++) if (w.get(b) != ((byte >> b) & 1)) fail("edge %d reads %d", b, w.get(b));
      if (w.get_nshared_edges() != exp_n[byte]) fail("counts %d edges of 0x%x", w.get_nshared_edges(), byte);
      if (byte != 0 && byte != 7) {
        int p = w.get_shared_position();
        // one edge: that edge.  two edges: the edge after which both marked edges are p+1 and p+2 (the unmarked one is p)
        int want = exp_n[byte] == 1 ? (byte == 1 ? 0 : byte == 2 ? 1 : 2) : (byte == 3 ? 2 : byte == 5 ? 1 : 0);
        if (p != want) fail("position %d of 0x%x", p, byte);
      }
      w.set_true(f % 3); if (w.byte != (byte | (1 << (f % 3)))) fail("set_true(%d) of 0x%x gave 0x%x", f % 3, byte, w.byte);
    }
  });
}
