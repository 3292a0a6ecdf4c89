// trace SEED HISTORIES LENGTH [TYPES]: long random histories of five owners, recorded step by step for spec/VTTrace.tla.
// Compile with -DVT_V=14|20 -DVT_KIND=1|2 -DVT_MV=0|1|2 [-DVT_VD=false]
#include "runner.h"
#include "history.h"
#ifndef VT_MV
#define VT_MV 0
#endif
#ifndef VT_VD
#define VT_VD true
#endif
using namespace vt;
static int g_types[3] = {2, 3, 4};

static unsigned g_seed;
static int g_hist, g_len;
template <class C>
void go(int a, int b, int c, int d, int e) {
  CfgKey key{VT_KIND, a, b, c, d, e, VT_MV};
  for (int h = 0; h < g_hist; ++h) {
    int rc = in_child(60, [&] {
#if VT_KIND == 1
      auto* r = new IndRunner<VT_MV, C>();
#else
      auto* r = new PolyRunner<VT_MV, VT_VD, C>();
      for (int i = 0; i < 3; ++i) r->tymap[2 + i] = g_types[i];
#endif
      history(key, *r, Limits(), g_seed * 65537u + static_cast<unsigned>(h * 64 + a * 16 + b * 8 + c * 4 + d * 2 + e), g_len);
    });
    if (rc) {
      std::printf("\n{\"crash\":\"%s\",\"cfg\":[%d,%d,%d,%d,%d,%d,%d]}\n", signame(rc), key.kind, a, b, c, d, e, VT_MV);
      std::fflush(stdout);
    }
  }
}

int main(int argc, char** argv) {
  g_seed = argc > 1 ? static_cast<unsigned>(std::atoi(argv[1])) : 1;
  g_hist = argc > 2 ? std::atoi(argv[2]) : 1;
  g_len = argc > 3 ? std::atoi(argv[3]) : 60;
  if (argc > 4) std::sscanf(argv[4], "%d,%d,%d", &g_types[0], &g_types[1], &g_types[2]);
#define VT_CASE(a, b, c, d, e) go<Cfg<a, b, c, d, e>>(a, b, c, d, e);
#define VT_C5(a, b, c, d) VT_CASE(a, b, c, d, 0) VT_CASE(a, b, c, d, 1)
#define VT_C4(a, b, c) VT_C5(a, b, c, 0) VT_C5(a, b, c, 1)
#define VT_C3(a, b) VT_C4(a, b, 0) VT_C4(a, b, 1)
#if VT_POCCA_ONLY == 0
  VT_C3(0, 0) VT_C3(0, 1)
#else
  VT_C3(1, 0) VT_C3(1, 1)
#endif
  std::printf("{\"done\":1}\n");
  return 0;
}
