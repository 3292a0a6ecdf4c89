// C25: the program the units are linked into.  It includes none of the library's headers.
#include "units.h"
namespace u {
long live = 0, wrong = 0;
std::vector<Unit>* units = nullptr;
}  // namespace u
int main() {
  using namespace u;
  if (!units) return 3;
  for (auto& x : *units) {
    x.facts();
    std::fflush(stdout);
  }
  int v = 0;
  for (auto& x : *units)
    for (auto& y : *units)
      for (int k = 0; k < KINDS; ++k)
        if (x.give[k] && y.take[k]) {
          alignas(std::max_align_t) char room[ROOM];
          std::memset(room, 0x5a, sizeof room);
          int got = 0, copy = 0;
          bool uid = false;
          x.give[k](room, ++v);
          y.take[k](room, &got, &copy, &uid);
          for (int n = 40; n < ROOM; ++n)
            if (room[n] != 0x5a) ++wrong;
          std::printf("{\"f\":\"give\",\"unit\":\"%s\",\"std\":%d,\"to\":\"%s\",\"tostd\":%d,\"k\":%d,\"v\":%d,\"got\":%d,\"copy\":%d,\"uid\":%s,\"live\":%ld,\"wrong\":%ld}\n", x.name, x.std, y.name, y.std, k, v, got, copy, uid ? "true" : "false", live, wrong);
          std::fflush(stdout);
        }
  delete units;
  std::printf("{\"done\":1}\n");
}
