// A long random history of a few owners, recorded step by step for spec/VTTrace.tla.
#ifndef VT_HISTORY_H
#define VT_HISTORY_H
#include "driver.h"
namespace vt {
constexpr int NS = 5;

// what the element and the allocator at hand can do, and which events they can show
struct Limits {
  int max_uid = 2;
  bool cdef = true, copy_assign = true, aval = true, args = true, conv = true, ilist = true, hash = true;
  bool moves_cannot_fail = false;
  int ty_lo = 1;
  int faults = 2 + 4 + 8;         // allocation, construction, assignment
  const char* mask = "1,2,3,4,5";
  std::string what;
};

inline bool is_noexcept(const CfgKey& c, const OpR& o) {
  switch (o.o) {
    case CMOVE: return c.ae || (c.kind == 2 && o.a < 0);
    case AMOVE: return c.ae || c.pocma;
    case SWAP: return c.ae || c.pocs;
    case KILL: case MUT: return true;
  }
  return false;
}

// a random operation whose preconditions hold
inline OpR pick(Rng& r, const CfgKey& c, const std::vector<Seen>& st, const Limits& l) {
  auto tag = [&](int al) { return c.ae ? 0 : al == 2; };
  for (;;) {
    static const int ops[] = {CDEF, CVAL, CVAL, CVAL, CCOPY, CCOPY, CMOVE, CMOVE, ACOPY, ACOPY, ACOPY, ACOPY, AMOVE, AMOVE, AMOVE, AVAL, SWAP, SWAP, KILL, MUT};
    OpR o{ops[r.below(static_cast<int>(sizeof ops / sizeof *ops))], 1 + r.below(NS), 0, -1, 0, 0, 0, 0};
    auto s = static_cast<std::size_t>(o.s);
    bool cons = o.o <= CMOVE;
    if (cons != (st[s].st == 0)) continue;
    if ((o.o == CDEF && !l.cdef) || (o.o == ACOPY && !l.copy_assign)) continue;
    if (o.o == CDEF) {
      o.a = r.below(l.max_uid + 2) - 1;
      o.ty = 1;
      o.v = 1;
    } else if (o.o == CVAL) {
      o.a = r.below(l.max_uid + 2) - 1;
      o.ty = c.kind == 1 ? 1 : l.ty_lo + r.below(5 - l.ty_lo);
      o.v = 1 + r.below(9);
      o.f = 1 + r.below(5);
      if ((o.f == 1 && !l.args) || (o.f == 4 && !l.ilist)) continue;
    } else if (o.o == AVAL) {
      if (c.kind == 2 || !l.aval) continue;
      static const int fs[] = {1, 2, 3, 5};
      o.ty = 1;
      o.v = 1 + r.below(9);
      o.f = fs[r.below(4)];
      if (o.f == 1 && !l.conv) continue;
    } else if (o.o == MUT) {
      if (st[s].st != 2) continue;
      o.v = 1 + r.below(9);
    } else if (o.o != KILL) {
      o.t = 1 + r.below(NS);
      auto t = static_cast<std::size_t>(o.t);
      if (!st[t].st) continue;
      if (cons && o.s == o.t) continue;
      if (cons) o.a = r.below(l.max_uid + 2) - 1;
      if (o.o == SWAP && !(c.pocs || tag(st[s].al) == tag(st[t].al))) continue;
    }
    if (!is_noexcept(c, o) && r.below(4) == 0) {
      o.k = 1 + r.below(3);
      bool moves = o.o == CMOVE || o.o == AMOVE || ((o.o == CVAL || o.o == AVAL) && o.f == 3);
      if (!(l.faults >> o.k & 1) || (o.k > 1 && moves && l.moves_cannot_fail)) o.k = 0;
    }
    return o;
  }
}

inline void history(const CfgKey& key, Runner& r, const Limits& lim, unsigned seed, int len) {
  Rng rng(seed);
  Stepper st(r, NS);
  st.ae = key.ae != 0;
  st.reset();
  std::printf("{\"op\":\"start\",\"cfg\":[%d,%d,%d,%d,%d,%d,%d],\"mask\":[%s],\"what\":\"%s\"}\n", key.kind, key.pocca, key.pocma, key.pocs, key.ae, key.sel, key.mv, lim.mask, lim.what.c_str());
  for (int n = 0; n < len; ++n) {
    OpR o = pick(rng, key, st.pre, lim);
    std::vector<Mismatch> mm, mm2;
    int variant = rng.below(6);
    std::printf("{\"op\":\"step\",\"try\":[%d,%d,%d,%d,%d,%d,%d,%d]", o.o, o.s, o.t, o.a, o.ty, o.v, o.f, o.k);
    std::fflush(stdout);
    Stepper::Outcome out = st.run(o, variant, mm);
    for (auto& m : mm)
      if (m.code != "no-fault-point") mm2.push_back(m);
    std::printf(",\"o\":[%d,%d,%d,%d,%d,%d,%d],\"k\":%d,\"variant\":%d,\"exc\":%d,\"sl\":[", o.o, o.s, o.t, o.a, o.ty, o.v, o.f, o.k, variant, out.exc);
    for (int s = 1; s <= NS; ++s) {
      const Seen& h = out.post[static_cast<std::size_t>(s)];
      std::printf("%s[%d,%d,%d,%d,%d]", s > 1 ? "," : "", h.st, h.al, h.ty, h.val, out.origin[static_cast<std::size_t>(s)]);
    }
    std::printf("],\"ev\":[");
    for (std::size_t i = 0; i < out.ev.size(); ++i) std::printf("%s[%d,%d,%d,%d]", i ? "," : "", out.ev[i].k, out.ev[i].who, out.ev[i].how, out.ev[i].src);
    st.settle(out);
    std::printf("],\"rel\":[");
    if (r.has_cmp()) {
      W().begin(FNone);
      for (int a = 1; a <= NS; ++a)
        for (int b = 1; b <= NS; ++b) {
          auto x = static_cast<std::size_t>(a), y = static_cast<std::size_t>(b);
          std::printf("%s%d", a + b > 2 ? "," : "", out.post[x].st && out.post[y].st && out.post[x].good && out.post[y].good ? r.rel(a, b, mm2) : 0);
        }
      for (int a = 1; a <= NS; ++a) {
        auto x = static_cast<std::size_t>(a);
        if (lim.hash && out.post[x].st && out.post[x].good) W().rec = true, r.hash(a, out.post[x], mm2);
      }
      W().end();
      if (!W().ev.empty()) mm2.push_back(Mismatch{"cmp-effect", "", 0});
      W().errs.clear();
    }
    std::printf("],\"mm\":[");
    for (std::size_t i = 0; i < mm2.size(); ++i) std::printf("%s\"%s\"", i ? "," : "", mm2[i].code.c_str());
    std::printf("]}\n");
    std::fflush(stdout);
    bool broken = !mm2.empty();
    if (broken) break;  // the world may be in pieces
  }
}

}  // namespace vt
#endif
