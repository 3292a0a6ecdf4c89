// C26: a consumer of the package; the headers it includes are chosen by the targets it links (VT_I*, VT_P*).
#if defined(VT_I20)
#include "indirect.h"
#elif defined(VT_I14)
#include "indirect_cxx14.h"
#endif
#if defined(VT_P20)
#include "polymorphic.h"
#elif defined(VT_P14)
#include "polymorphic_cxx14.h"
#endif
#include <cstdio>

struct Base {
  int v = 1;
  virtual ~Base() {}
  virtual int get() const { return v; }
};
struct Derived : Base {
  int get() const override { return 10 * v; }
};

int main() {
  bool ok = true;
#if defined(VT_I20) || defined(VT_I14)
  {
    xyz::indirect<Base> a;
    xyz::indirect<Base> b(a);
    b->v = 2;
    ok = ok && a->v == 1 && b->get() == 2;
    xyz::indirect<Base> c(std::move(b));
    ok = ok && b.valueless_after_move() && c->v == 2;
  }
#endif
#if defined(VT_P20) || defined(VT_P14)
  {
    xyz::polymorphic<Base> a{Derived()};
    xyz::polymorphic<Base> b(a);
    b->v = 2;
    ok = ok && a->get() == 10 && b->get() == 20;
    xyz::polymorphic<Base> c(std::move(b));
    ok = ok && b.valueless_after_move() && c->get() == 20;
  }
#endif
  std::printf("{\"std\":%ld,\"ok\":%s,\"defs\":[", __cplusplus, ok ? "true" : "false");
  const char* sep = "";
#ifdef XYZ_INDIRECT_CXX_14
  std::printf("%s\"XYZ_INDIRECT_CXX_14\"", sep);
  sep = ",";
#endif
#ifdef XYZ_POLYMORPHIC_CXX_14
  std::printf("%s\"XYZ_POLYMORPHIC_CXX_14\"", sep);
  sep = ",";
#endif
  std::printf("]}\n");
  (void)sep;
  return 0;
}
