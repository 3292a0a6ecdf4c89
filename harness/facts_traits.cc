// No-throw promises of every operation in every allocator configuration (C22).
#include "own.h"
#include "facts.h"
#include "vt.h"
using namespace vt;
#include <string>
// elements whose own operations may throw, or may not: the promises do not depend on them
struct Calm {
  int x = 0;
  Calm() noexcept {}
  Calm(const Calm&) noexcept {}
  Calm(Calm&&) noexcept {}
  Calm& operator=(const Calm&) noexcept { return *this; }
  virtual ~Calm() = default;
};
struct Wild {
  int x = 0;
  Wild() noexcept(false) {}
  Wild(const Wild&) noexcept(false) {}
  Wild(Wild&&) noexcept(false) {}
  Wild& operator=(const Wild&) noexcept(false) { return *this; }
  virtual ~Wild() = default;
};
#if VT_KIND == 1
using Main = E<0>;
template <class El, class C>
using Own = xyz::indirect<El, Al<El, C>>;
#else
using Main = PB<0, true>;
template <class El, class C>
using Own = xyz::polymorphic<El, Al<El, C>>;
#endif
template <class El, class C>
void one(const char* el) {
  using O = Own<El, C>;
  using A = typename O::allocator_type;
  auto put = [el](const char* op, bool v) {
    Fact("noexcept").i("kind", VT_KIND).b("pocca", C::pocca).b("pocma", C::pocma).b("pocs", C::pocs).b("ae", C::ae).b("sel", C::sel).t("el", el).t("op", op).b("val", v);
  };
  put("mctor", std::is_nothrow_move_constructible<O>::value);
  put("mctor_ext", noexcept(O(std::allocator_arg, std::declval<const A&>(), std::declval<O>())));
  put("massign", std::is_nothrow_move_assignable<O>::value);
  put("massign", noexcept(std::declval<O&>() = std::declval<O>()));
  put("swap", noexcept(std::declval<O&>().swap(std::declval<O&>())));
  put("swap", noexcept(swap(std::declval<O&>(), std::declval<O&>())));
#if __cplusplus >= 201703L
  put("swap", std::is_nothrow_swappable_v<O>);
#endif
  put("dtor", std::is_nothrow_destructible<O>::value);
  put("deref", noexcept(*std::declval<O&>()));
  put("deref_c", noexcept(*std::declval<const O&>()));
  put("deref_r", noexcept(*std::declval<O>()));
  put("deref_cr", noexcept(*std::declval<const O>()));
  put("arrow", noexcept(std::declval<O&>().operator->()));
  put("arrow_c", noexcept(std::declval<const O&>().operator->()));
  put("valueless", noexcept(std::declval<const O&>().valueless_after_move()));
  put("get_alloc", noexcept(std::declval<const O&>().get_allocator()));
  put("cctor", std::is_nothrow_copy_constructible<O>::value);
  put("cassign", std::is_nothrow_copy_assignable<O>::value);
  put("cctor_ext", noexcept(O(std::allocator_arg, std::declval<const A&>(), std::declval<const O&>())));
  put("dctor", std::is_nothrow_default_constructible<O>::value);
  put("dctor_ext", noexcept(O(std::allocator_arg, std::declval<const A&>())));
#if VT_KIND == 1
  put("inplace", noexcept(O(VT_INPLACE)));
  put("vassign", noexcept(std::declval<O&>() = std::declval<const El&>()));
#else
  put("inplace", noexcept(O(VT_INPLACE_TYPE(El))));
#endif
}
template <bool a, bool b, bool c>
void four() {
  one<Main, Cfg<a, b, c, 0, 0>>("main");
  one<Main, Cfg<a, b, c, 0, 1>>("main");
  one<Main, Cfg<a, b, c, 1, 0>>("main");
  one<Main, Cfg<a, b, c, 1, 1>>("main");
  one<Calm, Cfg<a, b, c, 0, 0>>("calm");
  one<Calm, Cfg<a, b, c, 1, 0>>("calm");
  one<Wild, Cfg<a, b, c, 0, 0>>("wild");
  one<Wild, Cfg<a, b, c, 1, 0>>("wild");
#if VT_KIND == 1
  one<int, Cfg<a, b, c, 0, 0>>("int");
  one<int, Cfg<a, b, c, 1, 0>>("int");
#endif
}
int main() {
  four<0, 0, 0>();
  four<0, 0, 1>();
  four<0, 1, 0>();
  four<0, 1, 1>();
  four<1, 0, 0>();
  four<1, 0, 1>();
  four<1, 1, 0>();
  four<1, 1, 1>();
  // the default allocator, as users meet it
#if VT_KIND == 1
  using D = xyz::indirect<std::string>;
#else
  using D = xyz::polymorphic<Main>;
#endif
  Fact("noexcept_default").i("kind", VT_KIND).b("mctor", std::is_nothrow_move_constructible<D>::value).b("massign", std::is_nothrow_move_assignable<D>::value).b("swap", noexcept(swap(std::declval<D&>(), std::declval<D&>()))).b("dtor", std::is_nothrow_destructible<D>::value);
}
