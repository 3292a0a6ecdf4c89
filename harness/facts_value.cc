// C12, C16: values that are an owner's own owned object, another owner's, or a part of one.
#include <cstddef>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include "facts.h"
#include "own.h"
using namespace vt;
#if VT_KIND == 1
#define INP VT_INPLACE
#else
#define INP VT_INPLACE_TYPE(Ev)
#endif
static std::string how;
static int allocs, frees;
static void note(const char* s) { how += (how.empty() ? "" : ", ") + std::string(s); }
template <class X, bool AE>
struct Al {
  using value_type = X;
  using is_always_equal = std::integral_constant<bool, AE>;
  template <class Y> struct rebind { using other = Al<Y, AE>; };
  int uid;
  Al() : uid(0) {}
  explicit Al(int u, int) : uid(u) {}
  Al(const Al&) = default;
  Al& operator=(const Al&) = delete;
  template <class Y> Al(const Al<Y, AE>& o) : uid(o.uid) {}
  X* allocate(std::size_t n) { ++allocs; return std::allocator<X>().allocate(n); }
  void deallocate(X* p, std::size_t n) { ++frees; std::allocator<X>().deallocate(p, n); }
  friend bool operator==(const Al& a, const Al& b) { return AE || a.uid == b.uid; }
  friend bool operator!=(const Al& a, const Al& b) { return !(a == b); }
};
struct Part { int n; };
struct Ev {
  int v;
  Part part;
  explicit Ev(int x) : v(x), part{x} { note("new args"); }
  Ev(Ev& o) : v(o.v), part(o.part) { note("new &"); }
  Ev(const Ev& o) : v(o.v), part(o.part) { note("new const&"); }
  Ev(Ev&& o) noexcept : v(o.v), part(o.part) { o.v = -1; note("new &&"); }
  Ev(const Ev&& o) : v(o.v), part(o.part) { note("new const&&"); }
  explicit Ev(Part& p) : v(p.n), part(p) { note("new part &"); }
  explicit Ev(const Part& p) : v(p.n), part(p) { note("new part const&"); }
  explicit Ev(Part&& p) : v(p.n), part(p) { note("new part &&"); p.n = -1; part.n = v; }
  explicit Ev(const Part&& p) : v(p.n), part(p) { note("new part const&&"); }
  Ev& set(int x, const char* s) { v = x; part.n = x; note(s); return *this; }
  Ev& operator=(Ev& o) { return set(o.v, "set &"); }
  Ev& operator=(const Ev& o) { return set(o.v, "set const&"); }
  Ev& operator=(Ev&& o) { int x = o.v; o.v = -1; return set(x, "set &&"); }
  Ev& operator=(const Ev&& o) { return set(o.v, "set const&&"); }
  Ev& operator=(Part& p) { return set(p.n, "set part &"); }
  Ev& operator=(const Part& p) { return set(p.n, "set part const&"); }
  Ev& operator=(Part&& p) { int x = p.n; p.n = -1; return set(x, "set part &&"); }
  Ev& operator=(const Part&& p) { return set(p.n, "set part const&&"); }
  ~Ev() { note("delete"); v = part.n = -9; }
};
static_assert(std::is_nothrow_move_constructible<Ev>::value, "");
#if VT_KIND == 1
template <bool AE> using Own = xyz::indirect<Ev, Al<Ev, AE>>;
#else
template <bool AE> using Own = xyz::polymorphic<Ev, Al<Ev, AE>>;
#endif
static void start() { how.clear(); allocs = frees = 0; }
template <class O>
void emit(const char* form, const char* arg, const char* cat, bool eng, const O& o, const Ev* was, int src, int wantuid) {
  std::string h = how;
  int a = allocs, f = frees;
  const Ev* p = o.operator->();
  Fact("valias").i("kind", VT_KIND).t("form", form).t("arg", arg).t("cat", cat).b("eng", eng).b("same", p == was).t("how", h).i("allocs", a).i("frees", f)
      .i("val", p->v == p->part.n ? p->v : -5).i("src", src).i("uid", o.get_allocator().uid).i("wantuid", wantuid);
}
// what is assigned or built from: the owner's object, and its part, in each category
#define CATS(DO, OBJ)                              \
  DO("&", OBJ)                                     \
  DO("const&", static_cast<const Ev&>(OBJ))        \
  DO("&&", std::move(OBJ))                         \
  DO("const&&", std::move(static_cast<const Ev&>(OBJ)))
#define PARTS(DO, OBJ)                                 \
  DO("&", OBJ.part)                                    \
  DO("const&", static_cast<const Part&>(OBJ.part))     \
  DO("&&", std::move(OBJ.part))                        \
  DO("const&&", std::move(static_cast<const Part&>(OBJ.part)))
template <bool AE>
void run() {
  using O = Own<AE>;
  Al<Ev, AE> a1(1, 0), a2(2, 0);
#define BUILD(FORM, CAT, ...) { O b(std::allocator_arg, a1, INP, 5); start(); O o __VA_ARGS__; emit(FORM, "other", CAT, false, o, nullptr, b->v, std::string(FORM).find("ext") == 0 ? 2 : 0); }
#define VALUE(CAT, X) BUILD("value", CAT, (X)) BUILD("ext-value", CAT, (std::allocator_arg, a2, X)) BUILD("inplace", CAT, (INP, X)) BUILD("ext-inplace", CAT, (std::allocator_arg, a2, INP, X))
  CATS(VALUE, (*b))
#if VT_KIND == 1
#define OWN(CAT, X) { O o(std::allocator_arg, a2, INP, 5); const Ev* was = o.operator->(); start(); o = X; if (o->v == -1) o->v = 5; emit("assign", "own", CAT, true, o, was, 5, 2); }
#define OWNP(CAT, X) { O o(std::allocator_arg, a2, INP, 5); const Ev* was = o.operator->(); start(); o = X; emit("assign", "own part", CAT, true, o, was, 5, 2); }
#define OTHER(CAT, X) { O b(std::allocator_arg, a1, INP, 5), o(std::allocator_arg, a2, INP, 6); const Ev* was = o.operator->(); start(); o = X; emit("assign", "other", CAT, true, o, was, b->v, 2); }
#define OTHERP(CAT, X) { O b(std::allocator_arg, a1, INP, 5), o(std::allocator_arg, a2, INP, 6); const Ev* was = o.operator->(); start(); o = X; emit("assign", "other part", CAT, true, o, was, b->part.n, 2); }
#define EMPTY(CAT, X) { O b(std::allocator_arg, a1, INP, 5), o(std::allocator_arg, a2, INP, 6); O gone(std::move(o)); start(); o = X; emit("assign", "other", CAT, false, o, nullptr, b->v, 2); }
#define EMPTYP(CAT, X) { O b(std::allocator_arg, a1, INP, 5), o(std::allocator_arg, a2, INP, 6); O gone(std::move(o)); start(); o = X; emit("assign", "other part", CAT, false, o, nullptr, b->part.n, 2); }
  CATS(OWN, (*o)) PARTS(OWNP, (*o))
  CATS(OTHER, (*b)) PARTS(OTHERP, (*b))
  CATS(EMPTY, (*b)) PARTS(EMPTYP, (*b))
  OWN("&&", *std::move(o)) OWN("const&&", *std::move(static_cast<const O&>(o)))
  OTHER("&&", *std::move(b)) OTHER("const&&", *std::move(static_cast<const O&>(b)))
  EMPTY("&&", *std::move(b)) EMPTY("const&&", *std::move(static_cast<const O&>(b)))
  VALUE("&&", *std::move(b)) VALUE("const&&", *std::move(static_cast<const O&>(b)))
  // what the owner just gave away: the object's new owner is named through the old one's pointer
  { O b(std::allocator_arg, a1, INP, 5); Ev& e = *b; O c(std::move(b)); start(); b = e; emit("assign", "other", "&", false, b, nullptr, c->v, 1); }
  { O b(std::allocator_arg, a1, INP, 5); Ev& e = *b; O c(std::move(b)); start(); b = std::move(e); emit("assign", "other", "&&", false, b, nullptr, c->v, 1); }
#endif
}
int main() {
  run<false>();
  run<true>();
}
