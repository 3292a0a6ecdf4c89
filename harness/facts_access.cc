// Constness and value category of every access path (C15).
#include "own.h"
#include "facts.h"
#include <cstdlib>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>
using namespace vt;
static int touched = 0;
struct T {
  int v;
  T(int x = 1) : v(x) {}
  T(const T& o) : v(o.v) { ++touched; }
  T(T&& o) : v(o.v) { o.v = 0; ++touched; }
  T& operator=(const T& o) { v = o.v; ++touched; return *this; }
  T& operator=(T&& o) { v = o.v; o.v = 0; ++touched; return *this; }
  virtual ~T() = default;
  virtual int w() & { return 1; }
  virtual int w() const& { return 2; }
  virtual int w() && { return 3; }
  virtual int w() const&& { return 4; }
  virtual const T* me() const { return this; }
  T* operator&() { return nullptr; }
  const T* operator&() const { return nullptr; }
  // operators of the owned class, which reaching the object through its owner never uses
  T* operator->();
  const T* operator->() const;
  T& operator*();
  const T& operator*() const;
  explicit operator bool() const { return false; }
  bool operator!() const { return true; }
  template <class U>
  const T& operator,(U&&) const { return **this; }
  static void* operator new(std::size_t) = delete;
  static void operator delete(void*) { std::abort(); }
};
struct Z { long q = 3; virtual ~Z() = default; };
struct D : Z, T {
  using T::T;
  int w() & override { return 11; }
  int w() const& override { return 12; }
  int w() && override { return 13; }
  int w() const&& override { return 14; }
};
static D& decoy() {
  static D d(-5);
  return d;
}
T* T::operator->() { return std::addressof(static_cast<T&>(decoy())); }
const T* T::operator->() const { return std::addressof(static_cast<const T&>(decoy())); }
T& T::operator*() { return decoy(); }
const T& T::operator*() const { return decoy(); }
static int allocs = 0;
template <class X>
struct CountAl {
  using value_type = X;
  CountAl() = default;
  template <class Y>
  CountAl(const CountAl<Y>&) {}
  X* allocate(std::size_t n) { ++allocs; return std::allocator<X>().allocate(n); }
  void deallocate(X* p, std::size_t n) { std::allocator<X>().deallocate(p, n); }
  friend bool operator==(const CountAl&, const CountAl&) { return true; }
  friend bool operator!=(const CountAl&, const CountAl&) { return false; }
};
template <class X> struct TypeStr;
template <class X, class Base>
std::string tn() {
  using NR = typename std::remove_reference<X>::type;
  std::string s;
  if (std::is_pointer<NR>::value) {
    using P = typename std::remove_pointer<NR>::type;
    if (!std::is_same<typename std::remove_cv<P>::type, Base>::value) return "?";
    s = std::is_const<P>::value ? "const T*" : "T*";
    return s;
  }
  if (!std::is_same<typename std::remove_cv<NR>::type, Base>::value) return "?";
  s = std::is_const<NR>::value ? "const T" : "T";
  if (std::is_lvalue_reference<X>::value) return s + "&";
  if (std::is_rvalue_reference<X>::value) return s + "&&";
  return s;
}
template <class X>
const T* addr(X&& x) { return std::addressof(static_cast<const T&>(x)); }

// O is an owner type, Base what it shows
template <class O, class Mk>
void all(const char* name, int depth, Mk mk) {
  O o = mk();
  const O& c = o;
  const T* p = nullptr;
  auto leaf = [](const O& x) -> const O& { return x; };
  p = std::addressof(*leaf(o));
  allocs = 0;
  touched = 0;
  auto put = [&](int cat, const char* acc, const std::string& ty, int sel, bool same) {
    Fact("access").i("kind", VT_KIND).t("own", name).i("depth", depth).i("cat", cat).t("acc", acc).t("ty", ty).i("sel", sel).b("same", same).i("allocs", allocs).i("touched", touched);
  };
  put(1, "*", tn<decltype(*std::declval<O&>()), T>(), (*o).w(), addr(*o) == p && (*o).me() == p);
  put(2, "*", tn<decltype(*std::declval<const O&>()), T>(), (*c).w(), addr(*c) == p && (*c).me() == p);
  put(3, "*", tn<decltype(*std::declval<O>()), T>(), (*std::move(o)).w(), addr(*std::move(o)) == p && (*std::move(o)).me() == p);
  put(4, "*", tn<decltype(*std::declval<const O>()), T>(), (*std::move(c)).w(), addr(*std::move(c)) == p && (*std::move(c)).me() == p);
  put(1, "->", tn<decltype(std::declval<O&>().operator->()), T>(), o->w(), o.operator->() == p && o->me() == p);
  put(2, "->", tn<decltype(std::declval<const O&>().operator->()), T>(), c->w(), c.operator->() == p && c->me() == p);
  put(3, "->", tn<decltype(std::declval<O>().operator->()), T>(), std::move(o)->w(), std::move(o).operator->() == p);
  put(4, "->", tn<decltype(std::declval<const O>().operator->()), T>(), std::move(c)->w(), std::move(c).operator->() == p);
  // repeated access, and writing through every mutable path, reaches the one object
  bool same = true;
  int v = 100;
  (*o).v = ++v;
  same = same && c->v == v && (*c).v == v && o->v == v;
  o->v = ++v;
  same = same && (*c).v == v && (*o).v == v && c.operator->()->v == v;
  {
    auto&& r = *std::move(o);
    r.v = ++v;
  }
  same = same && c->v == v && (*c).v == v && !c.valueless_after_move();
  std::move(o)->v = ++v;
  same = same && c->v == v && !c.valueless_after_move();
  Fact("write").i("kind", VT_KIND).t("own", name).b("same", same).b("stays", !c.valueless_after_move() && std::addressof(*c) == p);
}
// moving out of a dereferenced rvalue really takes the value
template <class O, class Mk>
void take(const char* name, Mk mk) {
  O o = mk();
  touched = 0;
  T x = *std::move(o);
  Fact("take").i("kind", VT_KIND).t("own", name).i("got", x.v).i("left", o->v).i("touched", touched);
  O q = mk();
  touched = 0;
  T y = *static_cast<const O&&>(q);
  Fact("takec").i("kind", VT_KIND).t("own", name).i("got", y.v).i("left", q->v).i("touched", touched);
}
#if VT_KIND == 1
using O1 = xyz::indirect<T>;
using O2 = xyz::indirect<T, CountAl<T>>;
#else
using O1 = xyz::polymorphic<T>;
using O2 = xyz::polymorphic<T, CountAl<T>>;
#endif
// constness through layers: owner in a class, in an owner, in a container
struct Holder {
  O1 m;
  Holder() : m(T(7)) {}
  Holder(const Holder&) = default;
  int rd() const { return m->w() * 100 + (*m).w(); }
  int wr() { return m->w() * 100 + (*m).w(); }
};
#if VT_KIND == 1
template <class X> using OwnOf = xyz::indirect<X>;
template <class X> OwnOf<X> mkown() { return OwnOf<X>(); }
#else
template <class X> using OwnOf = xyz::polymorphic<X>;
template <class X> OwnOf<X> mkown() { return OwnOf<X>(); }
#endif
int main() {
  auto m1 = [] { return O1(T(7)); };
  auto m2 = [] { return O2(T(7)); };
  all<O1>("std", 1, m1);
  all<O2>("counting", 1, m2);
  take<O1>("std", m1);
#if VT_KIND == 2
  auto d1 = [] { return O1(D(7)); };
  auto d2 = [] { return O2(D(7)); };
  all<O1>("derived", 1, d1);
  all<O2>("derived-counting", 1, d2);
#endif
  OwnOf<Holder> h = mkown<Holder>();
  const OwnOf<Holder>& ch = h;
  std::vector<O1> vec;
  vec.push_back(m1());
  const std::vector<O1>& cvec = vec;
  auto put = [](const char* path, bool cst, int sel, const std::string& ty) { Fact("layer").i("kind", VT_KIND).t("path", path).b("cst", cst).i("sel", sel).t("ty", ty); };
  put("owner.member*", false, (*h->m).w(), tn<decltype(*std::declval<OwnOf<Holder>&>()->m), T>());
  put("owner.member*", true, (*ch->m).w(), tn<decltype(*std::declval<const OwnOf<Holder>&>()->m), T>());
  put("owner.member->", false, h->m->w(), tn<decltype(std::declval<OwnOf<Holder>&>()->m.operator->()), T>());
  put("owner.member->", true, ch->m->w(), tn<decltype(std::declval<const OwnOf<Holder>&>()->m.operator->()), T>());
  put("method", false, h->wr() / 100, "-");
  put("method", true, ch->rd() / 100, "-");
  put("method*", false, h->wr() % 100, "-");
  put("method*", true, ch->rd() % 100, "-");
  put("vector*", false, (*vec[0]).w(), tn<decltype(*std::declval<std::vector<O1>&>()[0]), T>());
  put("vector*", true, (*cvec[0]).w(), tn<decltype(*std::declval<const std::vector<O1>&>()[0]), T>());
  put("vector->", false, vec[0]->w(), tn<decltype(std::declval<std::vector<O1>&>()[0].operator->()), T>());
  put("vector->", true, cvec[0]->w(), tn<decltype(std::declval<const std::vector<O1>&>()[0].operator->()), T>());
#if VT_KIND == 1
  xyz::indirect<O1> n(VT_INPLACE, T(7));
  const xyz::indirect<O1>& cn = n;
#else
  struct Box { O1 o{T(7)}; O1& operator*() { return o; } const O1& operator*() const { return o; } };
  xyz::polymorphic<Box> n{Box{}};
  const xyz::polymorphic<Box>& cn = n;
#endif
#if VT_KIND == 1
  put("nested**", false, (**n).w(), tn<decltype(**std::declval<xyz::indirect<O1>&>()), T>());
  put("nested**", true, (**cn).w(), tn<decltype(**std::declval<const xyz::indirect<O1>&>()), T>());
  put("nested->->", false, (*n)->w(), "-");
  put("nested->->", true, (*cn)->w(), "-");
  put("nested->deref", false, (n->operator*)().w(), "-");
  put("nested->deref", true, (cn->operator*)().w(), "-");
#else
  put("nested**", false, (***n).w(), "-");
  put("nested**", true, (***cn).w(), "-");
#endif
}
