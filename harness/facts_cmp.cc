// Every comparison operator over systematically enumerated operands (C13).
// A leaf value is shown to the specification by its rank among the values of
// its family (100: unordered); an owner is shown as [] or [inner].
#define VT_KIND 1
#include "own.h"
#include "facts.h"
#include <cmath>
#include <deque>
#include <limits>
#include <memory>
#include <string>
#include <vector>
using namespace vt;
static long touched = 0;
template <class X>
struct CountAl {
  using value_type = X;
  CountAl() = default;
  template <class Y>
  CountAl(const CountAl<Y>&) {}
  X* allocate(std::size_t n) { ++touched; return std::allocator<X>().allocate(n); }
  void deallocate(X* p, std::size_t n) { ++touched; std::allocator<X>().deallocate(p, n); }
  template <class U, class... As>
  void construct(U* p, As&&... as) { ++touched; ::new (static_cast<void*>(p)) U(std::forward<As>(as)...); }
  friend bool operator==(const CountAl&, const CountAl&) { return true; }
  friend bool operator!=(const CountAl&, const CountAl&) { return false; }
};
struct Watch {  // counts its own copies
  int v;
  explicit Watch(int x) : v(x) {}
  Watch(const Watch& o) : v(o.v) { ++touched; }
  Watch(Watch&& o) : v(o.v) { o.v = -9; ++touched; }
  Watch& operator=(const Watch& o) { v = o.v; ++touched; return *this; }
};
// the full set of operators; non-const overloads give wrong answers
struct Trap : Watch {
  using Watch::Watch;
  friend bool operator==(const Trap& a, const Trap& b) { return a.v == b.v; }
  friend bool operator!=(const Trap& a, const Trap& b) { return a.v != b.v; }
  friend bool operator<(const Trap& a, const Trap& b) { return a.v < b.v; }
  friend bool operator>(const Trap& a, const Trap& b) { return a.v > b.v; }
  friend bool operator<=(const Trap& a, const Trap& b) { return a.v <= b.v; }
  friend bool operator>=(const Trap& a, const Trap& b) { return a.v >= b.v; }
  friend bool operator==(Trap& a, Trap& b) { a.v = 50; b.v = 60; ++touched; return a.v == b.v; }
  friend bool operator<(Trap& a, Trap& b) { a.v = 50; b.v = 60; ++touched; return a.v > b.v; }
};
struct EqOnly : Watch {
  using Watch::Watch;
  friend bool operator==(const EqOnly& a, const EqOnly& b) { return a.v == b.v; }
};
struct LtOnly : Watch {
  using Watch::Watch;
  friend bool operator<(const LtOnly& a, const LtOnly& b) { return a.v < b.v; }
};
struct LtEq : Watch {  // < and == only
  using Watch::Watch;
  friend bool operator==(const LtEq& a, const LtEq& b) { return a.v == b.v; }
  friend bool operator<(const LtEq& a, const LtEq& b) { return a.v < b.v; }
};
#if VT_V == 20
#include <compare>
struct Weak : Watch {
  using Watch::Watch;
  friend bool operator==(const Weak& a, const Weak& b) { return a.v / 10 == b.v / 10; }
  friend std::weak_ordering operator<=>(const Weak& a, const Weak& b) { return a.v / 10 <=> b.v / 10; }
};
struct Part : Watch {
  using Watch::Watch;
  friend bool operator==(const Part& a, const Part& b) { return a.v != 100 && a.v == b.v; }
  friend std::partial_ordering operator<=>(const Part& a, const Part& b) {
    if (a.v == 100 || b.v == 100) return std::partial_ordering::unordered;
    return a.v <=> b.v;
  }
};
// <=> disagrees with < so that a three-way result is really the type's own
struct Three : Watch {
  using Watch::Watch;
  friend bool operator==(const Three& a, const Three& b) { return a.v == b.v; }
  friend std::strong_ordering operator<=>(const Three& a, const Three& b) { return a.v <=> b.v; }
};
#endif
// ---- the values of every leaf family, with their rank
template <class X> struct Leaf;
template <class X> using Vals = std::vector<std::pair<X, int>>;
template <> struct Leaf<int> { static const char* n() { return "int"; } static void fill(Vals<int>& v) { v = {{1, 2}, {2, 4}, {-3, -6}}; } };
template <> struct Leaf<long> { static const char* n() { return "long"; } static void fill(Vals<long>& v) { v = {{1, 2}, {2, 4}, {5000000000L, 99}}; } };
template <> struct Leaf<double> {
  static const char* n() { return "double"; }
  static void fill(Vals<double>& v) {
    v = {{1.5, 3}, {2.0, 4}, {0.0, 0}, {-0.0, 0}, {std::numeric_limits<double>::quiet_NaN(), 100}, {std::numeric_limits<double>::infinity(), 98}, {-std::numeric_limits<double>::infinity(), -98}};
  }
};
template <> struct Leaf<std::string> { static const char* n() { return "string"; } static void fill(Vals<std::string>& v) { v = {{"", 0}, {"a", 2}, {"ab", 3}, {"b", 4}}; } };
template <> struct Leaf<const char*> { static const char* n() { return "cstr"; } static void fill(Vals<const char*>& v) { v = {{"", 0}, {"a", 2}, {"ab", 3}, {"b", 4}}; } };
#define WATCHED(T, name) template <> struct Leaf<T> { static const char* n() { return name; } static void fill(Vals<T>& v) { for (int i : {1, 2, 3}) v.emplace_back(T(i), i); } };
WATCHED(Trap, "trap") WATCHED(EqOnly, "eqonly") WATCHED(LtOnly, "ltonly") WATCHED(LtEq, "lteq")
#if VT_V == 20
WATCHED(Three, "three")
template <> struct Leaf<Weak> { static const char* n() { return "weak"; } static void fill(Vals<Weak>& v) { for (int i : {11, 12, 21}) v.emplace_back(Weak(i), i / 10); } };
template <> struct Leaf<Part> { static const char* n() { return "part"; } static void fill(Vals<Part>& v) { for (int i : {1, 2, 100}) v.emplace_back(Part(i), i); } };
#endif
// ---- pools of operands
template <class X>
struct Item {
  std::unique_ptr<X> x;
  std::string js;
};
template <class X>
using Pool = std::deque<Item<X>>;
template <class X>
struct Make {
  static constexpr int depth = 0;
  static const char* n() { return Leaf<X>::n(); }
  static void fill(Pool<X>& p) {
    Vals<X> v;
    Leaf<X>::fill(v);
    for (auto& e : v) p.push_back(Item<X>{std::unique_ptr<X>(new X(e.first)), std::to_string(e.second)});
  }
};
template <class T, class A>
struct Make<xyz::indirect<T, A>> {
  using X = xyz::indirect<T, A>;
  static constexpr int depth = 1 + Make<T>::depth;
  static const char* n() { return Make<T>::n(); }
  static void fill(Pool<X>& p) {
    Pool<T> in;
    Make<T>::fill(in);
    for (auto& e : in) p.push_back(Item<X>{std::unique_ptr<X>(new X(VT_INPLACE, std::move(*e.x))), "[" + e.js + "]"});
    for (int i = 0; i < 2; ++i) {
      Pool<T> q;
      Make<T>::fill(q);
      p.push_back(Item<X>{std::unique_ptr<X>(new X(VT_INPLACE, std::move(*q[0].x))), "[]"});
      X gone(std::move(*p.back().x));
    }
  }
};
enum { EQ = 1, NE = 2, LT = 4, GT = 8, LE = 16, GE = 32, TW = 64, ALL = 63 };
template <int M, int B> using Has = std::integral_constant<bool, (M & B) != 0>;
#define BINOP(N, O)                                                             \
  struct N {                                                                    \
    static const char* n() { return #O; }                                       \
    template <class X, class Y> static bool run(const X& a, const Y& b) { return a O b; }        \
    template <class X, class Y> static bool runm(X& a, Y& b) { return a O b; }                   \
    template <class X, class Y> static bool runr(X& a, Y& b) { return static_cast<X&&>(a) O static_cast<Y&&>(b); } \
  };
BINOP(Eq, ==) BINOP(Ne, !=) BINOP(Lt, <) BINOP(Gt, >) BINOP(Le, <=) BINOP(Ge, >=)
template <class Op, class X, class Y>
void put(Pool<X>& ps, Pool<Y>& qs, std::false_type) {}
template <class Op, class X, class Y>
void put(Pool<X>& ps, Pool<Y>& qs, std::true_type) {
  for (auto& a : ps)
    for (auto& b : qs) {
      touched = 0;
      bool r = Op::run(*a.x, *b.x);
      bool rm = Op::runm(*a.x, *b.x), rr = Op::runr(*a.x, *b.x);
      long t = touched;
      bool again = Op::run(*a.x, *b.x);  // still the same operands
      Fact("cmp").t("ta", Make<X>::n()).t("tb", Make<Y>::n()).i("da", Make<X>::depth).i("db", Make<Y>::depth).raw("a", a.js).raw("b", b.js)
          .t("op", Op::n()).b("res", r).b("stable", r == rm && r == rr && r == again).i("touched", t);
    }
}
#if VT_V == 20
template <class O> const char* cat() {
  return std::is_same_v<O, std::strong_ordering> ? "strong" : std::is_same_v<O, std::weak_ordering> ? "weak" : std::is_same_v<O, std::partial_ordering> ? "partial" : "?";
}
template <class X, class Y>
void put3(Pool<X>& ps, Pool<Y>& qs, std::true_type) {
  for (auto& a : ps)
    for (auto& b : qs) {
      touched = 0;
      const X& x = *a.x;
      const Y& y = *b.x;
      auto o = x <=> y;
      long t = touched;
      Fact("cmp3").t("ta", Make<X>::n()).t("tb", Make<Y>::n()).i("da", Make<X>::depth).i("db", Make<Y>::depth).raw("a", a.js).raw("b", b.js)
          .t("res", o < 0 ? "lt" : o == 0 ? "eq" : o > 0 ? "gt" : "un").t("cat", cat<decltype(o)>()).i("touched", t);
    }
}
#endif
template <class X, class Y>
void put3(Pool<X>&, Pool<Y>&, std::false_type) {}
template <int M, class X, class Y>
void pairs_in(Pool<X>& ps, Pool<Y>& qs) {
  put<Eq>(ps, qs, Has<M, EQ>());
  put<Ne>(ps, qs, Has<M, NE>());
  put<Lt>(ps, qs, Has<M, LT>());
  put<Gt>(ps, qs, Has<M, GT>());
  put<Le>(ps, qs, Has<M, LE>());
  put<Ge>(ps, qs, Has<M, GE>());
  put3(ps, qs, std::integral_constant<bool, VT_V == 20 && (M & TW)>());
}
template <int M, class X>
void same() {  // operands may be one and the same object
  Pool<X> p;
  Make<X>::fill(p);
  pairs_in<M>(p, p);
}
template <int M, class X, class Y>
void mixed() {
  Pool<X> p;
  Make<X>::fill(p);
  Pool<Y> q;
  Make<Y>::fill(q);
  pairs_in<M>(p, q);
  pairs_in<M>(q, p);
}
template <class T> using I = xyz::indirect<T>;
template <class T> using C = xyz::indirect<T, CountAl<T>>;
int main() {
  constexpr int A = ALL | TW;
  same<A, I<int>>();
  same<A, I<double>>();
  same<A, I<std::string>>();
  same<A, C<int>>();
  same<A, C<Trap>>();
  mixed<A, C<int>, I<int>>();
  mixed<A, C<int>, I<long>>();
  mixed<A, I<int>, I<double>>();
  mixed<A, I<std::string>, C<std::string>>();
  mixed<A, I<int>, int>();
  mixed<A, I<int>, long>();
  mixed<A, C<int>, double>();
  mixed<A, I<double>, double>();
  mixed<A, I<double>, int>();
  mixed<A, I<std::string>, std::string>();
  mixed<A, I<std::string>, const char*>();
  mixed<A, C<Trap>, Trap>();
  same<A, I<I<int>>>();
  same<A, C<I<double>>>();
  mixed<A, I<I<int>>, C<C<int>>>();
  mixed<A, I<I<int>>, I<int>>();
  mixed<A, I<I<double>>, double>();
  mixed<A, I<I<int>>, int>();
  // types with only some operators
  same<EQ, I<EqOnly>>();
  mixed<EQ, I<EqOnly>, EqOnly>();
  same<LT, I<LtOnly>>();
  mixed<LT, I<LtOnly>, LtOnly>();
  same<EQ | LT, C<LtEq>>();
#if VT_V == 20
  same<EQ | NE, I<EqOnly>>();
  mixed<EQ | NE, C<EqOnly>, EqOnly>();
  same<LT | GT | LE | GE | TW, C<LtOnly>>();
  mixed<LT | GT | LE | GE | TW, I<LtOnly>, LtOnly>();
  same<A, I<LtEq>>();
  mixed<A, I<LtEq>, C<LtEq>>();
  mixed<A, C<LtEq>, LtEq>();
  same<A, C<Weak>>();
  mixed<A, I<Weak>, Weak>();
  same<A, C<Part>>();
  mixed<A, I<Part>, Part>();
  same<A, C<Three>>();
  mixed<A, I<Three>, Three>();
#endif
}
