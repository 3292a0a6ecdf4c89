// C21: owners of types that are incomplete where the owner is named.  -DVT_KIND=1|2
#include "own.h"
#include "facts.h"
#include <array>
#include <list>
#include <map>
#include <tuple>
#include <vector>
#if __cplusplus >= 201703L
#include <optional>
#include <variant>
#endif
using namespace vt;
#if VT_KIND == 1
template <class T>
using O = xyz::indirect<T>;
#else
template <class T>
using O = xyz::polymorphic<T>;
#endif
static void put(const char* form, int got) { Fact("decl").i("kind", VT_KIND).t("form", form).i("got", got); }
// what is asked of a type while what it owns is incomplete
template <class X>
struct Asked {
  static constexpr int bits = sizeof(X) >= sizeof(void*) && std::is_copy_constructible<X>::value && std::is_move_constructible<X>::value && std::is_copy_assignable<X>::value &&
                              std::is_move_assignable<X>::value && std::is_destructible<X>::value && std::is_nothrow_move_constructible<X>::value;
};
template <class H>
int total(H& a) {  // copies are deep, moves hand over, assignment replaces
  H b(a);
  b.read() += 100;
  if (a.read() + 100 != b.read()) return -1;
  H c(std::move(b));
  if (a.read() + 100 != c.read()) return -2;
  a = c;
  if (a.read() != c.read()) return -3;
  a.read() += 1;
  if (a.read() != c.read() + 1) return -4;
  c = std::move(a);
  return c.read();
}

// everything implicit
struct N1;
struct H1 { O<N1> o; int& read(); };
static_assert(Asked<O<N1>>::bits, "");
struct N1 { int v = 3; virtual ~N1() = default; };
int& H1::read() { return o->v; }
// constructor and destructor elsewhere
struct N2;
struct H2 { O<N2> o; H2(); H2(const H2&); H2(H2&&) noexcept; H2& operator=(const H2&); H2& operator=(H2&&) noexcept; ~H2(); int& read(); };
struct N2 { int v = 3; virtual ~N2() = default; };
H2::H2() : o() {}
H2::H2(const H2&) = default;
H2::H2(H2&&) noexcept = default;
H2& H2::operator=(const H2&) = default;
H2& H2::operator=(H2&&) noexcept = default;
H2::~H2() = default;
int& H2::read() { return o->v; }
// one of them declared
#define ONE(K, DECLS, DEFS)                                  \
  struct N##K;                                               \
  struct H##K { O<N##K> o; H##K(); DECLS int& read(); };     \
  struct N##K { int v = 3; virtual ~N##K() = default; };     \
  H##K::H##K() : o() {}                                      \
  DEFS int& H##K::read() { return o->v; }
ONE(3, H3(const H3&); H3& operator=(const H3&) = default;, H3::H3(const H3&) = default;)
ONE(4, H4(const H4&) = default; H4& operator=(const H4&);, H4& H4::operator=(const H4&) = default;)
ONE(5, H5(const H5&) = default; H5(H5&&); H5& operator=(const H5&) = default; H5& operator=(H5&&) = default;, H5::H5(H5&&) = default;)
ONE(6, H6(const H6&) = default; H6(H6&&) = default; H6& operator=(const H6&) = default; H6& operator=(H6&&);, H6& H6::operator=(H6&&) = default;)
ONE(7, ~H7();, H7::~H7() = default;)
ONE(8, H8(const H8&);, H8::H8(const H8&) = default;)
ONE(9, H9(const H9&) = default; H9& operator=(const H9&) = default; H9(H9&&) noexcept = default; H9& operator=(H9&&) noexcept = default; ~H9() = default;, )
// a base class
struct N10;
struct H10 : O<N10> { H10(); int& read(); };
struct N10 { int v = 3; virtual ~N10() = default; };
H10::H10() {}
int& H10::read() { return (**this).v; }
// a parameter, a result, a template argument, a reference
struct N11;
O<N11> through(O<N11>);
struct H11 { O<N11> o; H11(); H11(const O<N11>& x); O<N11>& get() { return o; } const O<N11>& get() const { return o; } int& read(); };
template <class T>
struct Box { T x; O<T>* p = nullptr; };
struct N11 { int v = 3; virtual ~N11() = default; };
O<N11> through(O<N11> x) { return x; }
H11::H11() : o(through(O<N11>())) {}
H11::H11(const O<N11>& x) : o(x) {}
int& H11::read() { return get()->v; }
// two classes that own each other
struct B12;
struct A12 { int v = 3; std::vector<O<B12>> bs; virtual ~A12() = default; };
struct B12 { O<A12> a; int w = 4; virtual ~B12() = default; };
struct H12 { O<A12> o; H12() { o->bs.emplace_back(); o->bs.emplace_back(); o->bs[1]->a->v = 7; } int& read() { return o->bs[1]->a->v; } };
// through containers
struct N13 { int v = 3; std::vector<O<N13>> kids; virtual ~N13() = default; };
struct H13 { O<N13> o; H13() { o->kids.emplace_back(); o->kids[0]->kids.emplace_back(); } int& read() { return o->kids[0]->kids[0]->v; } };
struct N14 { int v = 3; std::map<int, O<N14>> kids; virtual ~N14() = default; };
struct H14 { O<N14> o; H14() { o->kids.emplace(1, O<N14>()); } int& read() { return o->kids.at(1)->v; } };
struct N15 { int v = 3; std::list<O<N15>> kids; virtual ~N15() = default; };
struct H15 { O<N15> o; H15() { o->kids.emplace_back(); } int& read() { return o->kids.front()->v; } };
// in aggregates of the library
struct N16;
struct H16 { std::array<O<N16>, 2> o; H16(); int& read(); };
struct N16 { int v = 3; virtual ~N16() = default; };
H16::H16() : o() {}
int& H16::read() { return o[1]->v; }
// a class with a constructor from anything
struct N17;
struct H17 { O<N17> o; H17(); template <class X, class = typename std::enable_if<!std::is_same<typename std::decay<X>::type, H17>::value>::type> H17(X&&); ~H17(); H17(const H17&); H17& operator=(const H17&); int& read(); };
struct N17 { int v = 3; virtual ~N17() = default; };
H17::H17() : o() {}
template <class X, class>
H17::H17(X&&) : H17() {}
H17::H17(const H17&) = default;
H17& H17::operator=(const H17&) = default;
H17::~H17() = default;
int& H17::read() { return o->v; }
// private implementation with a forward declared nested class
struct H18 { H18(); int& read(); private: struct Impl; O<Impl> o; };
struct H18::Impl { int v = 3; virtual ~Impl() = default; };
H18::H18() : o() {}
int& H18::read() { return o->v; }
// a template that owns itself
template <class T>
struct N19 { T v = 3; std::vector<O<N19<T>>> next; virtual ~N19() = default; };
struct H19 { O<N19<int>> o; H19() { o->next.emplace_back(); } int& read() { return o->next[0]->v; } };
#if __cplusplus >= 201703L
struct N20;
struct H20 { std::tuple<O<N20>, int> o; H20(); H20(const H20&); H20(H20&&); H20& operator=(const H20&); H20& operator=(H20&&); ~H20(); int& read(); };
struct N20 { int v = 3; virtual ~N20() = default; };
H20::H20() : o() {}
H20::H20(const H20&) = default; H20::H20(H20&&) = default; H20& H20::operator=(const H20&) = default; H20& H20::operator=(H20&&) = default; H20::~H20() = default;
int& H20::read() { return std::get<0>(o)->v; }
#endif

template <class H>
void run(const char* form) {
  H h;
  put(form, total(h));
}
int main() {
  run<H1>("implicit"); run<H2>("all elsewhere"); run<H3>("copy constructor elsewhere"); run<H4>("copy assignment elsewhere");
  run<H5>("move constructor elsewhere"); run<H6>("move assignment elsewhere"); run<H7>("destructor elsewhere"); run<H8>("copy constructor alone");
  run<H9>("all defaulted"); run<H10>("base class"); run<H11>("signatures"); run<H12>("mutual"); run<H13>("vector"); run<H14>("map");
  run<H15>("list"); run<H16>("array"); run<H17>("greedy constructor"); run<H18>("private implementation"); run<H19>("template");
#if __cplusplus >= 201703L
  run<H20>("tuple");
#endif
}
