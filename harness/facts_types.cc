// C22 (and C13, C14): what type queries answer about owners.  -DVT_KIND=1|2
// Every record names the query and what is true of the element and the allocator; spec/VTFacts.tla has the answers.
#include "own.h"
#include "facts.h"
#include <functional>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#if __cplusplus >= 202002L
#include <compare>
#include <concepts>
#endif
using namespace vt;
template <class T>
struct Stateful {  // stateful, not default constructible
  using value_type = T;
  int id;
  explicit Stateful(int i) : id(i) {}
  template <class U>
  Stateful(const Stateful<U>& o) : id(o.id) {}
  T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); }
  void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
  friend bool operator==(const Stateful& a, const Stateful& b) { return a.id == b.id; }
  friend bool operator!=(const Stateful& a, const Stateful& b) { return a.id != b.id; }
};
template <class T>
struct Two {  // stateful, default constructible, two pointers wide
  using value_type = T;
  void *a = nullptr, *b = nullptr;
  Two() = default;
  template <class U>
  Two(const Two<U>&) {}
  T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); }
  void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
  friend bool operator==(const Two& x, const Two& y) { return x.a == y.a; }
  friend bool operator!=(const Two& x, const Two& y) { return x.a != y.a; }
};
template <class T>
struct None {  // empty
  using value_type = T;
  None() = default;
  template <class U>
  None(const None<U>&) {}
  T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); }
  void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
  friend bool operator==(const None&, const None&) { return true; }
  friend bool operator!=(const None&, const None&) { return false; }
};
struct Plain { int v = 1; virtual ~Plain() = default; };               // neither compared nor hashed
struct PlainD : Plain {};
struct MoveOnly { MoveOnly() = default; MoveOnly(MoveOnly&&) = default; virtual ~MoveOnly() = default; };
struct NoDefault { explicit NoDefault(int) {} virtual ~NoDefault() = default; };
struct NoAssign { const int v = 1; virtual ~NoAssign() = default; };
struct Hashed { int v = 1; virtual ~Hashed() = default; friend bool operator==(const Hashed& a, const Hashed& b) { return a.v == b.v; } friend bool operator!=(const Hashed& a, const Hashed& b) { return a.v != b.v; } };
struct BadHash { int v = 1; virtual ~BadHash() = default; };            // std::hash specialised and disabled
struct Abstract { virtual ~Abstract() = default; virtual int f() const = 0; };
struct Inc;
#if __cplusplus >= 202002L
struct Weak { int v = 1; friend std::weak_ordering operator<=>(const Weak& a, const Weak& b) { return a.v <=> b.v; } friend bool operator==(const Weak& a, const Weak& b) { return a.v == b.v; } };
struct OnlyLess { int v = 1; friend bool operator<(const OnlyLess& a, const OnlyLess& b) { return a.v < b.v; } friend bool operator==(const OnlyLess& a, const OnlyLess& b) { return a.v == b.v; } };
#endif
namespace std {
template <>
struct hash<Hashed> {
  std::size_t operator()(const Hashed& h) const { return static_cast<std::size_t>(h.v) * 31; }
};
template <>
struct hash<BadHash> {
  hash() = delete;
  std::size_t operator()(const BadHash&) const = delete;
};
}  // namespace std

#if VT_KIND == 1
template <class T, class A>
using O = xyz::indirect<T, A>;
#else
template <class T, class A>
using O = xyz::polymorphic<T, A>;
#endif
template <class X, class = void> struct HashOn : std::false_type {};
template <class X> struct HashOn<X, decltype(void(std::hash<X>{}(std::declval<const X&>())))> : std::true_type {};
template <class X, class Y, class = void> struct EqOn : std::false_type {};
template <class X, class Y> struct EqOn<X, Y, decltype(void(std::declval<const X&>() == std::declval<const Y&>()))> : std::true_type {};
template <class X, class Y, class = void> struct LtOn : std::false_type {};
template <class X, class Y> struct LtOn<X, Y, decltype(void(std::declval<const X&>() < std::declval<const Y&>()))> : std::true_type {};

struct Tr {
  const char *el, *al;
  bool adef, aempty, hashed, eq, ord;
  void q(const char* name, bool val) const {
    Fact("trait").i("kind", VT_KIND).t("el", el).t("al", al).b("adef", adef).b("aempty", aempty).b("hashed", hashed).b("eq", eq).b("ord", ord).t("q", name).b("val", val);
  }
};
template <class T, class A>
void both(const char* el, const char* al) {
  using X = O<T, A>;
  using AT = std::allocator_traits<A>;
  Tr t{el, al, std::is_default_constructible<A>::value, std::is_empty<A>::value, HashOn<T>::value, EqOn<T, T>::value, LtOn<T, T>::value};
  t.q("value_type", std::is_same<typename X::value_type, T>::value);
  t.q("allocator_type", std::is_same<typename X::allocator_type, A>::value);
  t.q("pointer", std::is_same<typename X::pointer, typename AT::pointer>::value);
  t.q("const_pointer", std::is_same<typename X::const_pointer, typename AT::const_pointer>::value);
  if (std::is_default_constructible<T>::value && std::is_copy_constructible<T>::value) {
    t.q("default_constructible", std::is_default_constructible<X>::value);
    t.q("extended_default", std::is_constructible<X, std::allocator_arg_t, const A&>::value);
  }
  t.q("copy_constructible", std::is_copy_constructible<X>::value);
  t.q("move_constructible", std::is_move_constructible<X>::value);
  t.q("copy_assignable", std::is_copy_assignable<X>::value);
  t.q("move_assignable", std::is_move_assignable<X>::value);
  t.q("destructible", std::is_nothrow_destructible<X>::value);
  t.q("extended_copy", std::is_constructible<X, std::allocator_arg_t, const A&, const X&>::value);
  t.q("extended_move", std::is_constructible<X, std::allocator_arg_t, const A&, X>::value);
  t.q("uses_allocator", std::uses_allocator<X, A>::value);
  if (!std::is_constructible<T, const A&>::value) t.q("from_allocator_alone", std::is_constructible<X, const A&>::value);
  if (!std::is_constructible<T, std::nullptr_t>::value) t.q("from_null", std::is_constructible<X, std::nullptr_t>::value || std::is_assignable<X&, std::nullptr_t>::value);
  if (!std::is_constructible<T, T*>::value) t.q("from_pointer", std::is_constructible<X, T*>::value || std::is_assignable<X&, T*>::value);
  t.q("to_bool", std::is_constructible<bool, X>::value);
  t.q("to_element", std::is_convertible<X, T*>::value || std::is_convertible<X&, const T&>::value);
  t.q("trivially_copyable", std::is_trivially_copyable<X>::value);
  t.q("trivially_destructible", std::is_trivially_destructible<X>::value);
  t.q("hash_enabled", HashOn<X>::value);
  t.q("hash_default_constructible", std::is_default_constructible<std::hash<X>>::value);
  t.q("one_pointer_and_the_allocator", sizeof(X) == sizeof(typename AT::pointer) + (std::is_empty<A>::value ? 0 : (sizeof(A) + sizeof(void*) - 1) / sizeof(void*) * sizeof(void*)));
  t.q("swap_member", std::is_same<decltype(std::declval<X&>().swap(std::declval<X&>())), void>::value);
  t.q("get_allocator", std::is_same<decltype(std::declval<const X&>().get_allocator()), A>::value);
  t.q("valueless", std::is_same<decltype(std::declval<const X&>().valueless_after_move()), bool>::value);
  t.q("owner_of_owner", std::is_copy_constructible<O<X, typename AT::template rebind_alloc<X>>>::value);
#if VT_KIND == 1
  t.q("is_indirect",
#if VT_V == 20
      xyz::is_indirect_v<X> && !xyz::is_indirect_v<T>
#else
      xyz::is_indirect<X>::value && !xyz::is_indirect<T>::value
#endif
  );
#else
  t.q("compared", EqOn<X, X>::value || LtOn<X, X>::value || EqOn<X, T>::value);
#endif
#if __cplusplus >= 202002L
  t.q("copyable", std::copyable<X>);
  t.q("swappable", std::swappable<X>);
#endif
}
template <class T>
void all(const char* el) {
  both<T, std::allocator<T>>(el, "std");
  both<T, Stateful<T>>(el, "stateful");
  both<T, Two<T>>(el, "two");
  both<T, None<T>>(el, "empty");
}
#if VT_KIND == 1 && VT_V == 20
// comparability: the owner's category is the element's, and no comparison appears that the element lacks
template <class T, bool HAS = true>
void cmp(const char* el, int cat) {  // 0 none, 1 partial, 2 weak (also for operator< alone), 3 strong
  using X = O<T, std::allocator<T>>;
  int got = 0, gotv = cat;  // the second: against a plain element
  if constexpr (std::three_way_comparable<X>) got = std::same_as<std::compare_three_way_result_t<X>, std::strong_ordering> ? 3 : std::same_as<std::compare_three_way_result_t<X>, std::weak_ordering> ? 2 : 1;
  if constexpr (HAS) gotv = std::same_as<decltype(std::declval<const X&>() <=> std::declval<const T&>()), std::strong_ordering> ? 3 : std::same_as<decltype(std::declval<const X&>() <=> std::declval<const T&>()), std::weak_ordering> ? 2 : 1;
  Fact("category").i("kind", 1).t("el", el).i("cat", cat).i("got", got).i("gotv", gotv);
}
#endif
int main() {
#if VT_KIND == 1
  all<int>("int"); all<std::string>("string"); all<std::vector<int>>("vector"); all<double>("double"); all<int*>("pointer"); all<std::unique_ptr<int>>("unique_ptr");
#endif
  all<Plain>("Plain"); all<MoveOnly>("MoveOnly"); all<NoDefault>("NoDefault"); all<NoAssign>("NoAssign"); all<Hashed>("Hashed"); all<BadHash>("BadHash"); all<Abstract>("Abstract");
#if VT_KIND == 1 && VT_V == 20
  cmp<int>("int", 3); cmp<double>("double", 1); cmp<std::string>("string", 3); cmp<Weak>("weak", 2); cmp<OnlyLess>("less", 2); cmp<Plain, false>("none", 0); cmp<std::vector<double>>("vector<double>", 1);
  cmp<O<int, std::allocator<int>>, false>("indirect<int>", 3); cmp<O<double, std::allocator<double>>, false>("indirect<double>", 1); cmp<O<Weak, std::allocator<Weak>>, false>("indirect<weak>", 2);
#endif
  {
#if VT_KIND == 1
    Tr t{"two elements", "std", true, true, true, true, true};
    t.q("across", std::is_constructible<O<long, std::allocator<long>>, O<int, std::allocator<int>>>::value || std::is_assignable<O<long, std::allocator<long>>&, O<int, std::allocator<int>>>::value);
    t.q("across", std::is_constructible<O<int, None<int>>, O<int, std::allocator<int>>>::value || std::is_constructible<O<int, std::allocator<int>>, std::allocator_arg_t, std::allocator<int>, O<int, None<int>>>::value);
#else
    Tr t{"two elements", "std", true, true, false, false, false};
    t.q("across", std::is_constructible<O<Plain, std::allocator<Plain>>, O<PlainD, std::allocator<PlainD>>>::value || std::is_assignable<O<Plain, std::allocator<Plain>>&, O<PlainD, std::allocator<PlainD>>>::value);
    t.q("across", std::is_constructible<O<Plain, None<Plain>>, O<Plain, std::allocator<Plain>>>::value || std::is_assignable<O<Plain, std::allocator<Plain>>&, PlainD>::value);
#endif
  }
}
