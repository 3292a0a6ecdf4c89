// Shared by all units of a program (C25): elements, allocators, recording.  Included after the library's headers.
#ifndef VT_UNITS_H
#define VT_UNITS_H
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <new>
#include <type_traits>
#include <utility>
#include <vector>
namespace u {
extern long live, wrong;  // elements and blocks alive; blocks given back to the wrong allocator
struct E {
  int v;
  explicit E(int x = 0) : v(x) { ++live; }
  E(const E& o) : v(o.v) { ++live; }
  E(E&& o) : v(o.v) { ++live; }
  E& operator=(const E&) = default;
  virtual ~E() { --live; }
  virtual int who() const { return v; }
};
struct D : E {
  double pad[3];
  explicit D(int x = 0) : E(x), pad{1, 2, 3} {}
  int who() const override { return v + (pad[2] == 3 ? 0 : 1000); }
};
// empty: 0 trivial; 1 without a default constructor; 2 with copy operations of its own; 3 not always equal; 4 with a virtual-free base class
struct Base {};
template <int N> struct Part {};
template <> struct Part<1> { explicit Part(int) {} };
template <> struct Part<2> { Part() {} Part(const Part&) {} Part& operator=(const Part&) { return *this; } };
template <> struct Part<4> : Base {};
template <class T, int N>
struct Al : Part<N> {
  using value_type = T;
  using is_always_equal = std::integral_constant<bool, N != 3>;
  template <class U> struct rebind { using other = Al<U, N>; };
  Al() = default;
  explicit Al(int n) : Part<N>(make(n, std::is_constructible<Part<N>, int>())) {}
  static Part<N> make(int n, std::true_type) { return Part<N>(n); }
  static Part<N> make(int, std::false_type) { return Part<N>(); }
  template <class U> Al(const Al<U, N>&) : Al(1) {}
  T* allocate(std::size_t n) { ++live; return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, std::size_t) { --live; ::operator delete(p); }
  friend bool operator==(const Al&, const Al&) { return true; }
  friend bool operator!=(const Al&, const Al&) { return false; }
};
template <class T>
struct Fin final {  // empty, but no base class
  using value_type = T;
  template <class U> struct rebind { using other = Fin<U>; };
  Fin() = default;
  template <class U> Fin(const Fin<U>&) {}
  T* allocate(std::size_t n) { ++live; return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, std::size_t) { --live; ::operator delete(p); }
  friend bool operator==(const Fin&, const Fin&) { return true; }
  friend bool operator!=(const Fin&, const Fin&) { return false; }
};
template <class T>
struct Fat {
  using value_type = T;
  using propagate_on_container_move_assignment = std::true_type;
  template <class U> struct rebind { using other = Fat<U>; };
  long id = 0, same = 0;
  Fat(long n = 0) : id(n), same(n) {}
  template <class U> Fat(const Fat<U>& o) : id(o.id), same(o.same) {}
  T* allocate(std::size_t n) {
    ++live;
    long* p = static_cast<long*>(::operator new(n * sizeof(T) + 64));
    *p = id;
    return reinterpret_cast<T*>(reinterpret_cast<char*>(p) + 64);
  }
  void deallocate(T* q, std::size_t) {
    --live;
    long* p = reinterpret_cast<long*>(reinterpret_cast<char*>(q) - 64);
    if (*p != id || id != same) ++wrong;
    ::operator delete(p);
  }
  friend bool operator==(const Fat& a, const Fat& b) { return a.id == b.id; }
  friend bool operator!=(const Fat& a, const Fat& b) { return a.id != b.id; }
};
enum { KINDS = 18, ROOM = 128 };
struct Unit {
  const char* name;
  int std;
  void (*facts)();
  // per owner type: make one holding v at p; check, copy, move and destroy the one at p
  void (*give[KINDS])(void* p, int v);
  void (*take[KINDS])(void* p, int* got, int* copy, bool* uid);
};
extern std::vector<Unit>* units;
inline void add(const Unit& x) {
  if (!units) units = new std::vector<Unit>;
  units->push_back(x);
}
}  // namespace u
#endif
