// Element types and allocators of many kinds for flav.cc.
#ifndef VT_FLAV_H
#define VT_FLAV_H
#include "runner.h"
#include "history.h"
namespace vt {

// ------------------------------------------------------------- allocators
// no construct or destroy member
template <class T, class C>
struct AlPlain : AlBase<C::assignable, C::pocs> {
  using Base = AlBase<C::assignable, C::pocs>;
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, C::pocca>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, C::pocma>;
  using propagate_on_container_swap = std::integral_constant<bool, C::pocs>;
  using is_always_equal = std::integral_constant<bool, C::ae>;
  template <class U>
  struct rebind {
    using other = AlPlain<U, C>;
  };
  AlPlain() noexcept : Base(0) {}
  explicit AlPlain(unsigned u, int) noexcept : Base(u) {}
  AlPlain(const AlPlain&) noexcept = default;
  AlPlain& operator=(const AlPlain&) noexcept = default;
  template <class U>
  AlPlain(const AlPlain<U, C>& o) noexcept : Base(o.uid) {}
  int tag() const { return C::ae ? 0 : (this->uid == 2 ? 1 : 0); }
  T* allocate(std::size_t n) { return static_cast<T*>(W().allocate(n * sizeof(T), alignof(T), tag())); }
  void deallocate(T* p, std::size_t n) { W().deallocate(p, n * sizeof(T), tag()); }
  AlPlain select_on_container_copy_construction() const { return C::sel ? AlPlain() : *this; }
  friend bool operator==(const AlPlain& a, const AlPlain& b) noexcept { return a.tag() == b.tag(); }
  friend bool operator!=(const AlPlain& a, const AlPlain& b) noexcept { return a.tag() != b.tag(); }
};

// empty allocators, ordinary and final
#define VT_EMPTY_AL(NAME, FINAL)                                                                         \
  template <class T>                                                                                     \
  struct NAME FINAL {                                                                                    \
    using value_type = T;                                                                                \
    NAME() noexcept {}                                                                                   \
    template <class U>                                                                                   \
    NAME(const NAME<U>&) noexcept {}                                                                     \
    T* allocate(std::size_t n) { return static_cast<T*>(W().allocate(n * sizeof(T), alignof(T), 0)); }   \
    void deallocate(T* p, std::size_t n) { W().deallocate(p, n * sizeof(T), 0); }                        \
    friend bool operator==(const NAME&, const NAME&) noexcept { return true; }                           \
    friend bool operator!=(const NAME&, const NAME&) noexcept { return false; }                          \
  };                                                                                                     \
  template <class T>                                                                                     \
  struct AlOps<NAME<T>> {                                                                                \
    static NAME<T> make(int) { return {}; }                                                              \
    static int uid(const NAME<T>&) { return 0; }                                                         \
  };
VT_EMPTY_AL(AlEmpty, )
VT_EMPTY_AL(AlFinal, final)
template <class T>
struct AlOps<std::allocator<T>> {
  static std::allocator<T> make(int) { return {}; }
  static int uid(const std::allocator<T>&) { return 0; }
};

#if VT_V == 20
// a pointer that is not T*
template <class T>
struct Fancy {
  using element_type = T;
  using value_type = std::remove_cv_t<T>;
  using pointer = Fancy;
  using reference = T&;
  using difference_type = std::ptrdiff_t;
  using iterator_category = std::random_access_iterator_tag;
  template <class U>
  using rebind = Fancy<U>;
  T* p = nullptr;
  constexpr Fancy() = default;
  constexpr Fancy(std::nullptr_t) {}
  explicit constexpr Fancy(T* q) : p(q) {}
  template <class U>
    requires std::convertible_to<U*, T*>
  constexpr Fancy(const Fancy<U>& o) : p(o.p) {}
  constexpr T& operator*() const { return *p; }
  constexpr T* operator->() const { return p; }
  explicit constexpr operator bool() const { return p != nullptr; }
  static constexpr Fancy pointer_to(T& r) { return Fancy(std::addressof(r)); }
  friend constexpr bool operator==(const Fancy&, const Fancy&) = default;
  friend constexpr bool operator==(const Fancy& a, std::nullptr_t) { return a.p == nullptr; }
};
template <class T, class C>
struct AlFancy : AlBase<C::assignable, C::pocs> {
  using Base = AlBase<C::assignable, C::pocs>;
  using value_type = T;
  using pointer = Fancy<T>;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, C::pocca>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, C::pocma>;
  using propagate_on_container_swap = std::integral_constant<bool, C::pocs>;
  using is_always_equal = std::integral_constant<bool, C::ae>;
  template <class U>
  struct rebind {
    using other = AlFancy<U, C>;
  };
  AlFancy() noexcept : Base(0) {}
  explicit AlFancy(unsigned u, int) noexcept : Base(u) {}
  AlFancy(const AlFancy&) noexcept = default;
  AlFancy& operator=(const AlFancy&) noexcept = default;
  template <class U>
  AlFancy(const AlFancy<U, C>& o) noexcept : Base(o.uid) {}
  int tag() const { return C::ae ? 0 : (this->uid == 2 ? 1 : 0); }
  pointer allocate(std::size_t n) { return pointer(static_cast<T*>(W().allocate(n * sizeof(T), alignof(T), tag()))); }
  void deallocate(pointer p, std::size_t n) { W().deallocate(p.p, n * sizeof(T), tag()); }
  AlFancy select_on_container_copy_construction() const { return C::sel ? AlFancy() : *this; }
  friend bool operator==(const AlFancy& a, const AlFancy& b) noexcept { return a.tag() == b.tag(); }
};
#endif

// --------------------------------------------------------------- elements
#if VT_KIND == 1
#define VT_FN ElNx
#define VT_FHEAD ElNx
#define VT_FMV 0
#define VT_FNX true
#define VT_FASSIGN 1
#define VT_FPAD
#define VT_FVIRT
#include "flav_elem.inc"
#define VT_FN ElNa
#define VT_FHEAD ElNa
#define VT_FMV 0
#define VT_FNX false
#define VT_FASSIGN 0
#define VT_FPAD const int never = 4;
#define VT_FVIRT
#include "flav_elem.inc"
#define VT_FN ElVa
#define VT_FHEAD ElVa
#define VT_FMV 1
#define VT_FNX false
#define VT_FASSIGN 2
#define VT_FPAD
#define VT_FVIRT
#include "flav_elem.inc"
#define VT_FN ElCo
#define VT_FHEAD ElCo final
#define VT_FMV 2
#define VT_FNX false
#define VT_FASSIGN 1
#define VT_FPAD
#define VT_FVIRT virtual
#include "flav_elem.inc"
#define VT_FN ElFin
#define VT_FHEAD ElFin final
#define VT_FMV 0
#define VT_FNX true
#define VT_FASSIGN 1
#define VT_FPAD
#define VT_FVIRT virtual
#include "flav_elem.inc"
#define VT_FN ElBig
#define VT_FHEAD alignas(64) ElBig
#define VT_FMV 1
#define VT_FNX true
#define VT_FASSIGN 1
#define VT_FPAD int more[61] = {};
#define VT_FVIRT
#include "flav_elem.inc"

struct Triv {
  int a = 1;
  char b = 'b';
  Triv() = default;
  Triv(long x) : a(static_cast<int>(x)) {}
  friend bool operator==(const Triv& x, const Triv& y) { return x.a == y.a && x.b == y.b; }
  friend bool operator!=(const Triv& x, const Triv& y) { return !(x == y); }
  friend bool operator<(const Triv& x, const Triv& y) { return x.a < y.a; }
  friend bool operator>(const Triv& x, const Triv& y) { return y < x; }
  friend bool operator<=(const Triv& x, const Triv& y) { return !(y < x); }
  friend bool operator>=(const Triv& x, const Triv& y) { return !(x < y); }
};
struct alignas(64) Wide {   // trivially copyable, large and over-aligned
  int a[40];
  Wide() { fill(1); }
  Wide(long x) { fill(static_cast<int>(x)); }
  void fill(int v) {
    for (int i = 0; i < 40; ++i) a[i] = v + i;
  }
  int read() const {
    for (int i = 0; i < 40; ++i)
      if (a[i] != a[0] + i) return -997;
    return a[0];
  }
  friend bool operator==(const Wide& x, const Wide& y) { return x.a[0] == y.a[0]; }
  friend bool operator!=(const Wide& x, const Wide& y) { return !(x == y); }
  friend bool operator<(const Wide& x, const Wide& y) { return x.a[0] < y.a[0]; }
  friend bool operator>(const Wide& x, const Wide& y) { return y < x; }
  friend bool operator<=(const Wide& x, const Wide& y) { return !(y < x); }
  friend bool operator>=(const Wide& x, const Wide& y) { return !(x < y); }
};
enum class Tiny : unsigned char {};

// what the harness must know of an element type T; args/conv: built and assigned from another type
template <class T>
struct ElOps {   // the instrumented ones
  using Conv = int;
  static constexpr bool silent = false, def = true, args = true, conv = true, ilist = true, copy_assign = true, cmp = true;
  static constexpr int mv = T::mv;
  static T make(int v) { return T(v); }
  static Conv conv_of(int v) { return v; }
  static int get(const T& t) { return t.w_; }
  static void set(T& t, int v) { t.w_ = v; }
};
template <class T>
struct ElOpsNa : ElOps<T> {};
struct SilentOps {
  static constexpr bool silent = true, def = true, args = true, conv = true, ilist = false, copy_assign = true, cmp = true;
  static constexpr int mv = 1;
};
template <>
struct ElOps<int> : SilentOps {
  using Conv = long;
  static int make(int v) { return v - 1; }
  static Conv conv_of(int v) { return v - 1; }
  static int get(const int& t) { return t + 1; }
  static void set(int& t, int v) { t = v - 1; }
};
template <>
struct ElOps<Triv> : SilentOps {
  using Conv = long;
  static Triv make(int v) { return Triv(long(v)); }
  static Conv conv_of(int v) { return v; }
  static int get(const Triv& t) { return t.b == 'b' ? t.a : -997; }
  static void set(Triv& t, int v) { t.a = v; }
};
template <>
struct ElOps<Wide> : SilentOps {
  using Conv = long;
  static Wide make(int v) { return Wide(long(v)); }
  static Conv conv_of(int v) { return v; }
  static int get(const Wide& t) { return t.read(); }
  static void set(Wide& t, int v) { t.fill(v); }
};
template <>
struct ElOps<Tiny> : SilentOps {
  using Conv = Tiny;
  static constexpr bool args = false, conv = false;
  static Tiny make(int v) { return static_cast<Tiny>(v - 1); }
  static Conv conv_of(int v) { return make(v); }
  static int get(const Tiny& t) { return static_cast<int>(t) + 1; }
  static void set(Tiny& t, int v) { t = make(v); }
};
template <>
struct ElOps<std::vector<int>> : SilentOps {
  using T = std::vector<int>;
  using Conv = std::initializer_list<int>;
  static constexpr bool def = false, args = false, conv = false, ilist = true;
  static constexpr int mv = 0;
  static T make(int v) { return T{v, 77}; }
  static T conv_of(int v) { return make(v); }
  static int get(const T& t) { return t.empty() ? MF : t.size() == 2 && t[1] == 77 ? t[0] : -997; }
  static void set(T& t, int v) { t = {v, 77}; }
};
template <>
struct ElOps<std::string> : SilentOps {
  using T = std::string;
  using Conv = const char*;
  static constexpr bool def = false;
  static constexpr int mv = 0;
  static const char* text(int v) {
    static const char* t[] = {"", "b", "c", "d and then some more than fits inside", "e", "f", "g", "h and then some more than fits inside", "i", "j"};
    return t[v];
  }
  static T make(int v) { return T(text(v)); }
  static Conv conv_of(int v) { return text(v); }
  static int get(const T& t) {
    for (int v = 0; v < 10; ++v)
      if (t == text(v)) return v;
    return -997;
  }
  static void set(T& t, int v) { t = text(v); }
};
#define VT_SILENT(T)                                   \
  template <>                                          \
  struct Silent<T> : std::true_type {                  \
    static int ty() { return 1; }                      \
    static const void* base(const T* p) { return p; }  \
  };
VT_SILENT(int) VT_SILENT(Triv) VT_SILENT(Wide) VT_SILENT(Tiny) VT_SILENT(std::vector<int>) VT_SILENT(std::string)

// forms that not every element has: dispatched on their existence
template <class Own, class A, class T>
void cons_args(void* where, const A* a, int v, std::true_type) {
  if (a)
    ::new (where) Own(std::allocator_arg, *a, VT_INPLACE, ElOps<T>::conv_of(v));
  else
    ::new (where) Own(VT_INPLACE, ElOps<T>::conv_of(v));
}
template <class Own, class A, class T>
void cons_args(void*, const A*, int, std::false_type) { std::abort(); }
template <class Own, class A, class T>
void cons_list(void* where, const A* a, int v, std::true_type) {
  if (a)
    ::new (where) Own(std::allocator_arg, *a, VT_INPLACE, {v, 77});
  else
    ::new (where) Own(VT_INPLACE, {v, 77});
}
template <class Own, class A, class T>
void cons_list(void*, const A*, int, std::false_type) { std::abort(); }
template <bool B>
using bool_c = std::integral_constant<bool, B>;

// an argument of the caller's: elements that announce nothing are entered by hand
template <class T, bool S>
struct Arg {
  T x;
  explicit Arg(int v) : x(ElOps<T>::make(v)) {
    if (S) W().objs[src_of(x)] = Obj{1, true, true, nullptr, nullptr};
  }
  ~Arg() {
    if (S) W().objs[src_of(x)].alive = false;
  }
};

template <class T, class A, bool HOOKS>
struct FlavInd final : RunnerBase<xyz::indirect<T, A>, A, ElOps<T>::copy_assign && std::is_copy_assignable<T>::value, ElOps<T>::def> {
  using Own = xyz::indirect<T, A>;
  using X = ElOps<T>;
  using Base = RunnerBase<Own, A, X::copy_assign && std::is_copy_assignable<T>::value, X::def>;
  using Base::sl;
  static constexpr bool assignable = X::copy_assign && std::is_copy_assignable<T>::value;
  static constexpr bool sees = HOOKS || !X::silent;
  void argument(const T& x, const OpR& op, int exc, std::vector<Mismatch>& mm) {
    int want = op.f == 3 && exc == 0 && X::mv == 0 ? MF : op.v;
    if (X::get(x) != want) mm.push_back(Mismatch{"argument", "", op.s});
  }
  int cval(const OpR& op, int variant, void* where, std::vector<Mismatch>& mm) override {
    int exc = 0;
    A a = Base::al(op.a < 0 ? 0 : op.a);
    const A* ap = op.a >= 0 ? &a : nullptr;
    if (op.f == 1) {
      W().begin(op.k);
      VT_TRY((cons_args<Own, A, T>(where, ap, op.v, bool_c<X::args>())))
      return exc;
    }
    if (op.f == 4) {
      W().begin(op.k);
      VT_TRY((cons_list<Own, A, T>(where, ap, op.v, bool_c<X::ilist>())))
      return exc;
    }
    {
      Arg<T, X::silent> h(op.v);
      T& x = h.x;
      const T& cx = x;
      W().begin(op.k);
      switch (op.f * 4 + (ap ? 2 : 0) + variant % 2) {
        case 8: VT_TRY(::new (where) Own(cx)) break;
        case 9: VT_TRY(::new (where) Own(VT_INPLACE, cx)) break;
        case 10: VT_TRY(::new (where) Own(std::allocator_arg, a, cx)) break;
        case 11: VT_TRY(::new (where) Own(std::allocator_arg, a, VT_INPLACE, cx)) break;
        case 12: VT_TRY(::new (where) Own(std::move(x))) break;
        case 13: VT_TRY(::new (where) Own(VT_INPLACE, std::move(x))) break;
        case 14: VT_TRY(::new (where) Own(std::allocator_arg, a, std::move(x))) break;
        case 15: VT_TRY(::new (where) Own(std::allocator_arg, a, VT_INPLACE, std::move(x))) break;
        case 20: VT_TRY(::new (where) Own(x)) break;
        case 21: VT_TRY(::new (where) Own(VT_INPLACE, x)) break;
        case 22: VT_TRY(::new (where) Own(std::allocator_arg, a, x)) break;
        case 23: VT_TRY(::new (where) Own(std::allocator_arg, a, VT_INPLACE, x)) break;
      }
      W().rec = false;
      argument(x, op, exc, mm);
    }
    return exc;
  }
  int conv_assign(Own& s, const OpR& op, std::vector<Mismatch>& mm, std::true_type) {
    int exc = 0;
    Own* r = &s;
    W().begin(op.k);
    VT_TRY(r = std::addressof(s = X::conv_of(op.v)))
    if (r != &s) mm.push_back(Mismatch{"returns-self", "", op.s});
    return exc;
  }
  int conv_assign(Own&, const OpR&, std::vector<Mismatch>&, std::false_type) { std::abort(); }
  int val_assign(Own&, const OpR&, std::vector<Mismatch>&, std::false_type) { std::abort(); }
  int val_assign(Own& s, const OpR& op, std::vector<Mismatch>& mm, std::true_type) {
    int exc = 0;
    Own* r = &s;
    Arg<T, X::silent> h(op.v);
    T& x = h.x;
    const T& cx = x;
    W().begin(op.k);
    if (op.f == 2) {
      VT_TRY(r = std::addressof(s = cx))
    } else if (op.f == 3) {
      VT_TRY(r = std::addressof(s = std::move(x)))
    } else {
      VT_TRY(r = std::addressof(s = x))
    }
    W().rec = false;
    argument(x, op, exc, mm);
    if (r != &s) mm.push_back(Mismatch{"returns-self", "", op.s});
    return exc;
  }
  int aval(const OpR& op, int, std::vector<Mismatch>& mm) override {
    Own& s = sl[op.s].get();
    return op.f == 1 ? conv_assign(s, op, mm, bool_c<X::conv && assignable>()) : val_assign(s, op, mm, bool_c<assignable>());
  }
  void write(Own& o, int v, int variant) override {
    if (variant % 3 == 0)
      X::set(*o, v);
    else if (variant % 3 == 1)
      X::set(*o.operator->(), v);
    else {
      T&& r = *std::move(o);
      X::set(r, v);
    }
  }
  Seen look(int s, std::vector<Mismatch>& mm) override {
    Seen r;
    if (!sl[s].alive) return r;
    Own& o = sl[s].get();
    const Own& c = sl[s].cget();
    r.al = AlOps<A>::uid(c.get_allocator());
    r.st = c.valueless_after_move() ? 1 : 2;
    if (r.st == 1) return r;
    const T* p = std::addressof(*c);
    if (std::addressof(*o) != p || std::addressof(*o.operator->()) != p || std::addressof(*c.operator->()) != p || addr_any(*std::move(o)) != p || addr_any(*std::move(c)) != p)
      mm.push_back(Mismatch{"access", "", s});
    if (reinterpret_cast<std::uintptr_t>(p) % alignof(T)) mm.push_back(Mismatch{"dangling", "misaligned", s});
    r.obj = p;
    const Block* b = W().block_of(p);
    auto it = W().objs.find(p);
    if (!b || !b->live || (sees && (it == W().objs.end() || !it->second.alive))) {
      mm.push_back(Mismatch{"dangling", "", s});
      r.good = false;
      return r;
    }
    r.ty = 1;
    r.val = X::get(*p);
    return r;
  }
  bool has_cmp() const override { return true; }
  int rel(int s, int t, std::vector<Mismatch>& mm) override {
    const Own &x = sl[s].cget(), &y = sl[t].cget();
    bool eq = x == y, ne = x != y, lt = x < y, gt = x > y, le = x <= y, ge = x >= y;
    if (!(ne == !eq && eq + lt + gt == 1 && le == (lt || eq) && ge == (gt || eq))) mm.push_back(Mismatch{"cmp", "", s});
    return eq ? 2 : lt ? 1 : 3;
  }
};
#else
// polymorphic families: base B with value(B&), put(B&), id(B&), full address; type<I> for I = 1..4
// Slim: overriding is all a derived class adds, or it is larger, over-aligned, final, at an offset
struct SlB {
  int v;
  static constexpr int MVX = 1;
  SlB(int x = 1) : v(x) {}
  virtual ~SlB() = default;
  virtual int id() const { return 1; }
  virtual int get() const { return v; }
  virtual void put(int x) { v = x; }
  virtual const void* full() const { return this; }
};
struct SlD : SlB {
  SlD(int x) : SlB(x) {}
  int id() const override { return 2; }
  const void* full() const override { return this; }
};
struct alignas(64) SlW : SlB {
  int twin[30];
  SlW(int x) : SlB(x) { SlW::put(x); }
  int id() const override { return 3; }
  int get() const override {
    for (int t : twin)
      if (t != v) return -997;
    return v;
  }
  void put(int x) override {
    v = x;
    for (int& t : twin) t = x;
  }
  const void* full() const override { return this; }
};
struct SlO final : Pad, SlB {
  int twin;
  SlO(int x) : SlB(x), twin(x) {}
  int id() const override { return 4; }
  int get() const override { return twin == v ? v : -997; }
  void put(int x) override { v = twin = x; }
  const void* full() const override { return this; }
};
// Bare: no virtual function anywhere, everything trivially copyable
struct BaB {
  int ty, v;
  BaB(int x = 1) : ty(1), v(x) {}
};
struct BaD : BaB {
  int twin;
  BaD(int x) : BaB(x), twin(x) { ty = 2; }
};
struct BaW : BaB {
  alignas(32) int twin[20];
  BaW(int x) : BaB(x) {
    ty = 3;
    for (int& t : twin) t = x;
  }
};
struct BaOff {
  long a = 3, b = 4;
};
struct BaO final : BaOff, BaB {
  int twin;
  BaO(int x) : BaB(x), twin(x) { ty = 4; }
};
// Abs: an abstract base; what is owned has heap parts of its own and is emptied by a move
struct AbB {
  virtual ~AbB() = default;
  virtual int id() const = 0;
  virtual int get() const = 0;
  virtual void put(int) = 0;
  virtual const void* full() const = 0;
};
template <int ID>
struct AbD final : AbB {
  std::vector<int> v;
  AbD(int x) : v(1, x) {}
  int id() const override { return ID; }
  int get() const override { return v.empty() ? MF : v.size() == 1 ? v[0] : -997; }
  void put(int x) override { v.assign(1, x); }
  const void* full() const override { return this; }
};
template <>
struct AbD<3> : Pad, virtual AbB {
  std::vector<int> v;
  AbD(int x) : v(1, x) {}
  AbD(const AbD&) = default;
  AbD(AbD&&) = default;
  int id() const override { return 3; }
  int get() const override { return v.empty() ? MF : v.size() == 1 ? v[0] : -997; }
  void put(int x) override { v.assign(1, x); }
  const void* full() const override { return this; }
};

struct FamSlim {
  using B = SlB;
  using T1 = SlB;
  using T2 = SlD;
  using T3 = SlW;
  using T4 = SlO;
  static constexpr bool silent = true, ilist = false, abstract = false;
  static constexpr int mv = 1;
  static int id(const B& b) { return b.id(); }
  static int get(const B& b) { return b.get(); }
  static void put(B& b, int v) { b.put(v); }
  static const void* full(const B& b) { return b.full(); }
};
struct FamBare {
  using B = BaB;
  using T1 = BaB;
  using T2 = BaD;
  using T3 = BaW;
  using T4 = BaO;
  static constexpr bool silent = true, ilist = false, abstract = false;
  static constexpr int mv = 1;
  static int id(const B& b) { return b.ty; }
  static int get(const B& b) {
    if (b.ty == 2 && static_cast<const BaD&>(b).twin != b.v) return -997;
    if (b.ty == 3)
      for (int t : static_cast<const BaW&>(b).twin)
        if (t != b.v) return -997;
    if (b.ty == 4) {
      auto& o = static_cast<const BaO&>(b);
      if (o.twin != b.v || o.a != 3 || o.b != 4) return -997;
    }
    return b.v;
  }
  static void put(B& b, int v) {
    b.v = v;
    if (b.ty == 2) static_cast<BaD&>(b).twin = v;
    if (b.ty == 3)
      for (int& t : static_cast<BaW&>(b).twin) t = v;
    if (b.ty == 4) static_cast<BaO&>(b).twin = v;
  }
  static const void* full(const B& b) {
    if (b.ty == 2) return &static_cast<const BaD&>(b);
    if (b.ty == 3) return &static_cast<const BaW&>(b);
    if (b.ty == 4) return &static_cast<const BaO&>(b);
    return &b;
  }
};
struct FamAbs {
  using B = AbB;
  using T1 = AbD<2>;   // never used: an abstract base cannot be owned itself
  using T2 = AbD<2>;
  using T3 = AbD<3>;
  using T4 = AbD<4>;
  static constexpr bool silent = true, ilist = false, abstract = true;
  static constexpr int mv = 0;
  static int id(const B& b) { return b.id(); }
  static int get(const B& b) { return b.get(); }
  static void put(B& b, int v) { b.put(v); }
  static const void* full(const B& b) { return b.full(); }
};
// the instrumented family of the main engine
template <int MV, bool VD>
struct FamInst {
  using B = PB<MV, VD>;
  using T1 = PB<MV, VD>;
  using T2 = D1<MV, VD>;
  using T3 = D2<MV, VD>;
  using T4 = D3<MV, VD>;
  static constexpr bool silent = false, ilist = true, abstract = false;
  static constexpr int mv = MV % 3;
  static int id(const B& b) { return b.id(); }
  static int get(const B& b) { return b.get(); }
  static void put(B& b, int v) { b.set(v); }
  static const void* full(const B& b) { return b.self(); }
};
#define VT_SILENT(T, B, N)                                                  \
  template <>                                                               \
  struct Silent<T> : std::true_type {                                       \
    static int ty() { return N; }                                           \
    static const void* base(const T* p) { return static_cast<const B*>(p); } \
  };
VT_SILENT(SlB, SlB, 1) VT_SILENT(SlD, SlB, 2) VT_SILENT(SlW, SlB, 3) VT_SILENT(SlO, SlB, 4)
VT_SILENT(BaB, BaB, 1) VT_SILENT(BaD, BaB, 2) VT_SILENT(BaW, BaB, 3) VT_SILENT(BaO, BaB, 4)
VT_SILENT(AbD<2>, AbB, 2) VT_SILENT(AbD<3>, AbB, 3) VT_SILENT(AbD<4>, AbB, 4)

template <bool B>
using bool_c = std::integral_constant<bool, B>;
template <class U, class Own, class A>
void cons_list(void* where, const A* a, int v, std::true_type) {
  if (a)
    ::new (where) Own(std::allocator_arg, *a, VT_INPLACE_TYPE(U), {v, 77});
  else
    ::new (where) Own(VT_INPLACE_TYPE(U), {v, 77});
}
template <class U, class Own, class A>
void cons_list(void*, const A*, int, std::false_type) { std::abort(); }

template <class F, class A, bool HOOKS>
struct FlavPoly final : RunnerBase<xyz::polymorphic<typename F::B, A>, A, true, !F::abstract> {
  using P = typename F::B;
  using Own = xyz::polymorphic<P, A>;
  using Base = RunnerBase<Own, A, true, !F::abstract>;
  using Base::sl;
  static constexpr bool sees = HOOKS || !F::silent;
  template <class U>
  int build(const OpR& op, int variant, void* where, std::vector<Mismatch>& mm) {
    int exc = 0;
    A a = Base::al(op.a < 0 ? 0 : op.a);
    const A* ap = op.a >= 0 ? &a : nullptr;
    if (op.f == 1) {
      W().begin(op.k);
      if (ap) {
        VT_TRY(::new (where) Own(std::allocator_arg, a, VT_INPLACE_TYPE(U), op.v))
      } else {
        VT_TRY(::new (where) Own(VT_INPLACE_TYPE(U), op.v))
      }
      return exc;
    }
    if (op.f == 4) {
      W().begin(op.k);
      VT_TRY((cons_list<U, Own, A>(where, ap, op.v, bool_c<F::ilist>())))
      return exc;
    }
    {
      U x(op.v);
      const U& cx = x;
      if (F::silent) W().objs[src_of(x)] = Obj{1, true, true, nullptr, nullptr};
      W().begin(op.k);
      switch (op.f * 4 + (ap ? 2 : 0) + variant % 2) {
        case 8: VT_TRY(::new (where) Own(cx)) break;
        case 9: VT_TRY(::new (where) Own(VT_INPLACE_TYPE(U), cx)) break;
        case 10: VT_TRY(::new (where) Own(std::allocator_arg, a, cx)) break;
        case 11: VT_TRY(::new (where) Own(std::allocator_arg, a, VT_INPLACE_TYPE(U), cx)) break;
        case 12: VT_TRY(::new (where) Own(std::move(x))) break;
        case 13: VT_TRY(::new (where) Own(VT_INPLACE_TYPE(U), std::move(x))) break;
        case 14: VT_TRY(::new (where) Own(std::allocator_arg, a, std::move(x))) break;
        case 15: VT_TRY(::new (where) Own(std::allocator_arg, a, VT_INPLACE_TYPE(U), std::move(x))) break;
        case 20: VT_TRY(::new (where) Own(x)) break;
        case 21: VT_TRY(::new (where) Own(VT_INPLACE_TYPE(U), x)) break;
        case 22: VT_TRY(::new (where) Own(std::allocator_arg, a, x)) break;
        case 23: VT_TRY(::new (where) Own(std::allocator_arg, a, VT_INPLACE_TYPE(U), x)) break;
      }
      W().rec = false;
      int want = op.f == 3 && exc == 0 && F::mv == 0 ? MF : op.v;
      if (F::get(x) != want) mm.push_back(Mismatch{"argument", "", op.s});
      if (F::silent) W().objs[src_of(x)].alive = false;
    }
    return exc;
  }
  int cval(const OpR& op, int variant, void* where, std::vector<Mismatch>& mm) override {
    switch (op.ty) {
      case 1: return build<typename F::T1>(op, variant, where, mm);
      case 2: return build<typename F::T2>(op, variant, where, mm);
      case 3: return build<typename F::T3>(op, variant, where, mm);
      default: return build<typename F::T4>(op, variant, where, mm);
    }
  }
  void write(Own& o, int v, int variant) override {
    if (variant % 2)
      F::put(*o, v);
    else
      F::put(*o.operator->(), v);
  }
  Seen look(int s, std::vector<Mismatch>& mm) override {
    Seen r;
    if (!sl[s].alive) return r;
    Own& o = sl[s].get();
    const Own& c = sl[s].cget();
    r.al = AlOps<A>::uid(c.get_allocator());
    r.st = c.valueless_after_move() ? 1 : 2;
    if (r.st == 1) return r;
    const P* p = std::addressof(*c);
    if (std::addressof(*o) != p || std::addressof(*o.operator->()) != p || std::addressof(*c.operator->()) != p) mm.push_back(Mismatch{"access", "", s});
    const Block* b = W().block_of(p);
    if (!b || !b->live) {
      mm.push_back(Mismatch{"dangling", "", s});
      r.good = false;
      return r;
    }
    int id = F::id(*c);
    r.obj = F::full(*p);
    if (sees) {
      auto it = W().objs.find(r.obj);
      if (it == W().objs.end() || !it->second.alive) {
        mm.push_back(Mismatch{"dangling", "", s});
        r.good = false;
        return r;
      }
      if (it->second.ty != id || it->second.base != p) mm.push_back(Mismatch{"dynamic", "", s});
    }
    const std::size_t al[] = {1, alignof(typename F::T1), alignof(typename F::T2), alignof(typename F::T3), alignof(typename F::T4)};
    if (id < 1 || id > 4 || reinterpret_cast<std::uintptr_t>(r.obj) % al[id]) mm.push_back(Mismatch{"dynamic", "", s});
    r.ty = id;
    r.val = F::get(*p);
    return r;
  }
};
#endif
}  // namespace vt
#endif
