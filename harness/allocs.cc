// The repository's own allocators (C23): histories of TaggedAllocator and TrackingAllocator objects, of storage obtained through them and of owners
// that use them.  One JSON record per step; spec/VTAllocs.tla decides whether it is allowed.
//   allocs SEED HISTORIES LENGTH          -DVT_V=14|20 -DVT_KIND=1 (tagged) | 2 (tracking)
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <memory>
#include <new>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#if VT_V == 14
#include "indirect_cxx14.h"
#include "polymorphic_cxx14.h"
#else
#include "indirect.h"
#include "polymorphic.h"
#endif
#include "tagged_allocator.h"
#include "tracking_allocator.h"

// ---- storage: every global allocation made while `watch` is on
static bool watch = false;
static int news, dels, fail_in, size_ok, misaligned;
static std::size_t last_size;
struct Head {
  std::size_t size, pad;
};
static void* get(std::size_t n, std::size_t al) {
  if (watch) {
    if (fail_in && --fail_in == 0) throw std::bad_alloc();
    ++news;
    last_size = n;
  }
  if (al < 16) al = 16;
  char* p = static_cast<char*>(std::malloc(n + 2 * al));
  if (!p) throw std::bad_alloc();
  char* q = reinterpret_cast<char*>((reinterpret_cast<std::uintptr_t>(p) + 2 * al - 1) / al * al);
  if (q < p + sizeof(Head)) q += al;
  reinterpret_cast<Head*>(q)[-1] = Head{n, static_cast<std::size_t>(q - p)};
  return q;
}
static void put(void* q, std::size_t n) {
  if (!q) return;
  Head h = reinterpret_cast<Head*>(q)[-1];
  if (watch) {
    ++dels;
    if (n && n != h.size) size_ok = 0;
  }
  std::free(static_cast<char*>(q) - h.pad);
}
void* operator new(std::size_t n) { return get(n, 16); }
void operator delete(void* p) noexcept { put(p, 0); }
void operator delete(void* p, std::size_t n) noexcept { put(p, n); }
#if __cplusplus >= 201703L
void* operator new(std::size_t n, std::align_val_t a) { return get(n, static_cast<std::size_t>(a)); }
void operator delete(void* p, std::align_val_t) noexcept { put(p, 0); }
void operator delete(void* p, std::size_t n, std::align_val_t) noexcept { put(p, n); }
#endif

// ---- element types
struct Boom {};
static int throw_in;   // the n-th element construction or assignment from now on throws
static void tick() {
  if (throw_in && --throw_in == 0) throw Boom();
}
static int built;      // how the last element was built: 1 value, 2 non-const lvalue, 3 const lvalue, 4 rvalue, 5 nothing, 6 pair
struct E {
  int v;
  E() : v(1) { tick(), built = 5; }
  explicit E(int n) : v(n) { tick(), built = 1; }
  E(int n, int m) : v(n * 10 + m) { tick(), built = 6; }
  E(const E& o) : v(o.v) { tick(), built = 3; }
  E(E& o) : v(o.v) { tick(), built = 2; }
  E(E&& o) : v(o.v) {
    tick(), built = 4;
    o.v = 0;
  }
  E& operator=(const E& o) {
    tick();
    v = o.v;
    return *this;
  }
  E& operator=(E&& o) {
    tick();
    v = o.v;
    if (&o != this) o.v = 0;
    return *this;
  }
  virtual ~E() {}
  int val() const { return v; }
};
struct E2 : E {
  double more[3];
  explicit E2(int n) : E(n) {}
  E2(const E2& o) : E(static_cast<const E&>(o)) {}
  E2(E2&& o) : E(static_cast<E&&>(o)) {}
};

// ---- the allocators under test
#if VT_KIND == 1
template <class T>
using Al = xyz::TaggedAllocator<T>;
static const std::size_t tags[5] = {0, 0, 7, 1, std::numeric_limits<std::size_t>::max()};
template <class T>
Al<T> mk(int d) { return Al<T>(tags[d]); }
template <class T>
int data(const Al<T>& a) {
  for (int d = 1; d <= 4; ++d)
    if (a.tag == tags[d]) return d;
  return -1;
}
#else
template <class T>
using Al = xyz::TrackingAllocator<T>;
static unsigned cnt_a[2], cnt_d[2];
template <class T>
Al<T> mk(int d) { return Al<T>(&cnt_a[(d - 1) / 2], &cnt_d[(d - 1) % 2]); }
template <class T>
int data(const Al<T>& a) {
  for (int d = 1; d <= 4; ++d)
    if (a.alloc_counter_ == &cnt_a[(d - 1) / 2] && a.dealloc_counter_ == &cnt_d[(d - 1) % 2]) return d;
  return -1;
}
#endif
#if VT_KIND == 1
static unsigned cnt_a[2], cnt_d[2];
#endif

template <class T>
struct Pool {
  std::unique_ptr<Al<T>> a[4];
};
static Pool<char> pc;
static Pool<E> pe;
static Pool<double> pd;
static Pool<void*> pv;
static int pty[4];  // 0 nothing, 1 char, 2 E, 3 double, 4 void*
template <class F>
void with(int p, F f) {
  if (pty[p] == 1) f(*pc.a[p]);
  if (pty[p] == 2) f(*pe.a[p]);
  if (pty[p] == 3) f(*pd.a[p]);
  if (pty[p] == 4) f(*pv.a[p]);
}
template <class T>
Pool<T>& pool();
template <>
Pool<char>& pool<char>() { return pc; }
template <>
Pool<E>& pool<E>() { return pe; }
template <>
Pool<double>& pool<double>() { return pd; }
template <>
Pool<void*>& pool<void*>() { return pv; }
static void drop(int p) {
  pc.a[p].reset();
  pe.a[p].reset();
  pd.a[p].reset();
  pv.a[p].reset();
  pty[p] = 0;
}
template <class T>
void set(int p, const Al<T>& a, int ty) {
  std::unique_ptr<Al<T>> n(new Al<T>(a));
  drop(p);
  pool<T>().a[p] = std::move(n);
  pty[p] = ty;
}
template <class F>
void with_ty(int ty, F f) {
  if (ty == 1) f(static_cast<char*>(nullptr));
  if (ty == 2) f(static_cast<E*>(nullptr));
  if (ty == 3) f(static_cast<double*>(nullptr));
  if (ty == 4) f(static_cast<void**>(nullptr));
}

struct Raw {
  void* p;
  int ty, d, n;
};
static std::vector<Raw> raws;

using I = xyz::indirect<E, Al<E>>;
using P = xyz::polymorphic<E, Al<E>>;
template <class O>
struct Slot {
  alignas(O) unsigned char m[sizeof(O)];
  bool on;
  O& get() { return *reinterpret_cast<O*>(m); }
};
static Slot<I> oi[2];
static Slot<P> op[2];   // slots 3, 4

static unsigned rs;
static int below(int n) {
  rs = rs * 1664525u + 1013904223u;
  return static_cast<int>((rs >> 9) % static_cast<unsigned>(n));
}

struct Step {
  std::string o;
  int p, q, ty, d, n, v, f;
};

template <class O>
void own_state(Slot<O>& s) {
  if (!s.on) {
    std::printf("[0,0,0]");
    return;
  }
  const O& o = s.get();
  std::printf("[1,%d,%d]", data(o.get_allocator()), o.valueless_after_move() ? -1 : (*o).v);
}

static unsigned a0[2], d0[2];
static void before() {
  for (int i = 0; i < 2; ++i) a0[i] = cnt_a[i], d0[i] = cnt_d[i];
  news = dels = 0;
  size_ok = 1;
  misaligned = 0;
  built = 0;
}
static void print(const Step& s, int exc, int got) {
  bool w = watch;
  watch = false;
  std::printf("{\"impl\":%d,\"kind\":%d,\"op\":\"%s\",\"p\":%d,\"q\":%d,\"ty\":%d,\"d\":%d,\"n\":%d,\"v\":%d,\"f\":%d,\"exc\":%d,\"got\":%d,\"built\":%d", VT_V, VT_KIND, s.o.c_str(), s.p, s.q, s.ty, s.d, s.n, s.v,
              s.f, exc, got, built);
  std::printf(",\"news\":%d,\"dels\":%d,\"sized\":%s,\"aligned\":%s,\"da\":[%d,%d],\"dd\":[%d,%d],\"pool\":[", news, dels, size_ok ? "true" : "false", misaligned ? "false" : "true", static_cast<int>(cnt_a[0] - a0[0]),
              static_cast<int>(cnt_a[1] - a0[1]), static_cast<int>(cnt_d[0] - d0[0]), static_cast<int>(cnt_d[1] - d0[1]));
  for (int p = 0; p < 4; ++p) {
    int d = 0;
    with(p, [&](auto& a) { d = data(a); });
    std::printf("%s[%d,%d]", p ? "," : "", pty[p], d);
  }
  // equality of the allocators of one type (row by row), both operators and both orders
  std::printf("],\"eq\":[");
  for (int p = 0; p < 4; ++p)
    for (int q = 0; q < 4; ++q) {
      int r = -1;
      if (pty[p] && pty[p] == pty[q])
        with(p, [&](const auto& a) {
          using A = std::decay_t<decltype(a)>;
          const A& b = *pool<typename A::value_type>().a[q];
          bool e = a == b, ne = a != b;
          r = e != ne ? e : 2;
        });
      std::printf("%s%d", p + q ? "," : "", r);
    }
  std::printf("],\"own\":[");
  own_state(oi[0]);
  std::printf(",");
  own_state(oi[1]);
  std::printf(",");
  own_state(op[0]);
  std::printf(",");
  own_state(op[1]);
  std::printf("]}\n");
  watch = w;
}

template <class T, class U>
Al<T> conv(const Al<U>& a, int f) {
  using R = typename std::allocator_traits<Al<U>>::template rebind_alloc<T>;
  static_assert(std::is_same<R, Al<T>>::value, "rebind");
  if (f == 0) return R(a);
  if (f == 1) {
    R r = a;
    return r;
  }
  Al<U> b(a);
  return R(std::move(b));
}
// moving from an allocator leaves it as it is
template <class T>
Al<T> conv_move(Al<T>& a, Al<T>*) { return Al<T>(std::move(a)); }
template <class T, class U>
Al<T> conv_move(Al<U>& a, Al<T>*) { return conv<T>(a, 2); }


#if VT_V == 14
template <class T>
using ipt = xyz::in_place_type_t<T>;
using ip = xyz::in_place_t;
#else
using ip = std::in_place_t;
template <class T>
using ipt = std::in_place_type_t<T>;
#endif
template <class F>
void go(F f) {
  watch = true;
  f();
  watch = false;
}
static void make(I* at, Al<E> al, int v, int f) {
  E e(v);
  const E& c = e;
  if (f == 0) go([&] { ::new (static_cast<void*>(at)) I(std::allocator_arg, al, ip{}, v); });
  else if (f == 1) go([&] { ::new (static_cast<void*>(at)) I(std::allocator_arg, al, c); });
  else go([&] { ::new (static_cast<void*>(at)) I(std::allocator_arg, al, std::move(e)); });
}
static void make(P* at, Al<E> al, int v, int f) {
  E2 e(v);
  const E2& c = e;
  E b(v);
  if (f == 0) go([&] { ::new (static_cast<void*>(at)) P(std::allocator_arg, al, ipt<E2>{}, v); });
  else if (f == 1) go([&] { ::new (static_cast<void*>(at)) P(std::allocator_arg, al, c); });
  else go([&] { ::new (static_cast<void*>(at)) P(std::allocator_arg, al, std::move(b)); });
}
static void set_value(I& o, int v, int f) {
  E e(v);
  const E& c = e;
  if (f == 0) go([&] { o = c; });
  else go([&] { o = std::move(e); });
}
static void set_value(P&, int, int) {}

template <class O>
bool run_owner(Slot<O>* a, const Step& s) {
  Slot<O>&x = a[s.p % 2], &y = a[s.q % 2];
  O* at = &x.get();
  const O& c = y.get();
  bool fresh = s.o == "odef" || s.o == "oval" || s.o == "ocopy" || s.o == "ocopya" || s.o == "omove" || s.o == "omovea";
  if (s.o == "odef") go([&] { ::new (static_cast<void*>(at)) O(std::allocator_arg, mk<E>(s.d)); });
  else if (s.o == "oval") make(at, mk<E>(s.d), s.v, s.f);
  else if (s.o == "ocopy") go([&] { ::new (static_cast<void*>(at)) O(c); });
  else if (s.o == "ocopya") go([&] { ::new (static_cast<void*>(at)) O(std::allocator_arg, mk<E>(s.d), c); });
  else if (s.o == "omove") go([&] { ::new (static_cast<void*>(at)) O(std::move(y.get())); });
  else if (s.o == "omovea") go([&] { ::new (static_cast<void*>(at)) O(std::allocator_arg, mk<E>(s.d), std::move(y.get())); });
  else if (s.o == "oassign") go([&] { x.get() = c; });
  else if (s.o == "omassign") go([&] { x.get() = std::move(y.get()); });
  else if (s.o == "oswap") go([&] {
      using std::swap;
      swap(x.get(), y.get());
    });
  else if (s.o == "okill") {
    x.on = false;
    go([&] { x.get().~O(); });
  } else if (s.o == "owrite") go([&] { (*x.get()).v = s.v; });
  else if (s.o == "oset") set_value(x.get(), s.v, s.f);
  if (fresh) x.on = true;
  return true;
}
template <class O>
bool applies(Slot<O>* a, const Step& s) {
  Slot<O>&x = a[s.p % 2], &y = a[s.q % 2];
  bool fresh = s.o == "odef" || s.o == "oval" || s.o == "ocopy" || s.o == "ocopya" || s.o == "omove" || s.o == "omovea";
  bool two = s.o != "odef" && s.o != "oval" && s.o != "okill" && s.o != "owrite" && s.o != "oset";
  if (fresh == x.on || (two && !y.on)) return false;
  if (s.o == "owrite" && x.get().valueless_after_move()) return false;
  if (s.o == "oswap" && !(x.get().get_allocator() == y.get().get_allocator())) return false;
  return !(s.o == "oset" && std::is_same<O, P>::value);
}

// one random step; false: nothing to do with these numbers
static bool step() {
  static const char* ops[] = {"make", "make", "conv", "conv", "assign", "massign", "swap", "conv", "drop", "alloc", "alloc", "dealloc", "dealloc", "dealloc", "build", "build",
                              "odef", "oval", "ocopy", "ocopya", "omove", "omovea", "oassign", "omassign", "oswap", "okill", "owrite", "oset",
                              "oval", "ocopy", "ocopya", "omovea", "oassign", "omassign"};
  Step s{ops[below(static_cast<int>(sizeof ops / sizeof *ops))], below(4), below(4), 1 + below(4), 1 + below(4), 1 + below(5), 2 + below(6), below(3)};
  int exc = 0, got = 0;
  if (s.o[0] == 'o') {
    s.q = s.p / 2 * 2 + below(2);
    if (!(s.p < 2 ? applies(oi, s) : applies(op, s))) return false;
    bool quiet = s.o == "okill" || s.o == "owrite" || s.o == "oswap" || s.o == "omove";
    int k = quiet || below(4) ? 0 : 1 + below(2);
    before();
    fail_in = k == 1 ? 1 : 0;
    throw_in = k == 2 ? (s.o == "oval" || s.o == "oset" ? 0 : 1) : 0;
    try {
      if (s.p < 2) run_owner(oi, s);
      else run_owner(op, s);
    } catch (const Boom&) {
      exc = 2;
    } catch (const std::bad_alloc&) {
      exc = 1;
    }
    watch = false;
    fail_in = throw_in = 0;
    print(s, exc, k);
    return true;
  }
  if (s.o == "make") {
    before();
    with_ty(s.ty, [&](auto* t) { set(s.p, mk<std::decay_t<decltype(*t)>>(s.d), s.ty); });
  } else if (s.o == "conv") {
    if (!pty[s.q] || s.p == s.q) return false;
    before();
    with(s.q, [&](auto& a) {
      const auto& c = a;
      with_ty(s.ty, [&](auto* t) {
        using T = std::decay_t<decltype(*t)>;
        set(s.p, s.f == 2 ? conv_move(a, static_cast<Al<T>*>(nullptr)) : conv<T>(c, s.f), s.ty);
      });
    });
  } else if (s.o == "swap") {
    if (!pty[s.p] || pty[s.p] != pty[s.q] || s.p == s.q) return false;
    before();
    with(s.p, [&](auto& a) {
      using std::swap;
      swap(a, *pool<typename std::decay_t<decltype(a)>::value_type>().a[s.q]);
    });
  } else if (s.o == "assign" || s.o == "massign") {
    if (!pty[s.p] || pty[s.p] != pty[s.q]) return false;
    before();
    with(s.p, [&](auto& a) {
      auto& b = *pool<typename std::decay_t<decltype(a)>::value_type>().a[s.q];
      if (s.o == "assign") a = static_cast<const std::decay_t<decltype(a)>&>(b);
      else a = std::move(b);
    });
  } else if (s.o == "drop") {
    if (!pty[s.p]) return false;
    before();
    drop(s.p);
  } else if (s.o == "alloc") {
    if (!pty[s.p] || raws.size() >= 4) return false;
    s.ty = pty[s.p];
    if (s.f == 2 && below(2)) s.n = 0;
    before();
    int k = below(4) == 0;
    bool huge = below(8) == 0;
    fail_in = k;
    with(s.p, [&](auto& a) {
      using A = std::decay_t<decltype(a)>;
      using T = typename A::value_type;
      std::size_t n = huge ? std::numeric_limits<std::size_t>::max() / (sizeof(T) > 1 ? 2 : 1) : static_cast<std::size_t>(s.n);
      T* r = nullptr;
      try {
        go([&] { r = s.f == 1 ? std::allocator_traits<A>::allocate(a, n) : a.allocate(n); });
      } catch (const std::bad_alloc&) {
        exc = 1;
      }
      watch = false;
      fail_in = 0;
      if (huge && exc == 0) std::abort();
      if (exc == 0) {
        misaligned = reinterpret_cast<std::uintptr_t>(r) % alignof(T) != 0;
        got = last_size == n * sizeof(T);
        raws.push_back(Raw{r, s.ty, data(a), s.n});
      }
    });
    s.d = k || huge;
  } else if (s.o == "dealloc") {
    if (!pty[s.p]) return false;
    std::size_t i = 0;
    while (i < raws.size() && !(raws[i].ty == pty[s.p] && raws[i].d > 0)) ++i;
    for (i = 0; i < raws.size(); ++i) {
      bool match = false;
      with(s.p, [&](auto& a) { match = raws[i].ty == pty[s.p] && raws[i].d == data(a); });
      if (match) break;
    }
    if (i == raws.size()) return false;
    s.ty = raws[i].ty;
    s.n = raws[i].n;
    s.d = raws[i].d;
    before();
    with(s.p, [&](auto& a) {
      using A = std::decay_t<decltype(a)>;
      using T = typename A::value_type;
      T* r = static_cast<T*>(raws[i].p);
      std::size_t n = static_cast<std::size_t>(raws[i].n);
      go([&] {
        if (s.f == 1) std::allocator_traits<A>::deallocate(a, r, n);
        else a.deallocate(r, n);
      });
    });
    raws.erase(raws.begin() + static_cast<std::ptrdiff_t>(i));
  } else if (s.o == "build") {  // construct through allocators of any type: value category and arguments arrive as given
    if (!pty[s.p]) return false;
    s.f = 1 + below(6);
    before();
    E src(s.v);
    const E& csrc = src;
    Slot<E> m;
    built = 0;
    with(s.p, [&](auto& a) {
      using A = std::decay_t<decltype(a)>;
      using Tr = std::allocator_traits<A>;
      E* at = &m.get();
      if (s.f == 1) Tr::construct(a, at, s.v);
      if (s.f == 2) Tr::construct(a, at, src);
      if (s.f == 3) Tr::construct(a, at, csrc);
      if (s.f == 4) Tr::construct(a, at, std::move(src));
      if (s.f == 5) Tr::construct(a, at);
      if (s.f == 6) Tr::construct(a, at, s.v, 7);
      got = m.get().v * 100 + src.v;
      Tr::destroy(a, at);
    });
  }
  print(s, exc, got);
  return true;
}

int main(int argc, char** argv) {
  int seed = argc > 1 ? std::atoi(argv[1]) : 1, hist = argc > 2 ? std::atoi(argv[2]) : 4, len = argc > 3 ? std::atoi(argv[3]) : 100;
  for (int h = 0; h < hist; ++h) {
    rs = static_cast<unsigned>(seed * 7919 + h * 104729 + 17);
    before();
    print(Step{"start", 0, 0, 0, 0, 0, 0, 0}, 0, 0);
    for (int n = 0, tries = 0; n < len && tries < 100 * len; ++tries) n += step();
    // everything goes
    for (int i = 0; i < 2; ++i) {
      for (int p : {i, 2 + i}) {
        Step s{"okill", p, p, 0, 0, 0, 0, 0};
        if (p < 2 ? !oi[p].on : !op[p - 2].on) continue;
        before();
        if (p < 2) run_owner(oi, s);
        else run_owner(op, s);
        print(s, 0, 0);
      }
    }
    while (!raws.empty()) {
      Raw r = raws.back();
      raws.pop_back();
      Step s{"dealloc", 0, 0, r.ty, r.d, r.n, 0, 0};
      with_ty(r.ty, [&](auto* t) { set(0, mk<std::decay_t<decltype(*t)>>(r.d), r.ty); });
      before();
      with(0, [&](auto& a) {
        using T = typename std::decay_t<decltype(a)>::value_type;
        go([&] { a.deallocate(static_cast<T*>(r.p), static_cast<std::size_t>(r.n)); });
      });
      print(s, 0, 9);
    }
    for (int p = 0; p < 4; ++p) drop(p);
    before();
    print(Step{"end", 0, 0, 0, 0, 0, 0, 0}, 0, 0);
  }
  std::printf("{\"done\":1}\n");
  return 0;
}
