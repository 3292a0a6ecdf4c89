// foot SEED HISTORIES LENGTH: what memory every operation reads and writes, for spec/VTFoot.tla.
// Compile with -fsanitize=thread -c -DVT_V=14|20 -DVT_KIND=1|2 and link with footrt.cc only.
#include "own.h"
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <initializer_list>
#include <memory>
#include <new>
#include <string>
#include <utility>
#include "footrt.h"

using namespace foot;
enum { CDEF = 1, CVAL, CCOPY, CMOVE, ACOPY, AMOVE, AVAL, SWAP, KILL, MUT, OBS, CMP, CMPV };

template <class T, bool POCCA, bool POCMA, bool POCS, bool AE>
struct FA {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, POCCA>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, POCMA>;
  using propagate_on_container_swap = std::integral_constant<bool, POCS>;
  using is_always_equal = std::integral_constant<bool, AE>;
  template <class U>
  struct rebind { using other = FA<U, POCCA, POCMA, POCS, AE>; };
  int uid;
  explicit FA(int u = 0) noexcept : uid(u) {}
  template <class U>
  FA(const FA<U, POCCA, POCMA, POCS, AE>& o) noexcept : uid(o.uid) {}
  T* allocate(std::size_t n) { return static_cast<T*>(foot::allocate(n * sizeof(T))); }
  void deallocate(T* p, std::size_t) { foot::deallocate(p); }
  friend bool operator==(const FA& a, const FA& b) noexcept { return AE || (a.uid == 2) == (b.uid == 2); }
  friend bool operator!=(const FA& a, const FA& b) noexcept { return !(a == b); }
};

#if VT_KIND == 1
struct El {
  int v[4];
  explicit El(int x = 1) { maybe_fail(2); set(x); }
  El(std::initializer_list<int> l) { maybe_fail(2); set(*l.begin()); }
  El(const El& o) { maybe_fail(2); set(o.v[0]); }
  El(El&& o) { maybe_fail(2); set(o.v[0]); o.set(0); }
  El& operator=(const El& o) { maybe_fail(3); set(o.v[0]); return *this; }
  El& operator=(El&& o) { maybe_fail(3); int x = o.v[0]; o.set(0); set(x); return *this; }
  El& operator=(int x) { maybe_fail(3); set(x); return *this; }
  ~El() { set(-1); }
  void set(int x) { for (int& y : v) y = x; }
  int get() const { return v[0]; }
  void put(int x) { set(x); }
  friend bool operator==(const El& a, const El& b) { return a.v[0] == b.v[0]; }
  friend bool operator!=(const El& a, const El& b) { return a.v[0] != b.v[0]; }
  friend bool operator<(const El& a, const El& b) { return a.v[0] < b.v[0]; }
  friend bool operator>(const El& a, const El& b) { return a.v[0] > b.v[0]; }
  friend bool operator<=(const El& a, const El& b) { return a.v[0] <= b.v[0]; }
  friend bool operator>=(const El& a, const El& b) { return a.v[0] >= b.v[0]; }
#if VT_V == 20
  friend auto operator<=>(const El& a, const El& b) { return a.v[0] <=> b.v[0]; }
#endif
};
namespace std {
template <>
struct hash<El> {
  size_t operator()(const El& e) const noexcept { return static_cast<size_t>(e.v[0]); }
};
}
template <class A> using OwnT = xyz::indirect<El, A>;
using Elem = El;
using Arg = El;
#else
struct Base {
  int v;
  explicit Base(int x = 1) : v(x) { maybe_fail(2); }
  Base(std::initializer_list<int> l) : v(*l.begin()) { maybe_fail(2); }
  Base(const Base& o) : v(o.v) { maybe_fail(2); }
  Base(Base&& o) : v(o.v) { maybe_fail(2); o.v = 0; }
  virtual ~Base() { v = -1; }
  virtual int get() const { return v; }
  virtual void put(int x) { v = x; }
};
struct Pad { long p[3]; Pad() { p[0] = 0; } virtual ~Pad() {} };
struct Der : Pad, Base {
  int w[6];
  explicit Der(int x = 1) : Base(x) { w[5] = x; }
  Der(std::initializer_list<int> l) : Base(l) { w[5] = *l.begin(); }
  Der(const Der& o) : Pad(o), Base(o) { w[5] = o.w[5]; }
  Der(Der&& o) : Pad(o), Base(std::move(o)) { w[5] = o.w[5]; o.w[5] = 0; }
  ~Der() { w[5] = -1; }
  int get() const override { return w[5]; }
  void put(int x) override { v = w[5] = x; }
};
struct Vir : virtual Base {
  int z;
  explicit Vir(int x = 1) : Base(x), z(x) {}
  Vir(std::initializer_list<int> l) : Base(l), z(*l.begin()) {}
  Vir(const Vir& o) : Base(o), z(o.z) {}
  Vir(Vir&& o) : Base(std::move(o)), z(o.z) { o.z = 0; }
  int get() const override { return z; }
  void put(int x) override { v = z = x; }
};
template <class A> using OwnT = xyz::polymorphic<Base, A>;
using Elem = Base;
#endif

static unsigned g_seed;
static int g_len, g_hist;
static thread_local volatile long sink;  // on the calling thread

static void record(const char* what, const int* cfg, int o, int s, int t, int a, int f, int k, int exc, const int* st) {
  std::printf("{\"op\":\"foot\",\"what\":\"%s\",\"cfg\":[%d,%d,%d,%d,%d],\"o\":%d,\"s\":%d,\"t\":%d,\"a\":%d,\"f\":%d,\"k\":%d,\"exc\":%d,\"st\":[%d,%d,%d],\"rd\":[", what, cfg[0], cfg[1], cfg[2], cfg[3],
              cfg[4], o, s, t, a, f, k, exc, st[1], st[2], st[3]);
  bool c = false;
  for (int i = 0; i < CEND; ++i)
    if (did_read(i)) std::printf(c ? ",%d" : "%d", i), c = true;
  std::printf("],\"wr\":[");
  c = false;
  for (int i = 0; i < CEND; ++i)
    if (did_write(i)) std::printf(c ? ",%d" : "%d", i), c = true;
  std::printf("],\"note\":\"%s\"}\n", note());
}

template <class Own, class A>
struct Run {
  alignas(64) static unsigned char mem[MAXS + 1][256];
  bool alive[MAXS + 1];
  const char* what;
  int cfg[5];
  Own& at(int s) { return *reinterpret_cast<Own*>(mem[s]); }
  const Own& cat(int s) { return *reinterpret_cast<const Own*>(mem[s]); }
  static bool enabled_eq(const A& a, const A& b) { return a == b; }

  template <class F>
  int call(int k, F&& f) {
    int exc = 0;
    fail_at(k);
    begin();
    try {
      f();
    } catch (int e) {
      exc = e;
    }
    end();
    return exc;
  }

#if VT_KIND == 1
  int cval(int s, int a, int f, int v, int k) {
    static void* am = arg_mem(sizeof(El));
    void* w = mem[s];
    El* x = ::new (am) El(v);
    const El& cx = *x;
    A al(a < 0 ? 0 : a);
    int r = 0;
    if (a < 0) switch (f) {
        case 1: r = call(k, [&] { ::new (w) Own(VT_INPLACE, v); }); break;
        case 2: r = call(k, [&] { ::new (w) Own(cx); }); break;
        case 3: r = call(k, [&] { ::new (w) Own(std::move(*x)); }); break;
        default: r = call(k, [&] { ::new (w) Own(VT_INPLACE, {v, v}); });
      }
    else switch (f) {
        case 1: r = call(k, [&] { ::new (w) Own(std::allocator_arg, al, VT_INPLACE, v); }); break;
        case 2: r = call(k, [&] { ::new (w) Own(std::allocator_arg, al, cx); }); break;
        case 3: r = call(k, [&] { ::new (w) Own(std::allocator_arg, al, std::move(*x)); }); break;
        default: r = call(k, [&] { ::new (w) Own(std::allocator_arg, al, VT_INPLACE, {v, v}); });
      }
    x->~El();
    return r;
  }
  int aval(int s, int f, int v, int k) {
    static void* am = arg_mem(sizeof(El));
    El* x = ::new (am) El(v);
    const El& cx = *x;
    int r = f == 2 ? call(k, [&] { at(s) = cx; }) : call(k, [&] { at(s) = std::move(*x); });
    x->~El();
    return r;
  }
  void cmp(int s, int t, int f) {
    const Own &a = cat(s), &b = cat(t);
    call(0, [&] {
      switch (f % 6) {
        case 0: sink = a == b; break;
        case 1: sink = a != b; break;
        case 2: sink = a < b; break;
        case 3: sink = a > b; break;
        case 4: sink = a <= b; break;
        default: sink = a >= b; break;
      }
    });
  }
  void cmpv(int s, int f) {
    static void* am = arg_mem(sizeof(El));
    El* x = ::new (am) El(2);
    const El& v = *x;
    const Own& a = cat(s);
    call(0, [&] {
      switch (f % 6) {
        case 0: sink = a == v; break;
        case 1: sink = v != a; break;
        case 2: sink = a < v; break;
        case 3: sink = v > a; break;
        case 4: sink = a <= v; break;
        default: sink = v >= a; break;
      }
    });
    x->~El();
  }
  void hash(int s) { const Own& a = cat(s); call(0, [&] { sink = static_cast<long>(std::hash<Own>()(a)); }); }
#else
  template <class U>
  int cvalT(int s, int a, int f, int v, int k) {
    static void* am = arg_mem(sizeof(U));
    void* w = mem[s];
    U* x = ::new (am) U(v);
    const U& cx = *x;
    A al(a < 0 ? 0 : a);
    int r = 0;
    if (a < 0) switch (f) {
        case 1: r = call(k, [&] { ::new (w) Own(VT_INPLACE_TYPE(U), v); }); break;
        case 2: r = call(k, [&] { ::new (w) Own(cx); }); break;
        case 3: r = call(k, [&] { ::new (w) Own(std::move(*x)); }); break;
        default: r = call(k, [&] { ::new (w) Own(VT_INPLACE_TYPE(U), {v, v}); });
      }
    else switch (f) {
        case 1: r = call(k, [&] { ::new (w) Own(std::allocator_arg, al, VT_INPLACE_TYPE(U), v); }); break;
        case 2: r = call(k, [&] { ::new (w) Own(std::allocator_arg, al, cx); }); break;
        case 3: r = call(k, [&] { ::new (w) Own(std::allocator_arg, al, std::move(*x)); }); break;
        default: r = call(k, [&] { ::new (w) Own(std::allocator_arg, al, VT_INPLACE_TYPE(U), {v, v}); });
      }
    x->~U();
    return r;
  }
  int cval(int s, int a, int f, int v, int k) {
    switch (foot::random(3)) {
      case 0: return cvalT<Base>(s, a, f, v, k);
      case 1: return cvalT<Der>(s, a, f, v, k);
      default: return cvalT<Vir>(s, a, f, v, k);
    }
  }
#endif

  void step(int n) {
    int o = 1 + foot::random(CMPV), s = 1 + foot::random(MAXS), t = 1 + foot::random(MAXS), a = foot::random(4) - 1, f = 1 + foot::random(4), v = 1 + foot::random(5), k = foot::random(3) ? 0 : 1 + foot::random(3);
    (void)n;
    int st[MAXS + 1];
    for (int i = 1; i <= MAXS; ++i) {
      st[i] = !alive[i] ? 0 : cat(i).valueless_after_move() ? 1 : 2;
      owns(i, st[i] == 2 ? static_cast<const void*>(std::addressof(*cat(i))) : nullptr);
    }
    bool make = o <= CMOVE;
    if (alive[s] == make) return;
    bool two = o == CCOPY || o == CMOVE || o == ACOPY || o == AMOVE || o == SWAP || o == CMP;
    if (two && !alive[t]) return;
    if (!two) t = 0;
    if (make && s == t) return;
    if (o == SWAP && !cfg[2] && !enabled_eq(cat(s).get_allocator(), cat(t).get_allocator())) return;
    if ((o == MUT) && st[s] != 2) return;
    void* w = mem[s];
    A al(a < 0 ? 0 : a);
    int exc = 0;
    switch (o) {
      case CDEF: exc = a < 0 ? call(k, [&] { ::new (w) Own(); }) : call(k, [&] { ::new (w) Own(std::allocator_arg, al); }); alive[s] = !exc; break;
      case CVAL: exc = cval(s, a, f, v, k); alive[s] = !exc; break;
      case CCOPY: exc = a < 0 ? call(k, [&] { ::new (w) Own(cat(t)); }) : call(k, [&] { ::new (w) Own(std::allocator_arg, al, cat(t)); }); alive[s] = !exc; break;
      case CMOVE: exc = a < 0 ? call(k, [&] { ::new (w) Own(std::move(at(t))); }) : call(k, [&] { ::new (w) Own(std::allocator_arg, al, std::move(at(t))); }); alive[s] = !exc; break;
      case ACOPY: exc = call(k, [&] { at(s) = cat(t); }); break;
      case AMOVE: if (cfg[1] && !cfg[3]) k = 0; exc = call(k, [&] { at(s) = std::move(at(t)); }); break;
      case SWAP: if (f & 1) exc = call(0, [&] { at(s).swap(at(t)); }); else exc = call(0, [&] { using std::swap; swap(at(s), at(t)); }); break;
      case KILL: exc = call(0, [&] { at(s).~Own(); }); alive[s] = false; break;
      case MUT: if (f & 1) exc = call(0, [&] { (*at(s)).put(v); }); else exc = call(0, [&] { at(s)->put(v); }); break;
      case OBS:
        switch (st[s] == 2 ? foot::random(VT_KIND == 1 ? 8 : 7) : foot::random(2)) {
          case 0: call(0, [&] { sink = cat(s).valueless_after_move(); }); break;
          case 1: call(0, [&] { sink = cat(s).get_allocator().uid; }); break;
          case 2: call(0, [&] { sink = (*cat(s)).get(); }); break;
          case 3: call(0, [&] { sink = cat(s)->get(); }); break;
          case 4: call(0, [&] { sink = std::addressof(*at(s)) != nullptr; }); break;
          case 5: call(0, [&] { sink = at(s).operator->() != nullptr; }); break;
          case 6: call(0, [&] { sink = (*at(s)).get(); }); break;
#if VT_KIND == 1
          default: if (f & 1) hash(s); else call(0, [&] { sink = (*std::move(at(s))).get(); });
#endif
        }
        break;
#if VT_KIND == 1
      case AVAL: exc = aval(s, f, v, k); break;
      case CMP: cmp(s, t, f + v); break;
      case CMPV: cmpv(s, f + v); break;
#endif
      default: return;
    }
    record(what, cfg, o, s, t, a, f, k, exc, st);
  }
  void run(unsigned seed) {
    foot::seed(seed);
    for (int s = 1; s <= MAXS; ++s) {
      slot_at(s, mem[s], sizeof(Own));
      alive[s] = false;
    }
    for (int i = 0; i < g_len; ++i) step(i);
  }
};
template <class Own, class A>
alignas(64) unsigned char Run<Own, A>::mem[MAXS + 1][256];

template <bool POCCA, bool POCMA, bool POCS, bool AE>
void all() {
  using A = FA<Elem, POCCA, POCMA, POCS, AE>;
  static Run<OwnT<A>, A> r;
  r.what = VT_KIND == 1 ? "indirect" : "polymorphic";
  r.cfg[0] = POCCA; r.cfg[1] = POCMA; r.cfg[2] = POCS; r.cfg[3] = AE; r.cfg[4] = VT_KIND;
  for (int h = 0; h < g_hist; ++h) r.run(g_seed * 1000u + static_cast<unsigned>(h) * 16u + POCCA + 2 * POCMA + 4 * POCS + 8 * AE);
}

int main(int argc, char** argv) {
  g_seed = argc > 1 ? static_cast<unsigned>(std::atoi(argv[1])) : 1;
  g_hist = argc > 2 ? std::atoi(argv[2]) : 1;
  g_len = argc > 3 ? std::atoi(argv[3]) : 300;
  all<false, false, false, false>(); all<true, false, false, false>(); all<false, true, false, false>(); all<true, true, true, false>();
  all<false, false, true, true>(); all<true, true, false, false>(); all<false, true, true, false>(); all<true, false, true, true>();
  std::printf("{\"done\":1}\n");
  return 0;
}
