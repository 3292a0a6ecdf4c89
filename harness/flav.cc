// flav SEED HISTORIES LENGTH: long random histories over element types and allocators of many kinds, recorded for spec/VTTrace.tla.
// Compile with -DVT_V=14|20 -DVT_KIND=1|2 -DVT_PART=0..3 (3: C++20 indirect only)
#include "flav.h"
#include <string>
using namespace vt;

#if VT_PART == 2
// std::allocator is watched through the global operator new, while a call under test is running
static bool g_route;
static void* route(std::size_t n, std::size_t align) {
  if (g_route && !bookkeeping() && W().rec) return W().allocate(n, align, 0);
  void* p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  return p;
}
static void unroute(void* p, std::size_t n) {
  World& w = W();
  char* c = static_cast<char*>(p);
  if (!w.arena || c < w.arena || c >= w.arena + w.cap) {
    std::free(p);
    return;
  }
  const Block* k = w.block_of(p);
  w.deallocate(p, n == static_cast<std::size_t>(-1) && k ? k->size : n, 0);
}
#ifdef __cpp_aligned_new
enum : std::size_t { NewAlign = 16 };
#else
enum : std::size_t { NewAlign = 64 };  // before C++17 std::allocator cannot ask for more, and over-aligned elements are up to operator new
#endif
void* operator new(std::size_t n) { return route(n, NewAlign); }
void* operator new[](std::size_t n) { return route(n, NewAlign); }
void operator delete(void* p) noexcept { unroute(p, static_cast<std::size_t>(-1)); }
void operator delete[](void* p) noexcept { unroute(p, static_cast<std::size_t>(-1)); }
void operator delete(void* p, std::size_t n) noexcept { unroute(p, n); }
void operator delete[](void* p, std::size_t n) noexcept { unroute(p, n); }
#if __cplusplus >= 201703L
void* operator new(std::size_t n, std::align_val_t a) { return route(n, static_cast<std::size_t>(a)); }
void operator delete(void* p, std::align_val_t) noexcept { unroute(p, static_cast<std::size_t>(-1)); }
void operator delete(void* p, std::size_t n, std::align_val_t) noexcept { unroute(p, n); }
#endif
#endif

static unsigned g_seed, g_count;
static int g_hist, g_len;

template <class R>
void run(const CfgKey& key, const Limits& lim, bool hooks, bool routed) {
  ++g_count;
  for (int h = 0; h < g_hist; ++h) {
    int rc = in_child(60, [&] {
      auto* r = new R();
      W().want_hooks = hooks;
#if VT_PART == 2
      g_route = routed;
#else
      (void)routed;
#endif
      history(key, *r, lim, g_seed * 65537u + static_cast<unsigned>(h) * 997u + g_count, g_len);
    });
    if (rc) {
      std::printf("\n{\"crash\":\"%s\",\"cfg\":[%d,%d,%d,%d,%d,%d,%d],\"what\":\"%s\"}\n", signame(rc), key.kind, key.pocca, key.pocma, key.pocs, key.ae, key.sel, key.mv, lim.what.c_str());
      std::fflush(stdout);
    }
  }
}

#if VT_KIND == 1
template <class T, class A, bool HOOKS>
void one(const char* what, const char* alname, int pocca, int pocma, int pocs, int ae, int sel, bool uids, bool routed) {
  using X = ElOps<T>;
  using R = FlavInd<T, A, HOOKS>;
  Limits l;
  l.what = std::string("indirect<") + what + ", " + alname + ">";
  l.max_uid = uids ? 2 : 0;
  l.cdef = X::def;
  l.copy_assign = l.aval = R::assignable;
  l.args = X::args;
  l.conv = X::conv;
  l.ilist = X::ilist;
  l.hash = false;
  l.moves_cannot_fail = !X::silent && X::mv != 2 && std::is_nothrow_move_constructible<T>::value;
  l.faults = 2 + (R::sees ? 4 : 0) + (X::silent ? 0 : 8);
  l.mask = X::silent ? (HOOKS ? "1,2,3,4" : "1,4") : "1,2,3,4,5";
  run<R>(CfgKey{1, pocca, pocma, pocs, ae, sel, X::mv}, l, HOOKS, routed);
}
#else
template <class F, class A, bool HOOKS>
void one(const char* what, const char* alname, int pocca, int pocma, int pocs, int ae, int sel, bool uids, bool routed) {
  using R = FlavPoly<F, A, HOOKS>;
  Limits l;
  l.what = std::string("polymorphic<") + what + ", " + alname + ">";
  l.max_uid = uids ? 2 : 0;
  l.cdef = !F::abstract;
  l.ty_lo = F::abstract ? 2 : 1;
  l.ilist = F::ilist;
  l.moves_cannot_fail = !F::silent && F::mv != 2 && std::is_nothrow_move_constructible<typename F::B>::value;
  l.faults = 2 + (R::sees ? 4 : 0) + (F::silent ? 0 : 8);
  l.mask = F::silent ? (HOOKS ? "1,2,3,4" : "1,4") : "1,2,3,4,5";
  run<R>(CfgKey{2, pocca, pocma, pocs, ae, sel, F::mv}, l, HOOKS, routed);
}
#endif

template <class T, class E, template <class, class> class AL, bool HOOKS>
void stateful(const char* what, const char* al) {
  one<T, AL<E, Cfg<0, 0, 0, 0, 0>>, HOOKS>(what, al, 0, 0, 0, 0, 0, true, false);
  one<T, AL<E, Cfg<1, 1, 1, 0, 1>>, HOOKS>(what, al, 1, 1, 1, 0, 1, true, false);
  one<T, AL<E, Cfg<0, 1, 0, 1, 0>>, HOOKS>(what, al, 0, 1, 0, 1, 0, true, false);
#if VT_DEEP
  one<T, AL<E, Cfg<1, 0, 1, 1, 1>>, HOOKS>(what, al, 1, 0, 1, 1, 1, true, false);
  one<T, AL<E, Cfg<0, 0, 1, 1, 0>>, HOOKS>(what, al, 0, 0, 1, 1, 0, true, false);
  one<T, AL<E, Cfg<1, 0, 0, 0, 0>>, HOOKS>(what, al, 1, 0, 0, 0, 0, true, false);
  one<T, AL<E, Cfg<0, 1, 0, 0, 1>>, HOOKS>(what, al, 0, 1, 0, 0, 1, true, false);
#endif
}
template <class T, class E>
void stateless(const char* what) {
  one<T, AlEmpty<E>, false>(what, "AlEmpty", 0, 0, 0, 1, 0, false, false);
  one<T, AlFinal<E>, false>(what, "AlFinal", 0, 0, 0, 1, 0, false, false);
  one<T, std::allocator<E>, false>(what, "std::allocator", 0, 1, 0, 1, 0, false, true);
}

int main(int argc, char** argv) {
  g_seed = argc > 1 ? static_cast<unsigned>(std::atoi(argv[1])) : 1;
  g_hist = argc > 2 ? std::atoi(argv[2]) : 1;
  g_len = argc > 3 ? std::atoi(argv[3]) : 60;
#if VT_KIND == 1
#define S(T) stateful<T, T, Al, true>(#T, "Al")
#define N(T) stateful<T, T, AlPlain, false>(#T, "AlPlain")
#define Z(T) stateless<T, T>(#T)
#if VT_PART == 0
  S(int); S(Triv); S(Wide); S(Tiny); S(std::vector<int>); S(std::string);
#elif VT_PART == 3   // pointers that are not T*
  stateful<int, int, AlFancy, false>("int", "AlFancy");
  stateful<ElNx, ElNx, AlFancy, false>("ElNx", "AlFancy");
#elif VT_PART == 1
  S(ElNx); S(ElNa); S(ElVa); S(ElCo); S(ElFin); S(ElBig);
#else
  N(int); N(ElNx); N(std::vector<int>);
  Z(int); Z(ElNx); Z(Triv);
#endif
#else
#define S(T) stateful<T, T::B, Al, true>(#T, "Al")
#define N(T) stateful<T, T::B, AlPlain, false>(#T, "AlPlain")
#define Z(T) stateless<T, T::B>(#T)
#if VT_PART == 0
  S(FamSlim); S(FamBare);
#elif VT_PART == 1
  S(FamAbs);
  N(FamSlim); N(FamAbs);
#else
  using FamInst0 = FamInst<0, true>;
  using FamInst2 = FamInst<2, false>;
  using FamInst3 = FamInst<3, true>;
  using FamInst4 = FamInst<4, false>;
  N(FamInst2); N(FamInst3); N(FamInst4);
  Z(FamInst0); Z(FamBare);
#endif
#endif
  std::printf("{\"done\":1}\n");
  return 0;
}
