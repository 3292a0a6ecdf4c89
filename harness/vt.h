// Instrumented world for the conformance harness: an arena allocator with
// identity and equality, a registry of element objects, single-shot faults and
// an event log.  Compiles as C++14 .. C++20.
#ifndef VT_H
#define VT_H
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <map>
#include <memory>
#include <new>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#ifndef VT_ALL_ASSIGNABLE
#define VT_ALL_ASSIGNABLE 0
#endif

namespace vt {

enum EvK { EvA = 1, EvC = 2, EvD = 3, EvF = 4, EvG = 5 };
enum How { HNone = 0, HDef = 1, HArg = 2, HCopy = 3, HMove = 4, HList = 5, HNonConst = 6, HConstRv = 7 };
enum FaultK { FNone = 0, FAlloc = 1, FCtor = 2, FAssign = 3 };
constexpr int MF = 0;

struct Fault {
  int serial;
  int kind;
};

struct Ev {
  int k;
  const void* who;
  int how;          // how for C/G, tag for A/F
  const void* src;
};

// code: short machine-readable class of the broken rule, detail: for humans
struct Err {
  std::string code, detail;
};

struct Obj {
  int ty;
  bool alive;
  bool external;
  int* val;           // where its value lives
  const void* base;   // address of the base subobject a polymorphic shows
};
struct Block {
  std::size_t size;
  int tag;
  bool live;
  bool fresh;   // allocated by the running operation
};

// the harness's own bookkeeping (its allocations are not those of the code under test)
inline int& bookkeeping() {
  static int n;
  return n;
}
struct Bookkeeping {
  Bookkeeping() { ++bookkeeping(); }
  ~Bookkeeping() { --bookkeeping(); }
};

struct World {
  std::vector<Ev> ev;
  std::vector<Err> errs;
  std::map<const void*, Obj> objs;        // by complete object address
  std::map<const void*, Block> blocks;
  std::vector<const void*> chook, dhook;  // running allocator construct/destroy calls
  bool rec = false;
  bool want_hooks = true;
  int fault = FNone;
  int skip = 0;  // occurrences of the fault's kind to let pass
  bool fired = false;
  int serial = 0;
  long live_blocks = 0;
  char* arena = nullptr;
  std::size_t used = 0, cap = 0;

  void reset() {
    if (!arena) {
      cap = std::size_t(48) << 20;
      arena = static_cast<char*>(std::malloc(cap));
    }
    used = 0;
    ev.clear();
    errs.clear();
    objs.clear();
    blocks.clear();
    chook.clear();
    dhook.clear();
    rec = false;
    fault = FNone;
    fired = false;
    live_blocks = 0;
  }
  void err(const char* code, const std::string& d) {
    Bookkeeping bk;
    if (errs.size() < 16) errs.push_back(Err{code, d});
  }
  void log(int k, const void* who, int how, const void* src) {
    Bookkeeping bk;
    if (rec) ev.push_back(Ev{k, who, how, src});
  }
  void begin(int f) {
    ev.clear();
    for (auto& b : blocks) b.second.fresh = false;
    chook.clear();
    dhook.clear();
    fault = f;
    skip = 0;
    fired = false;
    ++serial;
    rec = true;
  }
  void end() {
    rec = false;
    fault = FNone;
  }
  void maybe_throw(int k) {
    if (rec && fault == k) {
      if (skip > 0) {
        --skip;
        return;
      }
      fault = FNone;
      fired = true;
      throw Fault{serial, k};
    }
  }
  void* allocate(std::size_t bytes, std::size_t align, int tag) {
    Bookkeeping bk;
    maybe_throw(FAlloc);
    std::size_t a = align < 16 ? 16 : align;
    std::uintptr_t p = reinterpret_cast<std::uintptr_t>(arena) + used;
    p = (p + a - 1) / a * a;
    used = p - reinterpret_cast<std::uintptr_t>(arena) + bytes + 16;
    if (used > cap) {
      std::fprintf(stderr, "arena exhausted\n");
      std::abort();
    }
    void* r = reinterpret_cast<void*>(p);
    std::memset(r, 0xCD, bytes);
    blocks[r] = Block{bytes, tag, true, true};
    ++live_blocks;
    log(EvA, r, tag, nullptr);
    return r;
  }
  void deallocate(void* p, std::size_t bytes, int tag) {
    Bookkeeping bk;
    auto it = blocks.find(p);
    if (it == blocks.end()) {
      err("dealloc-unknown", "storage returned that was never allocated");
      return;
    }
    Block& b = it->second;
    if (!b.live) {
      err("dealloc-twice", "storage returned twice");
      return;
    }
    if (b.size != bytes) err("dealloc-size", "storage returned with a different size");
    if (b.tag != tag) err("dealloc-tag", "storage returned to an allocator unequal to its provider");
    for (auto o = objs.lower_bound(p); o != objs.end(); ++o) {
      if (static_cast<const char*>(o->first) >= static_cast<char*>(p) + b.size) break;
      if (o->second.alive && !o->second.external) {
        err("dealloc-live", "storage returned while an object is alive in it");
        o->second.alive = false;
      }
    }
    b.live = false;
    --live_blocks;
    log(EvF, p, tag, nullptr);
    std::memset(p, 0xDD, b.size);
  }
  const Block* block_of(const void* p, const void** start = nullptr) const {
    auto it = blocks.upper_bound(p);
    if (it == blocks.begin()) return nullptr;
    --it;
    if (static_cast<const char*>(p) >= static_cast<const char*>(it->first) + it->second.size) return nullptr;
    if (start) *start = it->first;
    return &it->second;
  }
  // an element constructor: before anything is written
  void ctor_begin(const void* src) {
    Bookkeeping bk;
    if (src) {
      auto it = objs.find(src);
      if (it == objs.end() || !it->second.alive) err("read-dead", "element copied or moved from a dead object");
    }
    maybe_throw(FCtor);
  }
  void ctor_end(const void* self, int ty, int how, const void* src, int* val, const void* base) {
    Bookkeeping bk;
    if (rec) {
      const Block* b = block_of(self);
      if (!b || !b->live) err("cons-nowhere", "element constructed outside storage obtained from the allocator");
      auto it = objs.find(self);
      if (it != objs.end() && it->second.alive) err("cons-twice", "element constructed over a live object");
      if (want_hooks && (chook.empty() || chook.back() != self))
        err("hook-construct", "element not constructed through the allocator's construct");
    }
    objs[self] = Obj{ty, true, !rec, val, base};
    log(EvC, self, how, src);
  }
  void dtor(const void* self, int ty) {
    Bookkeeping bk;
    auto it = objs.find(self);
    if (it == objs.end() || !it->second.alive) {
      err("destroy-dead", "element destroyed twice or never constructed");
      return;
    }
    if (it->second.ty != ty) err("destroy-type", "element destroyed as another type");
    if (rec && want_hooks && !it->second.external && (dhook.empty() || dhook.back() != self))
      err("hook-destroy", "element not destroyed through the allocator's destroy");
    it->second.alive = false;
    log(EvD, self, 0, nullptr);
  }
  void assign(const void* self, int how, const void* src) {
    Bookkeeping bk;
    auto it = objs.find(self);
    if (it == objs.end() || !it->second.alive) err("assign-dead", "assignment to a dead object");
    if (src) {
      it = objs.find(src);
      if (it == objs.end() || !it->second.alive) err("read-dead", "element assigned from a dead object");
    }
    maybe_throw(FAssign);
    log(EvG, self, how, src);
  }
  bool alive(const void* p) const {
    auto it = objs.find(p);
    return it != objs.end() && it->second.alive;
  }
};

inline World& W() {
  static World w;
  return w;
}

struct HookGuard {
  std::vector<const void*>& st;
  HookGuard(std::vector<const void*>& s, const void* p) : st(s) { st.push_back(p); }
  ~HookGuard() {
    if (!st.empty()) st.pop_back();
  }
};

// Silent elements (builtin types, plain structs, library types) announce nothing themselves: the
// allocator's construct and destroy report for them.  A specialisation has ty() and base(U*).
template <class U>
struct Silent : std::false_type {};
template <class U, class A>
struct ArgHowOf { static constexpr int how = HArg; };
template <class U>
struct ArgHowOf<U, const U&> { static constexpr int how = HCopy; };
template <class U>
struct ArgHowOf<U, U&> { static constexpr int how = HNonConst; };
template <class U>
struct ArgHowOf<U, U> { static constexpr int how = HMove; };
template <class U>
struct ArgHowOf<U, const U> { static constexpr int how = HConstRv; };
template <class U, class V>
struct ArgHowOf<U, std::initializer_list<V>> { static constexpr int how = HList; };
template <class U, class V>
struct ArgHowOf<U, std::initializer_list<V>&> { static constexpr int how = HList; };
template <class U, class V>
struct ArgHowOf<U, const std::initializer_list<V>&> { static constexpr int how = HList; };

template <class U>
const void* src_of(const U& u) { return std::addressof(u); }

template <class U, bool S = Silent<U>::value>
struct SilentHook {
  template <class... As>
  static void construct(U* p, As&&... as) { ::new (static_cast<void*>(p)) U(std::forward<As>(as)...); }
  static void destroy(U*) {}
};
template <class U>
struct SilentHook<U, true> {
  static void construct(U* p) {
    W().ctor_begin(nullptr);
    ::new (static_cast<void*>(p)) U();
    W().ctor_end(p, Silent<U>::ty(), HDef, nullptr, nullptr, Silent<U>::base(p));
  }
  template <class A>
  static void construct(U* p, A&& a) {
    constexpr int how = ArgHowOf<U, A>::how;
    bool same = how == HCopy || how == HNonConst || how == HMove || how == HConstRv;
    const void* src = same ? src_of(a) : nullptr;
    W().ctor_begin(src);
    ::new (static_cast<void*>(p)) U(std::forward<A>(a));
    W().ctor_end(p, Silent<U>::ty(), how, src, nullptr, Silent<U>::base(p));
  }
  template <class A, class B, class... As>
  static void construct(U* p, A&& a, B&& b, As&&... as) {
    W().ctor_begin(nullptr);
    ::new (static_cast<void*>(p)) U(std::forward<A>(a), std::forward<B>(b), std::forward<As>(as)...);
    W().ctor_end(p, Silent<U>::ty(), HArg, nullptr, nullptr, Silent<U>::base(p));
  }
  static void destroy(U* p) { W().dtor(p, Silent<U>::ty()); }
};

// ---------------------------------------------------------------- allocator
template <bool POCCA, bool POCMA, bool POCS, bool AE, bool SEL, bool HOOKS = true>
struct Cfg {
  static constexpr bool pocca = POCCA, pocma = POCMA, pocs = POCS, ae = AE, sel = SEL, hooks = HOOKS;
  static constexpr bool assignable = POCCA || POCMA || VT_ALL_ASSIGNABLE;
};

template <bool Assignable, bool Swappable = false>
struct AlBase {
  unsigned uid;
  explicit AlBase(unsigned u) noexcept : uid(u) {}
  AlBase(const AlBase&) noexcept = default;
  AlBase& operator=(const AlBase&) noexcept = default;
};
// an allocator that never propagates need not be assignable, one that propagates on swap only
// need only be swappable, with a swap of its own
template <>
struct AlBase<false, false> {
  unsigned uid;
  explicit AlBase(unsigned u) noexcept : uid(u) {}
  AlBase(const AlBase&) noexcept = default;
  AlBase& operator=(const AlBase&) = delete;
};
template <>
struct AlBase<false, true> {
  unsigned uid;
  explicit AlBase(unsigned u) noexcept : uid(u) {}
  AlBase(const AlBase&) noexcept = default;
  AlBase& operator=(const AlBase&) = delete;
  friend void swap(AlBase& a, AlBase& b) noexcept { std::swap(a.uid, b.uid); }
};

template <class T, class C>
struct Al : AlBase<C::assignable, C::pocs> {
  using Base = AlBase<C::assignable, C::pocs>;
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, C::pocca>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, C::pocma>;
  using propagate_on_container_swap = std::integral_constant<bool, C::pocs>;
  using is_always_equal = std::integral_constant<bool, C::ae>;
  template <class U>
  struct rebind {
    using other = Al<U, C>;
  };
  Al() noexcept : Base(0) {}
  explicit Al(unsigned u, int) noexcept : Base(u) {}
  Al(const Al&) noexcept = default;
  Al& operator=(const Al&) noexcept = default;
  template <class U>
  Al(const Al<U, C>& o) noexcept : Base(o.uid) {}
  int tag() const { return C::ae ? 0 : (this->uid == 2 ? 1 : 0); }
  T* allocate(std::size_t n) { return static_cast<T*>(W().allocate(n * sizeof(T), alignof(T), tag())); }
  void deallocate(T* p, std::size_t n) { W().deallocate(p, n * sizeof(T), tag()); }
  Al select_on_container_copy_construction() const { return C::sel ? Al() : *this; }
  template <class U, class... As>
  void construct(U* p, As&&... as) {
    const Block* b = W().block_of(p);
    if (b && b->live && b->tag != tag()) W().err("hook-tag", "construct called on an allocator unequal to the provider");
    HookGuard g(W().chook, p);
    SilentHook<U>::construct(p, std::forward<As>(as)...);
  }
  template <class U>
  void destroy(U* p) {
    const Block* b = W().block_of(p);
    if (b && b->live && b->tag != tag()) W().err("hook-tag", "destroy called on an allocator unequal to the provider");
    HookGuard g(W().dhook, p);
    SilentHook<U>::destroy(p);
    p->~U();
  }
  friend bool operator==(const Al& a, const Al& b) noexcept { return a.tag() == b.tag(); }
  friend bool operator!=(const Al& a, const Al& b) noexcept { return a.tag() != b.tag(); }
};

// ----------------------------------------------------------------- elements
template <int MV>
struct E;
#define VT_TPL template <>
#define VT_NAME E
#define VT_TY 1
#define VT_BASES
#define VT_INIT(x) : w_(x)
#define VT_BASEPTR this
#define VT_DTOR ~E() { W().dtor(this, 1); w_ = -999; }
#define VT_EXTRA                                                          \
  void setv(int x) { w_ = x; }                                            \
  friend bool operator==(const E& a, const E& b) { return a.w_ == b.w_; } \
  friend bool operator!=(const E& a, const E& b) { return a.w_ != b.w_; } \
  friend bool operator<(const E& a, const E& b) { return a.w_ < b.w_; }   \
  friend bool operator>(const E& a, const E& b) { return a.w_ > b.w_; }   \
  friend bool operator<=(const E& a, const E& b) { return a.w_ <= b.w_; } \
  friend bool operator>=(const E& a, const E& b) { return a.w_ >= b.w_; }
#define VT_SPEC E<0>
#define VT_FINAL
#define VT_MV 0
#include "elem.inc"
#undef VT_MV
#undef VT_SPEC
#define VT_SPEC E<1>
#define VT_MV 1
#include "elem.inc"
#undef VT_MV
#undef VT_SPEC
#define VT_SPEC E<2>
#define VT_MV 2
#include "elem.inc"
#undef VT_FINAL
#undef VT_MV
#undef VT_SPEC
#undef VT_TPL
#undef VT_NAME
#undef VT_TY
#undef VT_BASES
#undef VT_INIT
#undef VT_BASEPTR
#undef VT_DTOR
#undef VT_EXTRA

// polymorphic family -------------------------------------------------------
struct NoReg {};
// VD: whether the base's destructor is virtual
template <bool VD>
struct DtorBase {
  virtual ~DtorBase() = default;
};
template <>
struct DtorBase<false> {};

template <int MV, bool VD>
struct PB;   // type 1: the base itself
template <int MV, bool VD>
struct D1;   // type 2: plain derived
template <int MV, bool VD>
struct D2;   // type 3: base at an offset
template <int MV, bool VD>
struct D3;   // type 4: virtual base
struct Pad {
  long pad[3];
  virtual int padf() const { return 7; }
};
struct VPad {
  int q = 5;
  virtual int qf() const { return q; }
};
#define VT_MV 0
#include "family.inc"
#undef VT_MV
#define VT_MV 1
#include "family.inc"
#undef VT_MV
#define VT_MV 2
#include "family.inc"
#undef VT_MV
#define VT_MV 3
#include "family.inc"
#undef VT_MV
#define VT_MV 4
#include "family.inc"
#undef VT_MV

}  // namespace vt

namespace std {
template <int MV>
struct hash<vt::E<MV>> {
  std::size_t operator()(const vt::E<MV>& e) const { return static_cast<std::size_t>(e.val()) * 2654435761u + 17; }
};
}  // namespace std
#endif
