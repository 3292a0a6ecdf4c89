// Owned objects come and go through the owner's allocator's own hooks (C18).
// Part 1: allocators with no hooks, one hook, both hooks.
// Part 2: allocator-aware elements under allocators that pass themselves on.
#include "own.h"
#include "facts.h"
#include <cstring>
#include <initializer_list>
#include <map>
#include <memory>
#include <scoped_allocator>
#include <set>
#include <string>
#include <vector>
#if __cplusplus >= 201703L
#include <memory_resource>
#endif
using namespace vt;
struct Rng {
  unsigned long long s;
  int below(int n) {
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    return static_cast<int>((s >> 33) % static_cast<unsigned>(n));
  }
};
struct Boom {};
static int fuse = 0;  // element constructions until one throws (0: never)

// ------------------------------------------------------------------ part 1
static std::map<const void*, int> con, des;      // hook calls by address (this operation)
static std::map<const void*, int> contag, destag;
static std::set<const void*> born, died;         // element lifetimes (this operation)
static std::map<const void*, std::pair<std::size_t, int>> store;  // live storage -> size, tag
static int bad;
static int tag_at(const void* p) {
  auto it = store.upper_bound(p);
  if (it == store.begin()) return -1;
  --it;
  return static_cast<const char*>(p) < static_cast<const char*>(it->first) + it->second.first ? it->second.second : -1;
}
struct El {
  int v;
  El() : El(1) {}
  El(int x) : v(x) { enter(); }
  El(std::initializer_list<int> l) : v(*l.begin()) { enter(); }
  El(const El& o) : v(o.v) { enter(); }
  El(El&& o) : v(o.v) { enter(); o.v = 0; }
  El& operator=(const El&) = default;
  El& operator=(El&&) = default;
  El& operator=(int x) { v = x; return *this; }
  virtual ~El() { if (tag_at(this) >= 0) died.insert(this); }
  void enter() {
    if (tag_at(this) < 0) return;  // not owned
    if (fuse && --fuse == 0) throw Boom();
    born.insert(this);
  }
};
struct Z1 { long pad = 1; virtual ~Z1() = default; };
struct El2 : Z1, El { using El::El; };
template <class T, int H, bool P>
struct HA;
template <class T, bool P>
struct HBase {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, P>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, P>;
  using propagate_on_container_swap = std::integral_constant<bool, P>;
  using is_always_equal = std::false_type;
  int uid;
  explicit HBase(int u) : uid(u) {}
  T* allocate(std::size_t n) {
    T* p = std::allocator<T>().allocate(n);
    store[p] = {n * sizeof(T), uid};
    return p;
  }
  void deallocate(T* p, std::size_t n) {
    auto it = store.find(p);
    if (it == store.end() || it->second.second != uid || it->second.first != n * sizeof(T)) ++bad;
    if (it != store.end()) store.erase(it);
    std::allocator<T>().deallocate(p, n);
  }
};
inline const El* as_el(const El* p) { return p; }
inline const El* as_el(const void*) { return nullptr; }
template <class T, bool P>
struct HA<T, 0, P> : HBase<T, P> {
  template <class Y> struct rebind { using other = HA<Y, 0, P>; };
  HA(int u = 0, int = 0) : HBase<T, P>(u) {}
  template <class Y> HA(const HA<Y, 0, P>& o) : HBase<T, P>(o.uid) {}
};
template <class T, bool P>
struct HA<T, 1, P> : HBase<T, P> {  // construct only
  template <class Y> struct rebind { using other = HA<Y, 1, P>; };
  HA(int u = 0, int = 0) : HBase<T, P>(u) {}
  template <class Y> HA(const HA<Y, 1, P>& o) : HBase<T, P>(o.uid) {}
  template <class U, class... As>
  void construct(U* p, As&&... as) {
    if (auto e = as_el(p)) ++con[e], contag[e] = this->uid;
    ::new (static_cast<void*>(p)) U(std::forward<As>(as)...);
  }
};
template <class T, bool P>
struct HA<T, 2, P> : HBase<T, P> {  // destroy only
  template <class Y> struct rebind { using other = HA<Y, 2, P>; };
  HA(int u = 0, int = 0) : HBase<T, P>(u) {}
  template <class Y> HA(const HA<Y, 2, P>& o) : HBase<T, P>(o.uid) {}
  template <class U>
  void destroy(U* p) {
    if (auto e = as_el(p)) ++des[e], destag[e] = this->uid;
    p->~U();
  }
};
template <class T, bool P>
struct HA<T, 3, P> : HBase<T, P> {
  template <class Y> struct rebind { using other = HA<Y, 3, P>; };
  HA(int u = 0, int = 0) : HBase<T, P>(u) {}
  template <class Y> HA(const HA<Y, 3, P>& o) : HBase<T, P>(o.uid) {}
  template <class U, class... As>
  void construct(U* p, As&&... as) {
    if (auto e = as_el(p)) ++con[e], contag[e] = this->uid;
    ::new (static_cast<void*>(p)) U(std::forward<As>(as)...);
  }
  template <class U>
  void destroy(U* p) {
    if (auto e = as_el(p)) ++des[e], destag[e] = this->uid;
    p->~U();
  }
};
template <class A, class B>
auto eqa(const A& a, const B& b) -> decltype(a.uid == b.uid) { return a.uid == b.uid; }
template <class T, int H, bool P> bool operator==(const HA<T, H, P>& a, const HA<T, H, P>& b) { return a.uid == b.uid; }
template <class T, int H, bool P> bool operator!=(const HA<T, H, P>& a, const HA<T, H, P>& b) { return a.uid != b.uid; }

#if VT_KIND == 1
template <class E, class A> using Own = xyz::indirect<E, A>;
#define INP(U) VT_INPLACE
#else
template <class E, class A> using Own = xyz::polymorphic<E, A>;
#define INP(U) VT_INPLACE_TYPE(U)
#endif

template <int H, bool P>
void hooks(unsigned seed, int steps) {
  using A = HA<El, H, P>;
  using O = Own<El, A>;
  Rng r{seed * 977ull + H * 31 + P};
  std::unique_ptr<O> s[3];
  for (int i = 0; i < steps; ++i) {
    con.clear(); des.clear(); contag.clear(); destag.clear(); born.clear(); died.clear();
    bad = 0;
    int a = r.below(3), b = r.below(3), op = r.below(13);
    fuse = r.below(6) == 0 ? 1 : 0;
    A al(r.below(3));
    const char* n = "-";
    bool threw = false;
    std::map<const void*, std::pair<std::size_t, int>> before = store;
    try {
      if (!s[a]) {
        if (op % 6 == 0) n = "default", s[a].reset(new O(std::allocator_arg, al));
        else if (op % 6 == 1) n = "inplace", s[a].reset(new O(std::allocator_arg, al, INP(El), 4));
        else if (op % 6 == 2) n = "value", s[a].reset(new O(std::allocator_arg, al, El(5)));
#if VT_KIND == 2
        else if (op % 6 == 3) n = "inplace-derived", s[a].reset(new O(std::allocator_arg, al, INP(El2), 6));
        else if (op % 6 == 4) n = "value-derived", s[a].reset(new O(std::allocator_arg, al, El2(7)));
#else
        else if (op % 6 == 3) n = "plain-inplace", s[a].reset(new O(INP(El), 6));
        else if (op % 6 == 4) n = "plain-value", s[a].reset(new O(El(7)));
#endif
        else n = "ilist", s[a].reset(new O(std::allocator_arg, al, INP(El), {8, 9}));
      } else if (op == 0) n = "destroy", s[a].reset();
      else if (!s[b]) {
        if (op % 4 == 0) n = "copy", s[b].reset(new O(*s[a]));
        else if (op % 4 == 1) n = "ext-copy", s[b].reset(new O(std::allocator_arg, al, *s[a]));
        else if (op % 4 == 2) n = "move", s[b].reset(new O(std::move(*s[a])));
        else n = "ext-move", s[b].reset(new O(std::allocator_arg, al, std::move(*s[a])));
      } else if (op < 4) n = "copy-assign", *s[a] = static_cast<const O&>(*s[b]);
      else if (op < 7) {
        // declared noexcept when the allocator propagates: keep the fuse out of it
        if (P) fuse = 0;
        n = "move-assign", *s[a] = std::move(*s[b]);
      } else if (op < 9) {
        if (P || s[a]->get_allocator() == s[b]->get_allocator()) n = "swap", s[a]->swap(*s[b]);
      }
#if VT_KIND == 1
      else if (op < 12) {
        if (op == 9) n = "value-assign", *s[a] = El(3);
        else n = "int-assign", *s[a] = 9;
      }
#endif
      else n = "destroy", s[a].reset();
    } catch (Boom&) { threw = true; }
    fuse = 0;
    long newhook = 0, delhook = 0, stray = 0, wrong = 0;
    for (auto p : born) newhook += con.count(p) && con[p] == 1;
    for (auto p : died) delhook += des.count(p) && des[p] == 1;
    if (!threw) for (auto& c : con) stray += !born.count(c.first);
    for (auto& c : des) stray += !died.count(c.first);
    for (auto& c : contag) { int t = tag_at(c.first); if (t >= 0 && t != c.second) ++wrong; }
    for (auto& c : destag) {
      auto it = before.upper_bound(c.first);
      if (it != before.begin() && (--it)->second.second != c.second) ++wrong;
    }
    Fact("hook").i("kind", VT_KIND).i("h", H).b("poc", P).t("op", n).b("threw", threw).i("born", static_cast<long>(born.size())).i("died", static_cast<long>(died.size()))
        .i("newhook", newhook).i("delhook", delhook).i("stray", stray).i("wrong", wrong).i("baddealloc", bad);
  }
  con.clear(); des.clear(); born.clear(); died.clear(); destag.clear();
  bad = 0;
  for (auto& p : s) p.reset();
  long delhook = 0;
  for (auto p : died) delhook += des.count(p) && des[p] == 1;
  Fact("hook").i("kind", VT_KIND).i("h", H).b("poc", P).t("op", "end").b("threw", false).i("born", 0).i("died", static_cast<long>(died.size()))
      .i("newhook", 0).i("delhook", delhook).i("stray", static_cast<long>(store.size())).i("wrong", 0).i("baddealloc", bad);
}

// ------------------------------------------------------------------ part 2
template <class A> struct UidOf;  // what allocator is this?
template <class A> int uid_of(const A& a) { return UidOf<A>::get(a); }
template <template <class, bool> class A, class T, bool P> struct UidOf<A<T, P>> { static int get(const A<T, P>& a) { return a.uid; } };
template <class A> struct UidOf<std::scoped_allocator_adaptor<A>> { static int get(const std::scoped_allocator_adaptor<A>& a) { return a.outer_allocator().uid; } };
struct AlRef {
  int uid;
  AlRef() : uid(-1) {}
  template <class A, class = decltype(UidOf<A>::get(std::declval<const A&>()))>
  AlRef(const A& a) : uid(UidOf<A>::get(a)) {}
};
template <> struct UidOf<AlRef> { static int get(const AlRef& a) { return a.uid; } };
#if __cplusplus >= 201703L
struct Res : std::pmr::memory_resource {
  int uid;
  explicit Res(int u) : uid(u) {}
  void* do_allocate(std::size_t n, std::size_t a) override { return std::pmr::new_delete_resource()->allocate(n, a); }
  void do_deallocate(void* p, std::size_t n, std::size_t a) override { std::pmr::new_delete_resource()->deallocate(p, n, a); }
  bool do_is_equal(const memory_resource& o) const noexcept override { return this == &o; }
};
template <class T> struct UidOf<std::pmr::polymorphic_allocator<T>> {
  static int get(const std::pmr::polymorphic_allocator<T>& a) {
    auto* r = dynamic_cast<Res*>(a.resource());
    return r ? r->uid : 0;
  }
};
#endif
template <class R>
struct AwareT {  // R: its allocator_type
  using allocator_type = R;
  int v, al;
  static int id(const R& r) { return uid_of(r); }
  AwareT() : v(1), al(-1) {}
  explicit AwareT(const R& r) : v(1), al(id(r)) {}
  AwareT(int x) : v(x), al(-1) {}
  AwareT(int x, const R& r) : v(x), al(id(r)) {}
  AwareT(const AwareT& o) : v(o.v), al(-1) {}
  AwareT(const AwareT& o, const R& r) : v(o.v), al(id(r)) {}
  AwareT(AwareT&& o) : v(o.v), al(o.al) {}
  AwareT(AwareT&& o, const R& r) : v(o.v), al(id(r)) {}
  AwareT& operator=(const AwareT& o) { v = o.v; return *this; }
  AwareT& operator=(AwareT&& o) { v = o.v; return *this; }
  AwareT& operator=(int x) { v = x; return *this; }
  virtual ~AwareT() = default;
  virtual int eal() const { return al; }
};
template <class R>
struct AwareD : AwareT<R> {
  using B = AwareT<R>;
  using allocator_type = R;
  int al2;
  AwareD(int x) : B(x), al2(-1) {}
  AwareD(int x, const R& r) : B(x, r), al2(B::id(r)) {}
  AwareD(const AwareD& o) : B(o), al2(-1) {}
  AwareD(const AwareD& o, const R& r) : B(o, r), al2(B::id(r)) {}
  AwareD(AwareD&& o) : B(std::move(o)), al2(o.al2) {}
  AwareD(AwareD&& o, const R& r) : B(std::move(o), r), al2(B::id(r)) {}
  int eal() const override { return al2; }
};
// a home-made propagating allocator: appends itself to the arguments when the element takes it
template <class T, bool P>
struct Pass : HBase<T, P> {
  template <class Y> struct rebind { using other = Pass<Y, P>; };
  Pass(int u = 0) : HBase<T, P>(u) {}
  template <class Y> Pass(const Pass<Y, P>& o) : HBase<T, P>(o.uid) {}
  template <class U, class... As>
  void put(std::true_type, U* p, As&&... as) { ::new (static_cast<void*>(p)) U(std::forward<As>(as)..., AlRef(*this)); }
  template <class U, class... As>
  void put(std::false_type, U* p, As&&... as) { ::new (static_cast<void*>(p)) U(std::forward<As>(as)...); }
  template <class U, class... As>
  void construct(U* p, As&&... as) { put(std::uses_allocator<U, AlRef>(), p, std::forward<As>(as)...); }
  friend bool operator==(const Pass& a, const Pass& b) { return a.uid == b.uid; }
  friend bool operator!=(const Pass& a, const Pass& b) { return a.uid != b.uid; }
};
// a plain allocator for scoped_allocator_adaptor
template <class T, bool P>
struct Plain : HBase<T, P> {
  template <class Y> struct rebind { using other = Plain<Y, P>; };
  Plain(int u = 0) : HBase<T, P>(u) {}
  template <class Y> Plain(const Plain<Y, P>& o) : HBase<T, P>(o.uid) {}
  friend bool operator==(const Plain& a, const Plain& b) { return a.uid == b.uid; }
  friend bool operator!=(const Plain& a, const Plain& b) { return a.uid != b.uid; }
};
template <class R, class A, class Mk>
void aware(const char* name, bool pocs, unsigned seed, int steps, Mk mk) {
  using E = AwareT<R>;
  using O = Own<E, A>;
  Rng r{seed * 7919ull + 11};
  std::unique_ptr<O> s[3];
  int mv[3] = {0, 0, 0};  // values the model expects are the spec's business; these only name them
  for (int i = 0; i < steps; ++i) {
    int a = r.below(3), b = r.below(3), op = r.below(12), v = r.below(9) + 1, u = r.below(3);
    A al = mk(u);
    const char* n = "-";
    int t = -1;
    if (!s[a]) {
      if (op % 4 == 0) n = "default", v = 1, s[a].reset(new O(std::allocator_arg, al));
      else if (op % 4 == 1) n = "inplace", s[a].reset(new O(std::allocator_arg, al, INP(E), v));
#if VT_KIND == 2
      else if (op % 4 == 2) n = "inplace-derived", s[a].reset(new O(std::allocator_arg, al, INP(AwareD<R>), v));
#endif
      else n = "value", s[a].reset(new O(std::allocator_arg, al, E(v)));
    } else if (op == 0) n = "destroy", s[a].reset();
    else if (!s[b]) {
      t = b;
      if (op % 4 == 0) n = "copy", s[b].reset(new O(*s[a]));
      else if (op % 4 == 1) n = "ext-copy", s[b].reset(new O(std::allocator_arg, al, *s[a]));
      else if (op % 4 == 2) n = "move", s[b].reset(new O(std::move(*s[a])));
      else n = "ext-move", s[b].reset(new O(std::allocator_arg, al, std::move(*s[a])));
    } else if (op < 4) t = b, n = "copy-assign", *s[a] = static_cast<const O&>(*s[b]);
    else if (op < 7) t = b, n = "move-assign", *s[a] = std::move(*s[b]);
    else if (op < 9) {
      if (pocs || s[a]->get_allocator() == s[b]->get_allocator()) t = b, n = "swap", s[a]->swap(*s[b]);
    }
#if VT_KIND == 1
    else {
      n = "value-assign";
      if (op % 2) *s[a] = E(v);
      else *s[a] = v;
    }
#endif
    (void)mv;
    std::string post;
    for (auto& p : s) {
      if (!post.empty()) post += ",";
      if (!p) post += "[0,0,0,0]";
      else if (p->valueless_after_move()) post += "[1," + std::to_string(uid_of(p->get_allocator())) + ",0,0]";
      else post += "[2," + std::to_string(uid_of(p->get_allocator())) + "," + std::to_string((*p)->eal()) + "," + std::to_string((*p)->v) + "]";
    }
    Fact("aware").i("kind", VT_KIND).t("al", name).t("op", n).i("s", a + 1).i("t", t + 1).i("u", u).i("v", v).raw("post", "[" + post + "]");
  }
}
int main(int argc, char** argv) {
  unsigned seed = argc > 1 ? static_cast<unsigned>(std::atoi(argv[1])) : 1;
  int steps = argc > 2 ? std::atoi(argv[2]) : 250;
  hooks<0, false>(seed, steps); hooks<1, false>(seed, steps); hooks<2, false>(seed, steps); hooks<3, false>(seed, steps);
  hooks<0, true>(seed, steps); hooks<1, true>(seed, steps); hooks<2, true>(seed, steps); hooks<3, true>(seed, steps);
  using W = AwareT<AlRef>;
  aware<AlRef, Pass<W, false>>("pass", false, seed, steps, [](int u) { return Pass<W, false>(u); });
  aware<AlRef, Pass<W, true>>("pass-poc", true, seed, steps, [](int u) { return Pass<W, true>(u); });
  using S0 = std::scoped_allocator_adaptor<Plain<W, false>>;
  using S1 = std::scoped_allocator_adaptor<Plain<W, true>>;
  aware<AlRef, S0>("scoped", false, seed, steps, [](int u) { return S0(Plain<W, false>(u)); });
  aware<AlRef, S1>("scoped-poc", true, seed, steps, [](int u) { return S1(Plain<W, true>(u)); });
#if __cplusplus >= 201703L
  Res res[3] = {Res(0), Res(1), Res(2)};
  using PR = std::pmr::polymorphic_allocator<char>;
  using PA = std::pmr::polymorphic_allocator<AwareT<PR>>;
  std::pmr::set_default_resource(&res[0]);
  aware<PR, PA>("pmr", false, seed, steps, [&](int u) { return PA(&res[u]); });
#endif
}
