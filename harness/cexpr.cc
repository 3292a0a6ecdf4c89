// Executes histories printed by spec/VTGraph.tla during constant evaluation and
// again at run time, comparing every step with the specification.
// The histories come from a generated file: -include it, it defines
//   VT_WALKS(X)  X(name, pocca, pocma, pocs, ae, sel)   and   constexpr signed char name[] = {...}
// -DVT_KIND=1|2 -DVT_D2=0|1 (where the derived type keeps its base)
#include <compare>
#include <cstdio>
#include <initializer_list>
#include <memory>
#include <utility>
#define VT_V 20
#include "own.h"
namespace cx {

enum { HDef = 1, HArg, HCopy, HMove, HList, HNonConst };

template <bool A, bool B, bool C, bool D, bool S>
struct Cfg {
  static constexpr bool pocca = A, pocma = B, pocs = C, ae = D, sel = S;
};
template <class T, class C>
struct Al {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::bool_constant<C::pocca>;
  using propagate_on_container_move_assignment = std::bool_constant<C::pocma>;
  using propagate_on_container_swap = std::bool_constant<C::pocs>;
  using is_always_equal = std::bool_constant<C::ae>;
  template <class U>
  struct rebind {
    using other = Al<U, C>;
  };
  int uid = 0;
  constexpr Al() = default;
  constexpr Al(int u, int) : uid(u) {}
  template <class U>
  constexpr Al(const Al<U, C>& o) : uid(o.uid) {}
  constexpr T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); }
  constexpr void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
  constexpr Al select_on_container_copy_construction() const { return C::sel ? Al() : *this; }
  constexpr int tag() const { return C::ae ? 0 : uid == 2 ? 1 : 0; }
  friend constexpr bool operator==(const Al& a, const Al& b) { return a.tag() == b.tag(); }
};

// what happened to an element: how it was built, and how it was last assigned
struct Log {
  int built = 0, assigned = 0, assigns = 0, moved_from = 0;
};

#define CX_ELEM(NAME, INIT)                                                                                   \
  constexpr NAME() INIT(1) { log.built = HDef; }                                                              \
  constexpr NAME(int x) INIT(x) { log.built = HArg; }                                                         \
  constexpr NAME(std::initializer_list<int> l) INIT(*l.begin()) { log.built = HList; }                        \
  constexpr NAME(const NAME& o) INIT(o.val) { log.built = HCopy; }                                            \
  constexpr NAME(NAME& o) INIT(o.val) { log.built = HNonConst; }                                              \
  constexpr NAME(NAME&& o) INIT(o.val) { log.built = HMove, o.val = 0; }                                      \
  constexpr NAME& operator=(const NAME& o) { return val = o.val, log.assigned = HCopy, ++log.assigns, *this; } \
  constexpr NAME& operator=(NAME& o) { return val = o.val, log.assigned = HNonConst, ++log.assigns, *this; }  \
  constexpr NAME& operator=(int x) { return val = x, log.assigned = HArg, ++log.assigns, *this; }             \
  constexpr NAME& operator=(NAME&& o) {                                                                       \
    val = o.val;                                                                                              \
    o.val = 0;                                                                                                \
    log.assigned = HMove;                                                                                     \
    ++log.assigns;                                                                                            \
    return *this;                                                                                             \
  }

#if VT_KIND == 1
#define CX_I(x) : val(x)
struct T {
  int val;
  Log log;
  CX_ELEM(T, CX_I)
  constexpr ~T() {}
  constexpr int ty() const { return 1; }
  friend constexpr bool operator==(const T& a, const T& b) { return a.val == b.val; }
  friend constexpr auto operator<=>(const T& a, const T& b) { return a.val <=> b.val; }
};
#else
#define CX_I(x) : val(x)
struct T {
  int val;
  Log log;
  CX_ELEM(T, CX_I)
  constexpr virtual ~T() {}
  constexpr virtual int ty() const { return 1; }
};
#define CX_D(x) : T(x)
struct Pad {
  int pad = 1;
  constexpr virtual ~Pad() {}
  constexpr virtual int padded() const { return pad; }
};
#if VT_D2
struct D : Pad, T {
#else
struct D : T {
#endif
  int more[3] = {7, 8, 9};
  CX_ELEM(D, CX_D)
  constexpr ~D() override {}
  constexpr int ty() const override { return more[0] == 7 && more[2] == 9 ? 2 : -2; }
};
#endif

struct Res {
  int step = 0, code = 0, got = 0, want = 0;
};
enum { CExists = 1, CAlloc, CValueless, CType, CValue, CIdentity, CFresh, CBuilt, CAssigned, CArg, CSelf, CAccess, CCmp };

// step: o s t a ty v f | per slot: st al ty val origin how  (how: of the new object, or of the assignment)
constexpr int STEP = 7 + 12;

template <class C>
struct Machine {
  using A = Al<T, C>;
#if VT_KIND == 1
  using O = xyz::indirect<T, A>;
#else
  using O = xyz::polymorphic<T, A>;
#endif
  O* sl[3] = {nullptr, nullptr, nullptr};
  const T* was[3] = {nullptr, nullptr, nullptr};
  Res res;
  constexpr void bad(int code, int got, int want) {
    if (!res.code) res.code = code, res.got = got, res.want = want;
  }
  template <class U, class X>
  static constexpr O* cons1(int a, X&& x) {
#if VT_KIND == 1
    return a < 0 ? new O(std::in_place, std::forward<X>(x)) : new O(std::allocator_arg, A(a, 0), std::in_place, std::forward<X>(x));
#else
    return a < 0 ? new O(std::in_place_type<U>, std::forward<X>(x)) : new O(std::allocator_arg, A(a, 0), std::in_place_type<U>, std::forward<X>(x));
#endif
  }
  template <class X>
  static constexpr O* cons_plain(int a, X&& x) {
    return a < 0 ? new O(std::forward<X>(x)) : new O(std::allocator_arg, A(a, 0), std::forward<X>(x));
  }
  template <class U>
  constexpr O* cval(int a, int v, int f, int i) {
    if (f == 1) return cons1<U>(a, v);
    if (f == 4) {
#if VT_KIND == 1
      return a < 0 ? new O(std::in_place, {v, 77}) : new O(std::allocator_arg, A(a, 0), std::in_place, {v, 77});
#else
      return a < 0 ? new O(std::in_place_type<U>, {v, 77}) : new O(std::allocator_arg, A(a, 0), std::in_place_type<U>, {v, 77});
#endif
    }
    U x(v);
    const U& cx = x;
    O* r = nullptr;
    if (i % 2) r = f == 2 ? cons1<U>(a, cx) : f == 3 ? cons1<U>(a, std::move(x)) : cons1<U>(a, x);
    else r = f == 2 ? cons_plain(a, cx) : f == 3 ? cons_plain(a, std::move(x)) : cons_plain(a, x);
    if (x.val != (f == 3 ? 0 : v)) bad(CArg, x.val, v);
    return r;
  }
  constexpr void step(const signed char* w, int i) {
    int o = w[0], s = w[1], t = w[2], a = w[3], v = w[5], f = w[6];
    int assigns[3] = {0, 0, 0};
    for (int x = 1; x < 3; ++x) {
      was[x] = sl[x] && !sl[x]->valueless_after_move() ? &**sl[x] : nullptr;
      if (was[x]) assigns[x] = was[x]->log.assigns;
    }
    const O* ct = t ? sl[t] : nullptr;
    switch (o) {
      case 1: sl[s] = a < 0 ? new O() : new O(std::allocator_arg, A(a, 0)); break;
      case 2:
#if VT_KIND == 1
        sl[s] = cval<T>(a, v, f, i);
#else
        sl[s] = w[4] == 1 ? cval<T>(a, v, f, i) : cval<D>(a, v, f, i);
#endif
        break;
      case 3:
        if (i % 2) sl[s] = a < 0 ? new O(*ct) : new O(std::allocator_arg, A(a, 0), *ct);
        else sl[s] = a < 0 ? new O(*sl[t]) : new O(std::allocator_arg, A(a, 0), *sl[t]);
        break;
      case 4: sl[s] = a < 0 ? new O(std::move(*sl[t])) : new O(std::allocator_arg, A(a, 0), std::move(*sl[t])); break;
      case 5:
        if (i % 2 ? &(*sl[s] = *ct) != sl[s] : &(*sl[s] = *sl[t]) != sl[s]) bad(CSelf, 0, 0);
        break;
      case 6:
        if (&(*sl[s] = std::move(*sl[t])) != sl[s]) bad(CSelf, 0, 0);
        break;
#if VT_KIND == 1
      case 7: {
        T x(v);
        const T& cx = x;
        O& r = f == 1 ? *sl[s] = v : f == 2 ? *sl[s] = cx : f == 3 ? *sl[s] = std::move(x) : *sl[s] = x;
        if (&r != sl[s]) bad(CSelf, 0, 0);
        if (x.val != (f == 3 ? 0 : v)) bad(CArg, x.val, v);
        break;
      }
#endif
      case 8:
        if (i % 2) sl[s]->swap(*sl[t]);
        else swap(*sl[s], *sl[t]);
        break;
      case 9:
        delete sl[s];
        sl[s] = nullptr;
        break;
      case 10:
        if (i % 2) (**sl[s]).val = v;
        else (*sl[s])->val = v;
        break;
    }
    for (int x = 1; x < 3; ++x) {
      const signed char* e = w + 7 + 6 * (x - 1);
      if ((sl[x] != nullptr) != (e[0] != 0)) return bad(CExists, sl[x] != nullptr, e[0]);
      if (!sl[x]) continue;
      O& m = *sl[x];
      const O& c = m;
      if (c.get_allocator().uid != e[1]) bad(CAlloc, c.get_allocator().uid, e[1]);
      if (c.valueless_after_move() != (e[0] == 1)) return bad(CValueless, c.valueless_after_move(), e[0] == 1);
      if (e[0] == 1) continue;
      const T* p = &*c;
      if (&*m != p || m.operator->() != p || c.operator->() != p) bad(CAccess, 0, 0);
      if (c->ty() != e[2]) bad(CType, c->ty(), e[2]);
      if (c->val != e[3]) bad(CValue, c->val, e[3]);
      if (e[4] == 9) {
        if (p == was[1] || p == was[2]) bad(CFresh, 0, 0);
        if (p->log.built != e[5]) bad(CBuilt, p->log.built, e[5]);
        if (p->log.assigns) bad(CAssigned, p->log.assigns, 0);
      } else {
        if (p != was[e[4]]) return bad(CIdentity, 0, e[4]);
        if (p->log.assigns != assigns[e[4]] + (e[5] ? 1 : 0)) bad(CAssigned, p->log.assigns, assigns[e[4]] + (e[5] ? 1 : 0));
        if (e[5] && p->log.assigned != e[5]) bad(CAssigned, p->log.assigned, e[5]);
      }
    }
#if VT_KIND == 1
    for (int x = 1; x < 3; ++x)
      for (int y = 1; y < 3; ++y)
        if (sl[x] && sl[y]) {
          int p = rank(w, x), q = rank(w, y);
          const O &l = *sl[x], &r = *sl[y];
          if ((l == r) != (p == q) || (l != r) != (p != q) || (l < r) != (p < q) || (l > r) != (p > q) || (l <= r) != (p <= q) || (l >= r) != (p >= q) ||
              (l <=> r) != (p <=> q))
            bad(CCmp, p, q);
          if (q >= 0) {
            const T& z = *r;
            if ((l == z) != (p == q) || (l <=> z) != (p <=> q)) bad(CCmp, p, q);
          }
        }
#endif
  }
  static constexpr int rank(const signed char* w, int x) { return w[7 + 6 * (x - 1)] == 1 ? -1 : w[7 + 6 * (x - 1) + 3]; }
  constexpr Res run(const signed char* w, int n) {
    int i = 0;
    for (; i < n && !res.code; ++i) {
      step(w + STEP * i, i);
      res.step = i;
    }
    delete sl[1];
    delete sl[2];
    return res;
  }
};
template <class C>
constexpr Res go(const signed char* w, int n) {
  return Machine<C>().run(w, n);
}
}  // namespace cx

#define CX_DEF(name, a, b, c, d, e) constexpr cx::Res res_##name = cx::go<cx::Cfg<a, b, c, d, e>>(name, sizeof(name) / cx::STEP);
VT_WALKS(CX_DEF)

int main() {
#define CX_RUN(name, a, b, c, d, e)                                                                                              \
  {                                                                                                                              \
    cx::Res r = cx::go<cx::Cfg<a, b, c, d, e>>(name, sizeof(name) / cx::STEP);                                                   \
    std::printf("{\"walk\":\"" #name "\",\"steps\":%d,\"ct\":[%d,%d,%d,%d],\"rt\":[%d,%d,%d,%d]}\n", int(sizeof(name) / cx::STEP), \
                res_##name.step, res_##name.code, res_##name.got, res_##name.want, r.step, r.code, r.got, r.want);               \
  }
  VT_WALKS(CX_RUN)
  std::printf("{\"done\":1}\n");
}
