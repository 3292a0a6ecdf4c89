// The real operations, one virtual call each.
#ifndef VT_RUNNER_H
#define VT_RUNNER_H
#include "own.h"
#include "driver.h"

namespace vt {

template <class Own>
struct SlotBox {
  alignas(Own) unsigned char mem[sizeof(Own)];
  bool alive = false;
  Own& get() { return *reinterpret_cast<Own*>(mem); }
  const Own& cget() const { return *reinterpret_cast<const Own*>(mem); }
};

#define VT_TRY(...)                                          \
  try {                                                      \
    __VA_ARGS__;                                             \
  } catch (Fault & f) {                                      \
    exc = f.serial == W().serial ? f.kind : -1;              \
  } catch (...) {                                            \
    exc = -2;                                                \
  }

template <class U>
const U* addr_any(const U& u) { return std::addressof(u); }

// how the harness makes an allocator with a given identity, and reads the identity back
template <class A>
struct AlOps {
  static A make(int a) { return A(static_cast<unsigned>(a), 0); }
  static int uid(const A& a) { return static_cast<int>(a.uid); }
};

// CA: copies may be assigned; DEF: the owner can be default constructed
template <class Own, class A, bool CA = true, bool DEF = true>
struct RunnerBase : Runner {
  using T = typename Own::value_type;
  SlotBox<Own> sl[MAXS + 1];
  void reset() override {
    for (auto& s : sl) s.alive = false;  // abandoned, not destroyed: the arena is recycled
  }
  static A al(int a) { return AlOps<A>::make(a); }
  void cdef(const OpR&, void*, int&, std::false_type) { std::abort(); }
  void cdef(const OpR& op, void* where, int& exc, std::true_type) {
    W().begin(op.k);
    if (op.a < 0) {
      VT_TRY(::new (where) Own())
    } else {
      A a = al(op.a);
      VT_TRY(::new (where) Own(std::allocator_arg, a))
    }
  }
  void acopy(const OpR&, int, int&, std::vector<Mismatch>&, std::false_type) { std::abort(); }
  void acopy(const OpR& op, int variant, int& exc, std::vector<Mismatch>& mm, std::true_type) {
    Own* s = &sl[op.s].get();
    Own* t = &sl[op.t].get();
    const Own* ct = t;
    W().begin(op.k);
    Own* r = s;
    if (variant % 3 == 0) {
      VT_TRY(r = std::addressof(*s = *ct))
    } else if (variant % 3 == 1) {
      VT_TRY(r = std::addressof(*s = *t))
    } else {
      VT_TRY(r = std::addressof(*s = static_cast<const Own&&>(*ct)))
    }
    if (r != s) mm.push_back(Mismatch{"returns-self", "assignment does not return *this", op.s});
  }

  // the parts common to both classes
  int exec(const OpR& op, int variant, std::vector<Mismatch>& mm) override {
    int exc = 0;
    Own* s = &sl[op.s].get();
    Own* t = op.t ? &sl[op.t].get() : nullptr;
    const Own* ct = t;
    void* where = sl[op.s].mem;
    switch (op.o) {
      case CDEF:
        cdef(op, where, exc, std::integral_constant<bool, DEF>());
        sl[op.s].alive = exc == 0;
        break;
      case CVAL:
        exc = cval(op, variant, where, mm);
        sl[op.s].alive = exc == 0;
        break;
      case CCOPY:
        W().begin(op.k);
        if (op.a < 0) {
          if (variant % 3 == 0) {
            VT_TRY(::new (where) Own(*ct))
          } else if (variant % 3 == 1) {
            VT_TRY(::new (where) Own(*t))
          } else {
            VT_TRY(::new (where) Own(static_cast<const Own&&>(*ct)))
          }
        } else {
          A a = al(op.a);
          if (variant % 3 == 0) {
            VT_TRY(::new (where) Own(std::allocator_arg, a, *ct))
          } else if (variant % 3 == 1) {
            VT_TRY(::new (where) Own(std::allocator_arg, a, *t))
          } else {
            VT_TRY(::new (where) Own(std::allocator_arg, a, static_cast<const Own&&>(*ct)))
          }
        }
        sl[op.s].alive = exc == 0;
        break;
      case CMOVE:
        W().begin(op.k);
        if (op.a < 0) {
          VT_TRY(::new (where) Own(std::move(*t)))
        } else {
          A a = al(op.a);
          VT_TRY(::new (where) Own(std::allocator_arg, a, std::move(*t)))
        }
        sl[op.s].alive = exc == 0;
        break;
      case ACOPY:
        acopy(op, variant, exc, mm, std::integral_constant<bool, CA>());
        break;
      case AMOVE: {
        W().begin(op.k);
        Own* r = s;
        VT_TRY(r = std::addressof(*s = std::move(*t)))
        if (r != s) mm.push_back(Mismatch{"returns-self", "assignment does not return *this", op.s});
        break;
      }
      case AVAL:
        exc = aval(op, variant, mm);
        break;
      case SWAP:
        W().begin(op.k);
        if (variant % 2) {
          VT_TRY(s->swap(*t))
        } else {
          VT_TRY(swap(*s, *t))
        }
        break;
      case KILL:
        W().begin(op.k);
        VT_TRY(s->~Own())
        sl[op.s].alive = false;
        break;
      case MUT:
        W().begin(op.k);
        write(*s, op.v, variant);
        break;
    }
    W().end();
    if (op.k && !W().fired) mm.push_back(Mismatch{"no-fault-point", "the step that should have failed was never reached", 0});
    return exc;
  }
  virtual int cval(const OpR& op, int variant, void* where, std::vector<Mismatch>& mm) = 0;
  virtual int aval(const OpR&, int, std::vector<Mismatch>&) { return 0; }
  virtual void write(Own& o, int v, int variant) = 0;

  // an external argument of type U must be read, not changed (or moved from) as its category says
  template <class U>
  void check_arg(const U& u, const OpR& op, int exc, std::vector<Mismatch>& mm) {
    int want = op.v;
    if (op.f == 3 && exc == 0 && U::mv == 0) want = MF;
    if (u.val() != want) mm.push_back(Mismatch{"argument", "argument of form " + std::to_string(op.f) + " has value " + std::to_string(u.val()) + " afterwards", op.s});
  }
};

#if VT_KIND == 1
template <int MV, class C>
struct IndRunner final : RunnerBase<xyz::indirect<E<MV>, Al<E<MV>, C>>, Al<E<MV>, C>> {
  using Elem = E<MV>;
  using A = Al<Elem, C>;
  using Own = xyz::indirect<Elem, A>;
  using Base = RunnerBase<Own, A>;
  using Base::sl;
  int cval(const OpR& op, int variant, void* where, std::vector<Mismatch>& mm) override {
    int exc = 0;
    A a = Base::al(op.a < 0 ? 0 : op.a);
    bool ext = op.a >= 0;
    if (op.f == 1) {
      W().begin(op.k);
      if (ext) {
        VT_TRY(::new (where) Own(std::allocator_arg, a, VT_INPLACE, op.v))
      } else {
        VT_TRY(::new (where) Own(VT_INPLACE, op.v))
      }
      return exc;
    }
    if (op.f == 4) {
      W().begin(op.k);
      if (ext) {
        VT_TRY(::new (where) Own(std::allocator_arg, a, VT_INPLACE, {op.v, 77}))
      } else {
        VT_TRY(::new (where) Own(VT_INPLACE, {op.v, 77}))
      }
      return exc;
    }
    Elem x(op.v);
    const Elem& cx = x;
    bool inp = variant % 2;
    W().begin(op.k);
    if (op.f == 2) {
      if (ext) {
        if (inp) {
          VT_TRY(::new (where) Own(std::allocator_arg, a, VT_INPLACE, cx))
        } else {
          VT_TRY(::new (where) Own(std::allocator_arg, a, cx))
        }
      } else {
        if (inp) {
          VT_TRY(::new (where) Own(VT_INPLACE, cx))
        } else {
          VT_TRY(::new (where) Own(cx))
        }
      }
    } else if (op.f == 3) {
      if (ext) {
        if (inp) {
          VT_TRY(::new (where) Own(std::allocator_arg, a, VT_INPLACE, std::move(x)))
        } else {
          VT_TRY(::new (where) Own(std::allocator_arg, a, std::move(x)))
        }
      } else {
        if (inp) {
          VT_TRY(::new (where) Own(VT_INPLACE, std::move(x)))
        } else {
          VT_TRY(::new (where) Own(std::move(x)))
        }
      }
    } else {
      if (ext) {
        if (inp) {
          VT_TRY(::new (where) Own(std::allocator_arg, a, VT_INPLACE, x))
        } else {
          VT_TRY(::new (where) Own(std::allocator_arg, a, x))
        }
      } else {
        if (inp) {
          VT_TRY(::new (where) Own(VT_INPLACE, x))
        } else {
          VT_TRY(::new (where) Own(x))
        }
      }
    }
    W().rec = false;
    Base::check_arg(x, op, exc, mm);
    return exc;
  }
  int aval(const OpR& op, int, std::vector<Mismatch>& mm) override {
    int exc = 0;
    Own& s = sl[op.s].get();
    Own* r = &s;
    if (op.f == 1) {
      W().begin(op.k);
      VT_TRY(r = std::addressof(s = op.v))
    } else {
      Elem x(op.v);
      const Elem& cx = x;
      W().begin(op.k);
      if (op.f == 2) {
        VT_TRY(r = std::addressof(s = cx))
      } else if (op.f == 3) {
        VT_TRY(r = std::addressof(s = std::move(x)))
      } else {
        VT_TRY(r = std::addressof(s = x))
      }
      W().rec = false;
      Base::check_arg(x, op, exc, mm);
    }
    if (r != &s) mm.push_back(Mismatch{"returns-self", "assignment does not return *this", op.s});
    return exc;
  }
  void write(Own& o, int v, int variant) override {
    if (variant % 3 == 0)
      (*o).setv(v);
    else if (variant % 3 == 1)
      o->setv(v);
    else
      (*std::move(o)).setv(v);
  }
  Seen look(int s, std::vector<Mismatch>& mm) override {
    Seen r;
    if (!sl[s].alive) return r;
    Own& o = sl[s].get();
    const Own& c = sl[s].cget();
    r.al = AlOps<A>::uid(c.get_allocator());
    r.st = c.valueless_after_move() ? 1 : 2;
    if (r.st == 1) return r;
    const Elem* p = std::addressof(*c);
    if (std::addressof(*o) != p || o.operator->() != p || c.operator->() != p || addr_any(*std::move(o)) != p ||
        addr_any(*std::move(c)) != p)
      mm.push_back(Mismatch{"access", "accessors disagree about the owned object", s});
    r.obj = p;
    auto it = W().objs.find(p);
    if (it == W().objs.end() || !it->second.alive) {
      mm.push_back(Mismatch{"dangling", "owner refers to a dead object", s});
      r.good = false;
      return r;
    }
    r.ty = it->second.ty;
    r.val = p->val();
    return r;
  }
  bool has_cmp() const override { return true; }
  template <class X, class Y>
  static int relation(const X& x, const Y& y, std::vector<Mismatch>& mm, int s) {
    bool eq = x == y, ne = x != y, lt = x < y, gt = x > y, le = x <= y, ge = x >= y;
    bool eq2 = y == x, ne2 = y != x, lt2 = y < x, gt2 = y > x, le2 = y <= x, ge2 = y >= x;
    int r = eq ? 2 : lt ? 1 : gt ? 3 : 0;
    bool ok = ne == !eq && (eq + lt + gt == 1) && le == (lt || eq) && ge == (gt || eq) && eq2 == eq && ne2 == ne && lt2 == gt && gt2 == lt && le2 == ge && ge2 == le;
    if (!ok) {
      char b[160];
      std::snprintf(b, sizeof b, "inconsistent operators ==%d !=%d <%d >%d <=%d >=%d, reversed ==%d !=%d <%d >%d <=%d >=%d", eq, ne, lt, gt, le, ge, eq2, ne2, lt2, gt2, le2, ge2);
      mm.push_back(Mismatch{"cmp", b, s});
    }
    return r;
  }
  int rel(int s, int t, std::vector<Mismatch>& mm) override { return relation(sl[s].cget(), sl[t].cget(), mm, s); }
  int relv(int s, int v, std::vector<Mismatch>& mm) override {
    W().rec = false;
    Elem x(v);
    W().rec = true;
    const Elem& cx = x;
    int r = relation(sl[s].cget(), cx, mm, s);
    W().rec = false;  // x's own end of life is not part of the comparison
    return r;
  }
  void hash(int s, const Seen& seen, std::vector<Mismatch>& mm) override {
    std::size_t h = std::hash<Own>()(sl[s].cget());
    W().rec = false;
    std::size_t want = static_cast<std::size_t>(-1);
    bool known = false;
    if (seen.st == 2) {
      Elem x(seen.val);
      want = std::hash<Elem>()(x);
      known = true;
    } else {
      if (!have_vh) {
        have_vh = true;
        vh = h;
      }
      want = vh;
      known = true;
    }
    if (known && h != want) mm.push_back(Mismatch{"hash", "hash differs from the owned value's hash (or is not constant when valueless)", s});
  }
  bool have_vh = false;
  std::size_t vh = 0;
};
#else
template <int MV, bool VD, class C>
struct PolyRunner final : RunnerBase<xyz::polymorphic<PB<MV, VD>, Al<PB<MV, VD>, C>>, Al<PB<MV, VD>, C>> {
  using P = PB<MV, VD>;
  using A = Al<P, C>;
  using Own = xyz::polymorphic<P, A>;
  using Base = RunnerBase<Own, A>;
  using Base::sl;
  int tymap[5] = {0, 1, 2, 3, 4};  // abstract type -> concrete
  int unmap(int concrete) const {
    for (int i = 1; i < 5; ++i)
      if (tymap[i] == concrete) return i;
    return 100 + concrete;
  }
  template <class U>
  int build(const OpR& op, int variant, void* where, std::vector<Mismatch>& mm) {
    int exc = 0;
    A a = Base::al(op.a < 0 ? 0 : op.a);
    bool ext = op.a >= 0;
    if (op.f == 1) {
      W().begin(op.k);
      if (ext) {
        VT_TRY(::new (where) Own(std::allocator_arg, a, VT_INPLACE_TYPE(U), op.v))
      } else {
        VT_TRY(::new (where) Own(VT_INPLACE_TYPE(U), op.v))
      }
      return exc;
    }
    if (op.f == 4) {
      W().begin(op.k);
      if (ext) {
        VT_TRY(::new (where) Own(std::allocator_arg, a, VT_INPLACE_TYPE(U), {op.v, 77}))
      } else {
        VT_TRY(::new (where) Own(VT_INPLACE_TYPE(U), {op.v, 77}))
      }
      return exc;
    }
    U x(op.v);
    const U& cx = x;
    bool inp = variant % 2;
    W().begin(op.k);
    if (op.f == 2) {
      if (ext) {
        if (inp) {
          VT_TRY(::new (where) Own(std::allocator_arg, a, VT_INPLACE_TYPE(U), cx))
        } else {
          VT_TRY(::new (where) Own(std::allocator_arg, a, cx))
        }
      } else {
        if (inp) {
          VT_TRY(::new (where) Own(VT_INPLACE_TYPE(U), cx))
        } else {
          VT_TRY(::new (where) Own(cx))
        }
      }
    } else if (op.f == 3) {
      if (ext) {
        if (inp) {
          VT_TRY(::new (where) Own(std::allocator_arg, a, VT_INPLACE_TYPE(U), std::move(x)))
        } else {
          VT_TRY(::new (where) Own(std::allocator_arg, a, std::move(x)))
        }
      } else {
        if (inp) {
          VT_TRY(::new (where) Own(VT_INPLACE_TYPE(U), std::move(x)))
        } else {
          VT_TRY(::new (where) Own(std::move(x)))
        }
      }
    } else {
      if (ext) {
        if (inp) {
          VT_TRY(::new (where) Own(std::allocator_arg, a, VT_INPLACE_TYPE(U), x))
        } else {
          VT_TRY(::new (where) Own(std::allocator_arg, a, x))
        }
      } else {
        if (inp) {
          VT_TRY(::new (where) Own(VT_INPLACE_TYPE(U), x))
        } else {
          VT_TRY(::new (where) Own(x))
        }
      }
    }
    W().rec = false;
    Base::check_arg(x, op, exc, mm);
    return exc;
  }
  int cval(const OpR& op, int variant, void* where, std::vector<Mismatch>& mm) override {
    switch (tymap[op.ty]) {
      case 1:
        return build<P>(op, variant, where, mm);
      case 2:
        return build<D1<MV, VD>>(op, variant, where, mm);
      case 3:
        return build<D2<MV, VD>>(op, variant, where, mm);
      default:
        return build<D3<MV, VD>>(op, variant, where, mm);
    }
  }
  void write(Own& o, int v, int variant) override {
    if (variant % 2)
      (*o).set(v);
    else
      o->set(v);
  }
  Seen look(int s, std::vector<Mismatch>& mm) override {
    Seen r;
    if (!sl[s].alive) return r;
    Own& o = sl[s].get();
    const Own& c = sl[s].cget();
    r.al = AlOps<A>::uid(c.get_allocator());
    r.st = c.valueless_after_move() ? 1 : 2;
    if (r.st == 1) return r;
    const P* p = std::addressof(*c);
    if (std::addressof(*o) != p || o.operator->() != p || c.operator->() != p)
      mm.push_back(Mismatch{"access", "accessors disagree about the owned object", s});
    const void* full = nullptr;
    for (auto& ob : W().objs)
      if (ob.second.alive && ob.second.base == p && !ob.second.external) full = ob.first;
    if (!full) {
      mm.push_back(Mismatch{"dangling", "owner does not refer to the base subobject of a live object", s});
      r.good = false;
      return r;
    }
    r.obj = full;
    int cty = W().objs[full].ty;
    r.ty = unmap(cty);
    if (c->id() != cty || p->self() != full)
      mm.push_back(Mismatch{"dynamic", "virtual calls do not reach the owned object's own type", s});
    r.val = p->get();
    return r;
  }
};
#endif

}  // namespace vt
#endif
