// One translation unit (C25), after its #include lines.  -DVT_UNIT=n VT_SEQ="..." VT_V VT_STD VT_IND VT_POL VT_FC VT_TAG VT_TRK (0|1)
#include "units.h"
#if VT_FC
#ifdef __has_include
#if __has_include(<version>)
#include <version>
#endif
#endif
#if __cplusplus >= 201703L
#include <optional>
#endif
#if __cplusplus >= 202002L
#include <compare>
#endif
#endif
namespace {
using u::E;
#if VT_V == 20
#define VT_IN_PLACE std::in_place
template <class X> using Type = std::in_place_type_t<X>;
#else
#if VT_IND
#define VT_IN_PLACE ::xyz::in_place_t{}
#endif
#if VT_POL
template <class X> using Type = ::xyz::in_place_type_t<X>;
#endif
#endif
const char* const SEQ = VT_SEQ;
void layout(const char* q, long val) { std::printf("{\"f\":\"layout\",\"unit\":\"%s\",\"std\":%d,\"q\":\"%s\",\"val\":%ld}\n", SEQ, VT_STD, q, val); }
void feature(const char* q, bool got, bool avail) { std::printf("{\"f\":\"feature\",\"unit\":\"%s\",\"std\":%d,\"q\":\"%s\",\"got\":%s,\"avail\":%s}\n", SEQ, VT_STD, q, got ? "true" : "false", avail ? "true" : "false"); }
template <class X> struct Box { char c; X x; };
template <class X> void owner(const char* q) {
  char b[80];
  std::snprintf(b, sizeof b, "sizeof %s", q);
  layout(b, sizeof(X));
  std::snprintf(b, sizeof b, "alignof %s", q);
  layout(b, alignof(X));
  std::snprintf(b, sizeof b, "as a member after a char %s", q);
  layout(b, sizeof(Box<X>));
}
// where the pointer to what the owner owns lies in the owner
template <class X> void where(const char* q, X& x, const void* p) {
  char b[80];
  std::snprintf(b, sizeof b, "position of the pointer in %s", q);
  long at = -1;
  for (std::size_t n = 0; n + sizeof(void*) <= sizeof(X); n += sizeof(void*))
    if (std::memcmp(reinterpret_cast<const char*>(&x) + n, &p, sizeof p) == 0) at = static_cast<long>(n);
  layout(b, at);
}
template <class X> void take(void* p, int* got, int* copy, bool* uid) {
  X& x = *static_cast<X*>(p);
  const void* id = std::addressof(*x);
  *got = x->who();
  {
    X c(x);
    *copy = c->who();
    X m(std::move(x));
    *uid = static_cast<const void*>(std::addressof(*m)) == id && x.valueless_after_move();
    using std::swap;
    swap(c, m);
    x = std::move(c);
    *uid = *uid && static_cast<const void*>(std::addressof(*x)) == id;
  }
  x.~X();
}
#if VT_IND
template <class A> void give_i(void* p, int v) { new (p)::xyz::indirect<E, A>(std::allocator_arg, A{}, VT_IN_PLACE, v); }
template <int N> void give_i_al(void* p, int v) { new (p)::xyz::indirect<E, u::Al<E, N>>(std::allocator_arg, u::Al<E, N>(1), VT_IN_PLACE, v); }
void give_i_fat(void* p, int v) { new (p)::xyz::indirect<E, u::Fat<E>>(std::allocator_arg, u::Fat<E>(v), VT_IN_PLACE, v); }
#if VT_TAG
void give_i_tag(void* p, int v) { new (p)::xyz::indirect<E, ::xyz::TaggedAllocator<E>>(std::allocator_arg, ::xyz::TaggedAllocator<E>(static_cast<std::size_t>(v)), VT_IN_PLACE, v); }
#endif
#endif
#if VT_POL
template <class A> void give_p(void* p, int v) { new (p)::xyz::polymorphic<E, A>(std::allocator_arg, A{}, Type<u::D>{}, v); }
template <int N> void give_p_al(void* p, int v) { new (p)::xyz::polymorphic<E, u::Al<E, N>>(std::allocator_arg, u::Al<E, N>(1), Type<u::D>{}, v); }
void give_p_fat(void* p, int v) { new (p)::xyz::polymorphic<E, u::Fat<E>>(std::allocator_arg, u::Fat<E>(v), Type<u::D>{}, v); }
#if VT_TAG
void give_p_tag(void* p, int v) { new (p)::xyz::polymorphic<E, ::xyz::TaggedAllocator<E>>(std::allocator_arg, ::xyz::TaggedAllocator<E>(static_cast<std::size_t>(v)), Type<u::D>{}, v); }
#endif
#endif
void facts() {
#if VT_IND
  owner<::xyz::indirect<E>>("indirect std");
  owner<::xyz::indirect<E, u::Al<E, 0>>>("indirect empty");
  owner<::xyz::indirect<E, u::Al<E, 1>>>("indirect empty 1");
  owner<::xyz::indirect<E, u::Al<E, 2>>>("indirect empty 2");
  owner<::xyz::indirect<E, u::Al<E, 3>>>("indirect empty 3");
  owner<::xyz::indirect<E, u::Al<E, 4>>>("indirect empty 4");
  owner<::xyz::indirect<E, u::Fin<E>>>("indirect final");
  owner<::xyz::indirect<E, u::Fat<E>>>("indirect fat");
  {
    ::xyz::indirect<E, u::Fat<E>> x(std::allocator_arg, u::Fat<E>(1), VT_IN_PLACE, 1);
    where("indirect fat", x, std::addressof(*x));
    ::xyz::indirect<E, u::Fin<E>> y(std::allocator_arg, u::Fin<E>(), VT_IN_PLACE, 1);
    where("indirect final", y, std::addressof(*y));
  }
#endif
#if VT_POL
  owner<::xyz::polymorphic<E>>("polymorphic std");
  owner<::xyz::polymorphic<E, u::Al<E, 0>>>("polymorphic empty");
  owner<::xyz::polymorphic<E, u::Al<E, 1>>>("polymorphic empty 1");
  owner<::xyz::polymorphic<E, u::Al<E, 2>>>("polymorphic empty 2");
  owner<::xyz::polymorphic<E, u::Al<E, 3>>>("polymorphic empty 3");
  owner<::xyz::polymorphic<E, u::Al<E, 4>>>("polymorphic empty 4");
  owner<::xyz::polymorphic<E, u::Fin<E>>>("polymorphic final");
  owner<::xyz::polymorphic<E, u::Fat<E>>>("polymorphic fat");
#endif
#if VT_TAG
  owner<::xyz::TaggedAllocator<E>>("TaggedAllocator");
#endif
#if VT_TRK
  owner<::xyz::TrackingAllocator<E>>("TrackingAllocator");
#endif
#if VT_FC
  feature("optional",
#ifdef XYZ_HAS_STD_OPTIONAL
          true,
#else
          false,
#endif
#if defined(__cpp_lib_optional)
          true
#else
          false
#endif
  );
  feature("in_place_type_t",
#ifdef XYZ_HAS_STD_IN_PLACE_TYPE_T
          true,
#else
          false,
#endif
#if defined(__cpp_lib_optional)
          true
#else
          false
#endif
  );
  feature("in_place_t",
#ifdef XYZ_HAS_STD_IN_PLACE_T
          true,
#else
          false,
#endif
#if defined(__cpp_lib_optional)
          true
#else
          false
#endif
  );
  feature("deduction",
#ifdef XYZ_HAS_TEMPLATE_ARGUMENT_DEDUCTION
          true,
#else
          false,
#endif
#if defined(__cpp_deduction_guides)
          true
#else
          false
#endif
  );
  feature("memory_resource",
#ifdef XYZ_HAS_STD_MEMORY_RESOURCE
          true,
#else
          false,
#endif
#if defined(__cpp_lib_memory_resource)
          true
#else
          false
#endif
  );
  feature("three_way",
#ifdef XYZ_HAS_STD_THREE_WAY_COMPARISON
          true,
#else
          false,
#endif
#if defined(__cpp_impl_three_way_comparison)
          true
#else
          false
#endif
  );
#endif
}
struct Register {
  Register() {
    u::Unit x{};
    x.name = SEQ;
    x.std = VT_STD;
    x.facts = facts;
#if VT_IND
    x.give[0] = give_i<std::allocator<E>>; x.take[0] = take<::xyz::indirect<E>>;
    x.give[10] = give_i_al<1>; x.take[10] = take<::xyz::indirect<E, u::Al<E, 1>>>;
    x.give[11] = give_i_al<2>; x.take[11] = take<::xyz::indirect<E, u::Al<E, 2>>>;
    x.give[12] = give_i_al<3>; x.take[12] = take<::xyz::indirect<E, u::Al<E, 3>>>;
    x.give[13] = give_i_al<4>; x.take[13] = take<::xyz::indirect<E, u::Al<E, 4>>>;
    x.give[1] = give_i<u::Al<E, 0>>; x.take[1] = take<::xyz::indirect<E, u::Al<E, 0>>>;
    x.give[2] = give_i<u::Fin<E>>; x.take[2] = take<::xyz::indirect<E, u::Fin<E>>>;
    x.give[3] = give_i_fat; x.take[3] = take<::xyz::indirect<E, u::Fat<E>>>;
#if VT_TAG
    x.give[4] = give_i_tag; x.take[4] = take<::xyz::indirect<E, ::xyz::TaggedAllocator<E>>>;
#endif
#endif
#if VT_POL
    x.give[5] = give_p<std::allocator<E>>; x.take[5] = take<::xyz::polymorphic<E>>;
    x.give[14] = give_p_al<1>; x.take[14] = take<::xyz::polymorphic<E, u::Al<E, 1>>>;
    x.give[15] = give_p_al<2>; x.take[15] = take<::xyz::polymorphic<E, u::Al<E, 2>>>;
    x.give[16] = give_p_al<3>; x.take[16] = take<::xyz::polymorphic<E, u::Al<E, 3>>>;
    x.give[17] = give_p_al<4>; x.take[17] = take<::xyz::polymorphic<E, u::Al<E, 4>>>;
    x.give[6] = give_p<u::Al<E, 0>>; x.take[6] = take<::xyz::polymorphic<E, u::Al<E, 0>>>;
    x.give[7] = give_p<u::Fin<E>>; x.take[7] = take<::xyz::polymorphic<E, u::Fin<E>>>;
    x.give[8] = give_p_fat; x.take[8] = take<::xyz::polymorphic<E, u::Fat<E>>>;
#if VT_TAG
    x.give[9] = give_p_tag; x.take[9] = take<::xyz::polymorphic<E, ::xyz::TaggedAllocator<E>>>;
#endif
#endif
    u::add(x);
  }
} reg;
}  // namespace
