// Every constructor with systematically varied arguments (C16).
// cat: 1 lvalue, 2 const lvalue, 3 rvalue, 4 const rvalue.
#include "own.h"
#include "facts.h"
#include <cstring>
#include <initializer_list>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
using namespace vt;
static int allocs, hooks, argtouch, badplace, builds, frees;
static std::string how, cats, vals;
static void zero() { allocs = hooks = argtouch = badplace = builds = frees = 0; how = cats = vals = ""; }
static const void* block;
static std::size_t block_n;
template <class X, bool D = true>
struct Al {
  using value_type = X;
  using propagate_on_container_copy_assignment = std::true_type;
  template <class Y> struct rebind { using other = Al<Y, D>; };
  int uid;
  template <bool DD = D, typename std::enable_if<DD, int>::type = 0>
  Al() : uid(0) {}
  explicit Al(int u, int) : uid(u) {}
  template <class Y>
  Al(const Al<Y, D>& o) : uid(o.uid) {}
  X* allocate(std::size_t n) {
    ++allocs;
    X* p = std::allocator<X>().allocate(n);
    std::memset(static_cast<void*>(p), 0xCD, n * sizeof(X));
    block = p;
    block_n = n * sizeof(X);
    return p;
  }
  void deallocate(X* p, std::size_t n) { ++frees; std::allocator<X>().deallocate(p, n); }
  template <class U, class... As>
  void construct(U* p, As&&... as) { ++hooks; ::new (static_cast<void*>(p)) U(std::forward<As>(as)...); }
  friend bool operator==(const Al& a, const Al& b) { return a.uid == b.uid; }
  friend bool operator!=(const Al& a, const Al& b) { return a.uid != b.uid; }
};
struct Arg {
  int v;
  explicit Arg(int x) : v(x) {}
  Arg(const Arg& o) : v(o.v) { ++argtouch; }
  Arg(Arg&& o) : v(o.v) { o.v = 0; ++argtouch; }
  Arg& operator=(const Arg&) { ++argtouch; return *this; }
};
template <class A> struct CatOf;
template <> struct CatOf<Arg&> { static const int v = 1; };
template <> struct CatOf<const Arg&> { static const int v = 2; };
template <> struct CatOf<Arg> { static const int v = 3; };
template <> struct CatOf<const Arg> { static const int v = 4; };
struct B {
  int tyv = 1;
  B() { built("default", this); }
  B(const B& o) : tyv(o.tyv) { built("copy", this); }
  B(B& o) : tyv(o.tyv) { built("nccopy", this); }
  B(B&& o) : tyv(o.tyv) { built("move", this); }
  B(const B&& o) : tyv(o.tyv) { built("constrv", this); }
  virtual ~B() = default;
  virtual int ty() const { return 1; }
  struct Quiet {};
  explicit B(Quiet) {}
  static void built(const char* h, const void* p) {
    ++builds;
    how += how.empty() ? h : std::string("+") + h;
    if (!(p >= block && p < static_cast<const char*>(block) + block_n)) ++badplace;
  }
};
static void add(std::string& s, int x) { s += (s.empty() ? "" : ",") + std::to_string(x); }
template <bool C>
struct Rec : B {
  template <class... As>
  static void rec(As&&... as) {
    int dummy[] = {0, (add(cats, CatOf<As>::v), add(vals, as.v), 0)...};
    (void)dummy;
  }
  Rec() : B(Quiet{}) { built("default", this); }
  template <class A0, class... As, typename std::enable_if<std::is_same<typename std::decay<A0>::type, Arg>::value, int>::type = 0>
  explicit Rec(A0&& a, As&&... as) : B(Quiet{}) { built("args", this); rec(std::forward<A0>(a), std::forward<As>(as)...); }
  template <class... As>
  Rec(std::initializer_list<int> l, As&&... as) : B(Quiet{}) { built("ilist", this); add(cats, 10); add(vals, static_cast<int>(l.size()) * 100 + *l.begin()); rec(std::forward<As>(as)...); }
  Rec(const Rec&) : B(Quiet{}) { built("copy", this); }
  Rec(Rec&) : B(Quiet{}) { built("nccopy", this); }
  Rec(Rec&&) : B(Quiet{}) { built("move", this); }
  Rec(const Rec&&) : B(Quiet{}) { built("constrv", this); }
  int ty() const override { return 2; }
};
// parentheses and braces build different things; values must be value-initialised
struct Par : B {
  Par(int a, int b) : B(Quiet{}) { built("paren", this); add(vals, a); add(vals, b); }
  Par(std::initializer_list<int> l) : B(Quiet{}) { built("ilist", this); add(vals, static_cast<int>(l.size())); }
  template <std::size_t N>
  explicit Par(const char (&)[N]) : B(Quiet{}) { built("array", this); add(vals, static_cast<int>(N)); }
  explicit Par(std::unique_ptr<int> p) : B(Quiet{}) { built("moveonly", this); add(vals, *p); }
  explicit Par(int& r) : B(Quiet{}) { built("ref", this); add(vals, ++r); }
  explicit Par(std::nullptr_t) : B(Quiet{}) { built("null", this); }
  Par(const Par&) : B(Quiet{}) { built("copy", this); }
  int ty() const override { return 3; }
};
// takes anything at all, including owners and in-place tags
struct Anything : B {
  Anything() : B(Quiet{}) { built("default", this); }
  template <class X, typename std::enable_if<!std::is_base_of<Anything, typename std::decay<X>::type>::value, int>::type = 0>
  Anything(X&&) : B(Quiet{}) { built("anything", this); }
  template <class X, typename std::enable_if<!std::is_base_of<Anything, typename std::decay<X>::type>::value, int>::type = 0>
  Anything& operator=(X&&) { built("assign-anything", this); return *this; }
  Anything(const Anything&) : B(Quiet{}) { built("copy", this); }
  Anything(Anything&&) : B(Quiet{}) { built("move", this); }
  Anything& operator=(const Anything&) { how += "assign"; return *this; }
  Anything& operator=(Anything&&) { how += "massign"; return *this; }
};
template <class T, bool D = true>
#if VT_KIND == 1
using Own = xyz::indirect<T, Al<T, D>>;
#define INP(U) VT_INPLACE
#else
using Own = xyz::polymorphic<T, Al<T, D>>;
#define INP(U) VT_INPLACE_TYPE(U)
#endif
template <class O>
void put(const char* form, const char* ty, const O& o, int wantty, const std::string& want, const std::string& wantcats, const std::string& wantvals, int wantuid) {
  int a = allocs, h = hooks, t = argtouch, p = badplace, b = builds;
  std::string hw = how, c = cats, v = vals;
  Fact("cons").i("kind", VT_KIND).t("form", form).t("ty", ty).i("dyn", o->ty()).i("wantdyn", wantty).t("how", hw).t("want", want).raw("cats", "[" + c + "]").raw("wantcats", "[" + wantcats + "]")
      .raw("vals", "[" + v + "]").raw("wantvals", "[" + wantvals + "]").i("builds", b).i("allocs", a).i("frees", frees).i("hooks", h).i("args", t).i("misplaced", p).b("valueless", o.valueless_after_move())
      .i("uid", o.get_allocator().uid).i("wantuid", wantuid);
}
template <int C> struct Pick;
template <> struct Pick<1> { static Arg& get(Arg& a) { return a; } };
template <> struct Pick<2> { static const Arg& get(Arg& a) { return a; } };
template <> struct Pick<3> { static Arg&& get(Arg& a) { return static_cast<Arg&&>(a); } };
template <> struct Pick<4> { static const Arg&& get(Arg& a) { return static_cast<const Arg&&>(a); } };
// built from its relatives: the requested class is built whatever the argument is
struct Ch : B {
  Ch() : B(Quiet{}) { built("default", this); }
  Ch(const Ch&) : B(Quiet{}) { built("copy", this); }
  Ch(Ch&) : B(Quiet{}) { built("nccopy", this); }
  Ch(Ch&&) : B(Quiet{}) { built("move", this); }
  Ch(const Ch&&) : B(Quiet{}) { built("constrv", this); }
  explicit Ch(const B& b) : B(Quiet{}) { built("frombase", this); add(vals, b.ty()); }
  template <class X>
  explicit Ch(const Own<X>& o) : B(Quiet{}) { built("owner", this); add(vals, o->ty()); }
  template <class X>
  explicit Ch(Own<X>&& o) : B(Quiet{}) { built("owner&&", this); add(vals, o->ty()); }
  template <class X>
  explicit Ch(std::allocator_arg_t, const Al<X>& a, int v) : B(Quiet{}) { built("allocator", this); add(vals, a.uid); add(vals, v); }
  template <class X, typename std::enable_if<std::is_same<X, typename std::decay<decltype(INP(Ch))>::type>::value, int>::type = 0>
  explicit Ch(X, int v) : B(Quiet{}) { built("tag", this); add(vals, v); }
  template <class X, typename std::enable_if<std::is_same<X, typename std::decay<decltype(INP(Ch))>::type>::value, int>::type = 0>
  explicit Ch(X) : B(Quiet{}) { built("tag", this); }
  explicit Ch(int a, int b, int c, int d, int e, int f, int g, int h, int i, int j) : B(Quiet{}) { built("many", this); for (int x : {a, b, c, d, e, f, g, h, i, j}) add(vals, x); }
  explicit Ch(int (*f)(int)) : B(Quiet{}) { built("function", this); add(vals, f(4)); }
  explicit Ch(int Pick<1>::*) : B(Quiet{}) { built("member", this); }
  explicit Ch(const volatile long& r) : B(Quiet{}) { built("volatile", this); add(vals, static_cast<int>(r)); }
  int ty() const override { return 4; }
};
struct Dh : Ch {
  Dh() = default;
  Dh(const Dh& o) : Ch(static_cast<const Ch&>(o)) {}
  int ty() const override { return 5; }
};
static int twice(int x) { return 2 * x; }
template <class O, class U>
void related(const char* ty, U&& u, const std::string& how_, const std::string& vals_, int n) {
  Al<Ch> al(2, 0);
  { zero(); O o(INP(Ch), std::forward<U>(u)); put("inplace", ty, o, 4, how_, "", vals_, 0); }
  if (n > 1) { zero(); O o(std::allocator_arg, al, INP(Ch), std::forward<U>(u)); put("ext-inplace", ty, o, 4, how_, "", vals_, 2); }
}
using R = Rec<true>;
#if VT_KIND == 1
using OR = Own<R>;
#else
using OR = Own<B>;
#endif
template <int... Cs>
void args() {
  Arg a[5] = {Arg(11), Arg(12), Arg(13), Arg(14), Arg(15)};
  std::string wc, wv;
  int i = 0;
  for (int c : {Cs...}) { add(wc, c); add(wv, a[i++].v); }
  int k = 0;
  Al<R> al(2, 0);
  {
    zero();
    k = 0;
    OR o{INP(R), Pick<Cs>::get(a[k++])...};  // braces: left to right
    put("inplace", "rec", o, 2, "args", wc, wv, 0);
  }
  {
    zero();
    k = 0;
    OR o{std::allocator_arg, al, INP(R), Pick<Cs>::get(a[k++])...};
    put("ext-inplace", "rec", o, 2, "args", wc, wv, 2);
  }
  {
    zero();
    k = 0;
    OR o{INP(R), {7, 8, 9}, Pick<Cs>::get(a[k++])...};
    put("ilist", "rec", o, 2, "ilist", "10," + wc, "307," + wv, 0);
  }
  {
    zero();
    k = 0;
    OR o{std::allocator_arg, al, INP(R), {7, 8, 9}, Pick<Cs>::get(a[k++])...};
    put("ext-ilist", "rec", o, 2, "ilist", "10," + wc, "307," + wv, 2);
  }
}
template <class U, class O>
void value(const char* ty, int wantty) {
  U u;
  const U& c = u;
  Al<U> al(2, 0);
  { zero(); O o(u); put("value", ty, o, wantty, "nccopy", "", "", 0); }
  { zero(); O o(c); put("value", ty, o, wantty, "copy", "", "", 0); }
  { zero(); O o(std::move(u)); put("value", ty, o, wantty, "move", "", "", 0); }
  { zero(); O o(std::move(c)); put("value", ty, o, wantty, "constrv", "", "", 0); }
  { zero(); O o(std::allocator_arg, al, u); put("ext-value", ty, o, wantty, "nccopy", "", "", 2); }
  { zero(); O o(std::allocator_arg, al, c); put("ext-value", ty, o, wantty, "copy", "", "", 2); }
  { zero(); O o(std::allocator_arg, al, std::move(u)); put("ext-value", ty, o, wantty, "move", "", "", 2); }
  { zero(); O o(std::allocator_arg, al, std::move(c)); put("ext-value", ty, o, wantty, "constrv", "", "", 2); }
  { zero(); O o(INP(U), u); put("inplace", ty, o, wantty, "nccopy", "", "", 0); }
  { zero(); O o(INP(U), c); put("inplace", ty, o, wantty, "copy", "", "", 0); }
  { zero(); O o(INP(U), std::move(u)); put("inplace", ty, o, wantty, "move", "", "", 0); }
  { zero(); O o(INP(U), std::move(c)); put("inplace", ty, o, wantty, "constrv", "", "", 0); }
  { zero(); O o(std::allocator_arg, al, INP(U), u); put("ext-inplace", ty, o, wantty, "nccopy", "", "", 2); }
  { zero(); O o(std::allocator_arg, al, INP(U), c); put("ext-inplace", ty, o, wantty, "copy", "", "", 2); }
  { zero(); O o(std::allocator_arg, al, INP(U), std::move(u)); put("ext-inplace", ty, o, wantty, "move", "", "", 2); }
  { zero(); O o(std::allocator_arg, al, INP(U), std::move(c)); put("ext-inplace", ty, o, wantty, "constrv", "", "", 2); }
  { zero(); O o(INP(U)); put("inplace", ty, o, wantty, "default", "", "", 0); }
  { zero(); O o(std::allocator_arg, al, INP(U)); put("ext-inplace", ty, o, wantty, "default", "", "", 2); }
  { zero(); O o{INP(U), {5}}; put("ilist-only", ty, o, wantty, wantty == 2 ? "ilist" : "?", "10", "105", 0); }
}
template <class U, class O>
void deflt(const char* ty, int wantty) {
  Al<U> al(2, 0);
  { zero(); O o; put("default", ty, o, wantty, "default", "", "", 0); }
  { zero(); O o = O(); put("default", ty, o, wantty, "default", "", "", 0); }
  { zero(); O o(std::allocator_arg, al); put("ext-default", ty, o, wantty, "default", "", "", 2); }
}
template <class O, class T>
void plain(const char* ty) {  // scalars are value-initialised
  Al<T> al(2, 0);
  auto show = [&](const char* form, const O& o, bool zeroed, int uid) {
    Fact("zero").i("kind", VT_KIND).t("form", form).t("ty", ty).b("zero", zeroed).i("allocs", allocs).i("uid", o.get_allocator().uid).i("wantuid", uid);
  };
  auto isz = [](const T& t) { unsigned char z[sizeof(T)] = {}; return std::memcmp(&t, z, sizeof(T)) == 0; };
  { zero(); O o; show("default", o, isz(*o), 0); }
  { zero(); O o(INP(T)); show("inplace", o, isz(*o), 0); }
  { zero(); O o(std::allocator_arg, al); show("ext-default", o, isz(*o), 2); }
  { zero(); O o(std::allocator_arg, al, INP(T)); show("ext-inplace", o, isz(*o), 2); }
}
struct Pod { int a; int e; double b; char c[8]; };  // no padding: compared bytewise
struct NC { NC() = default; NC(const NC&) = delete; NC(NC&&) = default; };                 // move-only
struct NN { explicit NN(int) {} NN(const NN&) = delete; NN& operator=(const NN&) = delete; int v = 4; };  // pinned
struct ND { explicit ND(int) {} };                                                          // no default
struct Un { };                                                                              // unrelated
#if VT_V == 14
#define VT_TAGS xyz
#else
#define VT_TAGS std
#endif
template <class X> struct TagRef { using type = X; };
template <> struct TagRef<std::allocator_arg_t> { using type = const std::allocator_arg_t&; };
#if VT_KIND == 1
template <> struct TagRef<VT_TAGS::in_place_t> { using type = const VT_TAGS::in_place_t&; };
#else
template <class X> struct TagRef<VT_TAGS::in_place_type_t<X>> { using type = const VT_TAGS::in_place_type_t<X>&; };
#endif
template <class X> struct TagOf { using N = typename std::remove_cv<X>::type; using type = typename std::conditional<std::is_same<N, typename TagRef<N>::type>::value, X, typename TagRef<N>::type>::type; };
// also with every category of the tags, and of the allocator or one it converts from
template <class O, class... As>
struct Cats {
  static void put(const std::string&, const std::string&, bool) {}
};
static void avail(const std::string& form, const std::string& ty, bool own, bool got) { Fact("avail").i("kind", VT_KIND).t("form", form).t("ty", ty).b("own", own).b("got", got); }
template <class O, class X, bool D, class... As>
struct Cats<O, std::allocator_arg_t, Al<X, D>, As...> {
  static void put(const std::string& form, const std::string& ty, bool own) {
    using G = std::allocator_arg_t;
    avail(form + " const&", ty, own, std::is_constructible<O, G, const Al<X, D>&, As...>::value);
    avail(form + " &", ty, own, std::is_constructible<O, G&, Al<X, D>&, As...>::value);
    avail(form + " const&&", ty, own, std::is_constructible<O, const G&, const Al<X, D>, As...>::value);
    avail(form + " converted", ty, own, std::is_constructible<O, G, const Al<char, D>&, As...>::value);
    avail(form + " converted&&", ty, own, std::is_constructible<O, const G, Al<char, D>, As...>::value);
  }
};
template <class O, class... As>
void av(const char* form, const char* ty, bool own) {
  avail(form, ty, own, std::is_constructible<O, As...>::value);
  avail(std::string(form) + " const tags", ty, own, std::is_constructible<O, typename TagOf<As>::type...>::value);
  Cats<O, As...>::put(form, ty, own);
}
template <class O>
void sink(O);
template <class O, class = void> struct DefaultImplicit : std::false_type {};
template <class O> struct DefaultImplicit<O, decltype(sink<O>({}))> : std::true_type {};
template <class O, class A, class = void> struct List1 : std::false_type {};
template <class O, class A> struct List1<O, A, decltype(sink<O>({std::declval<A>()}))> : std::true_type {};
template <class O, class A, class C, class = void> struct List2 : std::false_type {};
template <class O, class A, class C> struct List2<O, A, C, decltype(sink<O>({std::declval<A>(), std::declval<C>()}))> : std::true_type {};
template <class O, class A, class C, class D, class = void> struct List3 : std::false_type {};
template <class O, class A, class C, class D> struct List3<O, A, C, D, decltype(sink<O>({std::declval<A>(), std::declval<C>(), std::declval<D>()}))> : std::true_type {};
template <class O, class A, class C, class D, class E, class = void> struct List4 : std::false_type {};
template <class O, class A, class C, class D, class E> struct List4<O, A, C, D, E, decltype(sink<O>({std::declval<A>(), std::declval<C>(), std::declval<D>(), std::declval<E>()}))> : std::true_type {};
static void ex(const char* form, bool implicit) { Fact("explicit").i("kind", VT_KIND).t("form", form).b("implicit", implicit); }
int main() {
  args<1>(); args<2>(); args<3>(); args<4>();
  args<1, 1>(); args<1, 2>(); args<1, 3>(); args<1, 4>(); args<2, 1>(); args<2, 2>(); args<2, 3>(); args<2, 4>();
  args<3, 1>(); args<3, 2>(); args<3, 3>(); args<3, 4>(); args<4, 1>(); args<4, 2>(); args<4, 3>(); args<4, 4>();
  args<1, 2, 3>(); args<3, 2, 1>(); args<4, 3, 3>(); args<3, 3, 3>(); args<1, 2, 3, 4>(); args<4, 3, 2, 1, 3>();
  value<R, OR>("rec", 2);
  deflt<B, Own<B>>("base", 1);
#if VT_KIND == 1
  deflt<R, OR>("rec", 2);
  plain<Own<int>, int>("int");
  plain<Own<Pod>, Pod>("pod");
  plain<Own<int*>, int*>("ptr");
  using OP = Own<Par>;
  using OA = Own<Anything>;
#else
  { R u; zero(); const B& b = u; Own<B> o(b); put("value", "base", o, 1, "copy", "", "", 0); }  // the static type is what is asked for
  plain<Own<Pod>, Pod>("pod");
  using OP = Own<B>;
  using OA = Own<Anything>;
#endif
  Al<Par> al(2, 0);
  int n = 5;
  { zero(); OP o(INP(Par), 3, 7); put("paren", "par", o, 3, "paren", "", "3,7", 0); }
  { zero(); OP o(std::allocator_arg, al, INP(Par), 3, 7); put("ext-paren", "par", o, 3, "paren", "", "3,7", 2); }
  { zero(); OP o(INP(Par), {3, 7}); put("braces", "par", o, 3, "ilist", "", "2", 0); }
  { zero(); OP o(std::allocator_arg, al, INP(Par), {3, 7, 8}); put("ext-braces", "par", o, 3, "ilist", "", "3", 2); }
  { zero(); OP o(INP(Par), "abc"); put("array", "par", o, 3, "array", "", "4", 0); }
  { zero(); OP o(std::allocator_arg, al, INP(Par), "abc"); put("ext-array", "par", o, 3, "array", "", "4", 2); }
  { zero(); OP o(INP(Par), std::unique_ptr<int>(new int(6))); put("moveonly", "par", o, 3, "moveonly", "", "6", 0); }
  { zero(); OP o(INP(Par), n); put("ref", "par", o, 3, "ref", "", "6", 0); }
  { zero(); OP o(std::allocator_arg, al, INP(Par), n); put("ext-ref", "par", o, 3, "ref", "", "7", 2); }
  { zero(); OP o(INP(Par), nullptr); put("null", "par", o, 3, "null", "", "", 0); }
  {
#if VT_KIND == 1
    using OC = Own<Ch>;
    using OB = Own<Ch>;
#else
    using OC = Own<B>;
    using OB = Own<Ch>;
#endif
    Al<Ch> ac(2, 0);
    Dh d;
    const Dh& cd = d;
    B b;
    related<OC>("from derived lvalue", d, "nccopy", "", 2);
    related<OC>("from const derived", cd, "copy", "", 2);
    related<OC>("from derived rvalue", std::move(d), "move", "", 2);
    related<OC>("from const derived rvalue", std::move(cd), "constrv", "", 2);
    related<OC>("from base lvalue", b, "frombase", "1", 2);
    related<OC>("from base rvalue", std::move(b), "frombase", "1", 2);
    related<OC>("from sibling", R(), "frombase", "2", 2);
    OC oc(INP(Ch));
    OB ob(INP(Ch));
    const OC& coc = oc;
    related<OC>("from owner", coc, "owner", "4", 2);
    related<OC>("from owner rvalue", std::move(oc), "owner&&", "4", 2);
    related<OC>("from other owner", static_cast<const OB&>(ob), "owner", "4", 2);
    long vol = 6;
    related<OC>("function", twice, "function", "8", 2);
    related<OC>("volatile", static_cast<const volatile long&>(vol), "volatile", "6", 2);
    related<OC>("member pointer", static_cast<int Pick<1>::*>(nullptr), "member", "", 2);
    related<OC>("tag", INP(Ch), "tag", "", 2);
    { zero(); OC o(INP(Ch), INP(Ch), 8); put("inplace", "tag", o, 4, "tag", "", "8", 0); }
    { zero(); OC o(std::allocator_arg, ac, INP(Ch), INP(Ch), 8); put("ext-inplace", "tag", o, 4, "tag", "", "8", 2); }
    { zero(); OC o(INP(Ch), std::allocator_arg, ac, 8); put("inplace", "allocator", o, 4, "allocator", "", "2,8", 0); }
    { zero(); OC o(std::allocator_arg, ac, INP(Ch), std::allocator_arg, ac, 8); put("ext-inplace", "allocator", o, 4, "allocator", "", "2,8", 2); }
    { zero(); OC o(INP(Ch), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); put("inplace", "many", o, 4, "many", "", "1,2,3,4,5,6,7,8,9,10", 0); }
    { zero(); OC o(std::allocator_arg, ac, INP(Ch), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10); put("ext-inplace", "many", o, 4, "many", "", "1,2,3,4,5,6,7,8,9,10", 2); }
#if VT_KIND == 2
    { zero(); Own<Ch> o(INP(Dh), cd); put("inplace", "derived", o, 5, "copy", "", "", 0); }
    { zero(); Own<Ch> o(static_cast<const Ch&>(cd)); put("value", "static type", o, 4, "copy", "", "", 0); }
    { zero(); Own<Ch> o(cd); put("value", "derived", o, 5, "copy", "", "", 0); }
    { zero(); Own<B> o(cd); put("value", "derived", o, 5, "copy", "", "", 0); }
    { zero(); Own<B> o(std::allocator_arg, Al<B>(2, 0), cd); put("ext-value", "derived", o, 5, "copy", "", "", 2); }
#endif
  }
  // accept-anything elements: the owner's own special operations still win
  auto any = [](const char* form, const std::string& want, int wa) {
    Fact("anything").i("kind", VT_KIND).t("form", form).t("how", how).t("want", want).i("allocs", allocs).i("wantallocs", wa);
  };
  Al<Anything> a2(2, 0), a0;
  {
    zero(); OA a(INP(Anything)); any("inplace-none", "default", 1);
    zero(); OA a1(INP(Anything), 3); any("inplace-one", "anything", 1);
    zero(); OA b(a); any("copy", "copy", 1);
    zero(); OA c(static_cast<const OA&>(a)); any("copy-const", "copy", 1);
    zero(); OA d(std::move(b)); any("move", "", 0);
    zero(); OA e(std::allocator_arg, a2, a); any("ext-copy", "copy", 1);
    zero(); OA e2(std::allocator_arg, a2, static_cast<const OA&>(a)); any("ext-copy-const", "copy", 1);
    zero(); OA f(std::allocator_arg, a2, std::move(c)); any("ext-move-ne", "move", 1);
    zero(); OA g(std::allocator_arg, a0, std::move(d)); any("ext-move", "", 0);
    zero(); OA h(std::allocator_arg, a2); any("ext-default", "default", 1);
    zero(); f = e; any("copy-assign", VT_KIND == 1 ? "assign" : "copy", VT_KIND == 1 ? 0 : 1);
    zero(); f = static_cast<const OA&>(e); any("copy-assign-const", VT_KIND == 1 ? "assign" : "copy", VT_KIND == 1 ? 0 : 1);
    zero(); f = std::move(e); any("move-assign", "", 0);
    zero(); OA i(Anything{}); any("value", "default+move", 1);
#if VT_KIND == 1
    zero(); f = Anything(); any("value-assign", "defaultmassign", 0);
    zero(); f = 3; any("value-assign-int", "assign-anything", 0);
#endif
  }
  using AR = std::allocator_arg_t;
#if VT_KIND == 1
  using IP = decltype(VT_INPLACE);
  using IPc = typename std::decay<IP>::type;
  av<Own<int>, IPc, int>("inplace", "int(int)", std::is_constructible<int, int>::value);
  av<Own<int>, IPc, Un>("inplace", "int(Un)", std::is_constructible<int, Un>::value);
  av<Own<int>, IPc, int, int>("inplace", "int(int,int)", std::is_constructible<int, int, int>::value);
  av<Own<std::string>, IPc, int, char>("inplace", "string(int,char)", std::is_constructible<std::string, int, char>::value);
  av<Own<std::string>, IPc, Un>("inplace", "string(Un)", false);
  av<Own<ND>, IPc>("inplace", "nd()", false);
  av<Own<ND>, IPc, int>("inplace", "nd(int)", true);
  av<Own<NC>, IPc, NC>("inplace", "nc(nc&&)", true);
  av<Own<NC>, IPc, const NC&>("inplace", "nc(const nc&)", false);
  av<Own<NN>, IPc, int>("inplace", "nn(int)", true);
  av<Own<int>, AR, Al<int>, IPc, int>("ext-inplace", "int(int)", true);
  av<Own<int>, AR, Al<int>, IPc, Un>("ext-inplace", "int(Un)", false);
  av<Own<ND>, AR, Al<ND>, IPc>("ext-inplace", "nd()", false);
  av<Own<ND>, AR, Al<ND>, IPc, int>("ext-inplace", "nd(int)", true);
  av<Own<std::vector<int>>, IPc, std::initializer_list<int>>("ilist", "vector({})", true);
  av<Own<std::vector<int>>, AR, Al<std::vector<int>>, IPc, std::initializer_list<int>>("ext-ilist", "vector({})", true);
  av<Own<std::vector<int>>, IPc, std::initializer_list<Un>>("ilist", "vector({Un})", false);
  av<Own<int>, int>("value", "int(int)", true);
  av<Own<int>, Un>("value", "int(Un)", false);
  av<Own<NC>, NC>("value", "nc(nc&&)", true);
  av<Own<int>, AR, Al<int>, int>("ext-value", "int(int)", true);
  av<Own<int>, AR, Al<int>, Un>("ext-value", "int(Un)", false);
  av<Own<int, false>, IPc, int>("inplace", "int(int)/no default allocator", false);
  av<Own<int, false>>("default", "int()/no default allocator", false);
  av<Own<int, false>, AR, Al<int, false>, IPc, int>("ext-inplace", "int(int)/no default allocator", true);
  av<Own<int, false>, AR, Al<int, false>>("ext-default", "int()/no default allocator", true);
  av<Own<int, false>, AR, Al<int, false>, int>("ext-value", "int(int)/no default allocator", true);
  av<Own<int>>("default", "int()", true);
  av<Own<NC>, const NC&>("value", "nc(const nc&)", false);
  av<Own<NC>, AR, Al<NC>, const NC&>("ext-value", "nc(const nc&)", false);
  av<Own<NC>, AR, Al<NC>, NC>("ext-value", "nc(nc&&)", true);
  av<Own<int, false>, int>("value", "int(int)/no default allocator", false);
  av<Own<int, false>, const int&>("value", "int(const int&)/no default allocator", false);
#if VT_V == 20
  av<Own<std::string>, const char*>("value", "string(const char*)", true);
  av<Own<std::string>, AR, Al<std::string>, const char*>("ext-value", "string(const char*)", true);
#endif
  ex("value", std::is_convertible<int, Own<int>>::value);
  ex("inplace", List2<Own<int>, IPc, int>::value);
  using IL = std::initializer_list<int>;
  using ILu = std::initializer_list<Un>;
  using V = std::vector<int>;
  av<Own<V>, AR, Al<V>, IPc, ILu>("ext-ilist", "vector({Un})", false);
  av<Own<V>, IPc, IL, Un>("ilist", "vector({}, Un)", false);
  av<Own<V>, AR, Al<V>, IPc, IL, Un>("ext-ilist", "vector({}, Un)", false);
  av<Own<V>, IPc, IL, std::allocator<int>>("ilist", "vector({}, allocator)", true);
  av<Own<V>, AR, Al<V>, IPc, IL, std::allocator<int>>("ext-ilist", "vector({}, allocator)", true);
  av<Own<int>, IPc, IL>("ilist", "int({})", false);
  av<Own<int>, AR, Al<int>, IPc, IL>("ext-ilist", "int({})", false);
  av<Own<V, false>, IPc, IL>("ilist", "vector({})/no default allocator", false);
  av<Own<V, false>, AR, Al<V, false>, IPc, IL>("ext-ilist", "vector({})/no default allocator", true);
  av<Own<NC>, NC&>("value", "nc(nc&)", false);
  av<Own<NC>, AR, Al<NC>, NC&>("ext-value", "nc(nc&)", false);
  av<Own<NC>, AR, Al<NC>, IPc, const NC&>("ext-inplace", "nc(const nc&)", false);
  av<Own<NC>, AR, Al<NC>, IPc, NC>("ext-inplace", "nc(nc&&)", true);
  av<Own<int>, AR, Al<int>, IPc, int, int>("ext-inplace", "int(int,int)", false);
  av<Own<std::string>, IPc>("inplace", "string()", true);
  struct OnlyTag { explicit OnlyTag(IPc) {} };  // the tag asks for in-place construction, it is not a value
  av<Own<OnlyTag>, IPc>("inplace", "onlytag()", false);
  av<Own<OnlyTag>, IPc&>("inplace &", "onlytag()", false);
  av<Own<OnlyTag>, const IPc&>("inplace const&", "onlytag()", false);
  av<Own<OnlyTag>, IPc, IPc>("inplace", "onlytag(tag)", true);
  av<Own<OnlyTag>, AR, Al<OnlyTag>, IPc>("ext-inplace", "onlytag()", false);
  av<Own<OnlyTag>, AR, Al<OnlyTag>, IPc&>("ext-inplace &", "onlytag()", false);
  av<Own<OnlyTag>, AR, Al<OnlyTag>, const IPc&>("ext-inplace const&", "onlytag()", false);
  av<Own<std::string>, AR, Al<std::string>, IPc>("ext-inplace", "string()", true);
  av<Own<std::string>, AR, Al<std::string>, IPc, int, char>("ext-inplace", "string(int,char)", true);
  av<Own<std::string>, AR, Al<std::string>, IPc, const std::string&, int, int>("ext-inplace", "string(string,int,int)", true);
  av<Own<std::string>, AR, Al<std::string>>("ext-default", "string()", true);
  av<Own<V>, AR, Al<V>, const Own<V>&>("ext-copy", "vector", true);
  av<Own<V>, AR, Al<V>, Own<V>&>("ext-copy", "vector&", true);
  av<Own<V>, AR, Al<V>, const Own<V>>("ext-copy", "const vector&&", true);
  av<Own<V>, AR, Al<V>, Own<V>>("ext-move", "vector", true);
  av<Own<int>, AR, Un, int>("ext-value", "not an allocator", false);
  av<Own<int>, AR, Un>("ext-default", "not an allocator", false);
  ex("ext-value", List3<Own<int>, AR, Al<int>, int>::value);
  ex("inplace-none", List1<Own<int>, IPc>::value);
#if VT_V == 20
  ex("ilist", List2<Own<V>, IPc, IL>::value);
  ex("ilist+", List3<Own<V>, IPc, IL, std::allocator<int>>::value);
  ex("ext-inplace-none", List3<Own<int>, AR, Al<int>, IPc>::value);
  ex("ext-inplace", List4<Own<int>, AR, Al<int>, IPc, int>::value);
  ex("ext-ilist", List4<Own<V>, AR, Al<V>, IPc, IL>::value);
  ex("default", DefaultImplicit<Own<int>>::value);
  ex("ext-default", List2<Own<int>, AR, Al<int>>::value);
#endif
  {
    zero(); Own<NN> o(VT_INPLACE, 4); 
    Fact("pinned").i("kind", 1).i("v", o->v).i("allocs", allocs);
    zero(); Own<NC> q(VT_INPLACE, NC()); Own<NC> r(std::move(q));
    Fact("pinned").i("kind", 1).i("v", r.valueless_after_move() ? 0 : 4).i("allocs", allocs);
  }
#ifdef __cpp_deduction_guides
  auto cta = [](const char* form, bool ok) { Fact("ctad").t("form", form).b("ok", ok); };
  std::string str = "x";
  const std::string cstr = "y";
  cta("int", std::is_same<decltype(xyz::indirect(5)), xyz::indirect<int>>::value);
  cta("string rvalue", std::is_same<decltype(xyz::indirect(std::string("x"))), xyz::indirect<std::string>>::value);
  cta("string lvalue", std::is_same<decltype(xyz::indirect(str)), xyz::indirect<std::string>>::value);
  cta("string const lvalue", std::is_same<decltype(xyz::indirect(cstr)), xyz::indirect<std::string>>::value);
  cta("alloc int", std::is_same<decltype(xyz::indirect(std::allocator_arg, Al<char>(2, 0), 5)), xyz::indirect<int, Al<int>>>::value);
  cta("alloc string", std::is_same<decltype(xyz::indirect(std::allocator_arg, std::allocator<int>(), str)), xyz::indirect<std::string>>::value);
  cta("alloc same", std::is_same<decltype(xyz::indirect(std::allocator_arg, Al<std::string>(2, 0), cstr)), xyz::indirect<std::string, Al<std::string>>>::value);
  xyz::indirect one(5);
  xyz::indirect<int, Al<int>> two(std::allocator_arg, Al<int>(2, 0), 6);
  cta("copy", std::is_same<decltype(xyz::indirect(one)), xyz::indirect<int>>::value);
  cta("move", std::is_same<decltype(xyz::indirect(std::move(one))), xyz::indirect<int>>::value);
  cta("copy alloc", std::is_same<decltype(xyz::indirect(two)), xyz::indirect<int, Al<int>>>::value);
  xyz::indirect d(std::allocator_arg, Al<char>(2, 0), 5);
  cta("alloc value", *d == 5 && d.get_allocator().uid == 2);
#endif
#else
  av<Own<B>, decltype(VT_INPLACE_TYPE(R)), Arg>("inplace", "rec(arg)", true);
  av<Own<B>, decltype(VT_INPLACE_TYPE(R)), Un>("inplace", "rec(Un)", false);
  av<Own<B>, decltype(VT_INPLACE_TYPE(Un))>("inplace", "unrelated", false);
  av<Own<R>, decltype(VT_INPLACE_TYPE(B))>("inplace", "base for derived", false);
  av<Own<B>, decltype(VT_INPLACE_TYPE(Par)), int, int>("inplace", "par(int,int)", true);
  av<Own<B>, decltype(VT_INPLACE_TYPE(Par))>("inplace", "par()", false);
  struct Mo : B { Mo() = default; Mo(const Mo&) = delete; Mo(Mo&&) = default; };
  av<Own<B>, decltype(VT_INPLACE_TYPE(Mo))>("inplace", "move-only", false);
  av<Own<B>, Mo>("value", "move-only", false);
  av<Own<B>, AR, Al<B>, decltype(VT_INPLACE_TYPE(R)), Arg>("ext-inplace", "rec(arg)", true);
  av<Own<B>, AR, Al<B>, decltype(VT_INPLACE_TYPE(R)), Un>("ext-inplace", "rec(Un)", false);
  av<Own<B>, AR, Al<B>, decltype(VT_INPLACE_TYPE(Un))>("ext-inplace", "unrelated", false);
  av<Own<B>, AR, Al<B>, decltype(VT_INPLACE_TYPE(Mo))>("ext-inplace", "move-only", false);
  av<Own<B>, decltype(VT_INPLACE_TYPE(Par)), std::initializer_list<int>>("ilist", "par({})", true);
  av<Own<B>, decltype(VT_INPLACE_TYPE(Par)), std::initializer_list<Un>>("ilist", "par({Un})", false);
  av<Own<B>, R>("value", "rec&&", true);
  av<Own<B>, const R&>("value", "const rec&", true);
  av<Own<B>, R&>("value", "rec&", true);
  av<Own<B>, Un>("value", "unrelated", false);
  av<Own<B>, int>("value", "int", false);
  av<Own<R>, B>("value", "base for derived", false);
  av<Own<B>, AR, Al<B>, R>("ext-value", "rec&&", true);
  av<Own<B>, AR, Al<B>, Un>("ext-value", "unrelated", false);
  av<Own<B, false>, AR, Al<B, false>, R>("ext-value", "rec&&/no default allocator", true);
  av<Own<B, false>, AR, Al<B, false>>("ext-default", "base/no default allocator", true);
  av<Own<B, false>>("default", "base/no default allocator", false);
  av<Own<B>>("default", "base", true);
  av<Own<B, false>, R>("value", "rec&&/no default allocator", false);
  av<Own<B, false>, const R&>("value", "const rec&/no default allocator", false);
  av<Own<B, false>, decltype(VT_INPLACE_TYPE(R)), Arg>("inplace", "rec(arg)/no default allocator", false);
  av<Own<B, false>, AR, Al<B, false>, decltype(VT_INPLACE_TYPE(R)), Arg>("ext-inplace", "rec(arg)/no default allocator", true);
  struct Priv : private B { Priv() = default; };
  struct L : B {}; struct Rt : B {}; struct Twice : L, Rt {};
  av<Own<B>, Priv>("value", "private base", false);
  av<Own<B>, const Priv&>("value", "const private base", false);
  av<Own<B>, AR, Al<B>, Priv>("ext-value", "private base", false);
  av<Own<B>, decltype(VT_INPLACE_TYPE(Priv))>("inplace", "private base", false);
  av<Own<B>, AR, Al<B>, decltype(VT_INPLACE_TYPE(Priv))>("ext-inplace", "private base", false);
  av<Own<B>, Twice>("value", "ambiguous base", false);
  av<Own<B>, AR, Al<B>, Twice>("ext-value", "ambiguous base", false);
  av<Own<B>, decltype(VT_INPLACE_TYPE(Twice))>("inplace", "ambiguous base", false);
  av<Own<B>, AR, Al<B>, decltype(VT_INPLACE_TYPE(Twice))>("ext-inplace", "ambiguous base", false);
  av<Own<B>, decltype(VT_INPLACE_TYPE(L))>("inplace", "one base", true);
  ex("value", std::is_convertible<R, Own<B>>::value);
  ex("inplace", List2<Own<B>, decltype(VT_INPLACE_TYPE(R)), Arg>::value);
  using IL = std::initializer_list<int>;
  using ILu = std::initializer_list<Un>;
  using V = std::vector<int>;
  using PR = decltype(VT_INPLACE_TYPE(R));
  using PPar = decltype(VT_INPLACE_TYPE(Par));
  struct MoL : B { MoL(IL) {} MoL(const MoL&) = delete; MoL(MoL&&) = default; };
  av<Own<B>, PPar, IL, Un>("ilist", "par({}, Un)", false);
  av<Own<B>, AR, Al<B>, PPar, IL>("ext-ilist", "par({})", true);
  av<Own<B>, AR, Al<B>, PPar, ILu>("ext-ilist", "par({Un})", false);
  av<Own<B>, AR, Al<B>, PPar, IL, Un>("ext-ilist", "par({}, Un)", false);
  av<Own<B>, PR, IL, Arg>("ilist", "rec({}, arg)", true);
  av<Own<B>, AR, Al<B>, PR, IL, Arg>("ext-ilist", "rec({}, arg)", true);
  av<Own<B>, decltype(VT_INPLACE_TYPE(V)), IL>("ilist", "unrelated", false);
  av<Own<B>, AR, Al<B>, decltype(VT_INPLACE_TYPE(V)), IL>("ext-ilist", "unrelated", false);
  av<Own<B>, decltype(VT_INPLACE_TYPE(MoL)), IL>("ilist", "move-only", false);
  av<Own<B>, AR, Al<B>, decltype(VT_INPLACE_TYPE(MoL)), IL>("ext-ilist", "move-only", false);
  av<Own<B, false>, PPar, IL>("ilist", "par({})/no default allocator", false);
  av<Own<B, false>, AR, Al<B, false>, PPar, IL>("ext-ilist", "par({})/no default allocator", true);
  av<Own<Par>, decltype(VT_INPLACE_TYPE(B)), IL>("ilist", "base for derived", false);
  av<Own<R>, AR, Al<R>, decltype(VT_INPLACE_TYPE(B))>("ext-inplace", "base for derived", false);
  av<Own<B>, AR, Al<B>, decltype(VT_INPLACE_TYPE(Par))>("ext-inplace", "par()", false);
  // the tag names the very class, without qualifiers
  av<Own<B>, decltype(VT_INPLACE_TYPE(const R)), Arg>("inplace", "const rec", false);
  av<Own<B>, decltype(VT_INPLACE_TYPE(R&)), R&>("inplace", "rec&", false);
  av<Own<B>, decltype(VT_INPLACE_TYPE(const R)), IL>("ilist", "const rec", false);
  av<Own<B>, AR, Al<B>, decltype(VT_INPLACE_TYPE(const R)), Arg>("ext-inplace", "const rec", false);
  av<Own<B>, AR, Al<B>, decltype(VT_INPLACE_TYPE(R&)), R&>("ext-inplace", "rec&", false);
  av<Own<B>, AR, Al<B>, decltype(VT_INPLACE_TYPE(const R)), IL>("ext-ilist", "const rec", false);
  av<Own<B>, Mo&>("value", "move-only&", false);
  av<Own<B>, const Mo&>("value", "const move-only&", false);
  av<Own<B>, AR, Al<B>, Mo>("ext-value", "move-only", false);
  av<Own<B>, AR, Al<B>, Mo&>("ext-value", "move-only&", false);
  av<Own<B>, AR, Al<B>, const Mo&>("ext-value", "const move-only&", false);
  av<Own<R>, AR, Al<R>, B>("ext-value", "base for derived", false);
  av<Own<B>, PR>("inplace", "rec()", true);
  av<Own<B>, AR, Al<B>, PR>("ext-inplace", "rec()", true);
  av<Own<B>, AR, Al<B>, PPar, int, int>("ext-inplace", "par(int,int)", true);
  av<Own<B>, AR, Al<B>, PR, Arg, Arg, Arg>("ext-inplace", "rec(arg,arg,arg)", true);
  av<Own<B>, AR, Al<B>, const Own<B>&>("ext-copy", "base", true);
  av<Own<B>, AR, Al<B>, Own<B>&>("ext-copy", "base&", true);
  av<Own<B>, AR, Al<B>, const Own<B>>("ext-copy", "const base&&", true);
  av<Own<B>, AR, Al<B>, Own<B>>("ext-move", "base", true);
  av<Own<B>, AR, Un, R>("ext-value", "not an allocator", false);
  av<Own<B>, AR, Un>("ext-default", "not an allocator", false);
  ex("ext-value", List3<Own<B>, AR, Al<B>, R>::value);
  ex("inplace-none", List1<Own<B>, PR>::value);
  ex("ilist", List2<Own<B>, PPar, IL>::value);
#if VT_V == 20
  ex("ext-inplace+", List4<Own<B>, AR, Al<B>, PR, Arg>::value);
  ex("ext-ilist", List4<Own<B>, AR, Al<B>, PPar, IL>::value);
#endif
#if VT_V == 20
  ex("default", DefaultImplicit<Own<B>>::value);
  ex("ext-inplace", List3<Own<B>, AR, Al<B>, decltype(VT_INPLACE_TYPE(R))>::value);
  ex("ext-default", List2<Own<B>, AR, Al<B>>::value);
#endif
#endif
}
