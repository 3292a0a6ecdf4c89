// C28: replays the histories of spec/VTWrap.tla on exploration/wrapper.h and records type facts.
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

#ifdef VT_INC
#include "exploration/incomplete_types.h"
#else
#include "exploration/wrapper.h"
#endif

static std::set<const void*> live;
static int next_value, fail_in = -1, wrong, defaults, copies, assigns;
struct El {
  int v;
  static void enter(const El* e) {
    if (fail_in == 0) throw std::runtime_error("x");
    if (!live.insert(e).second) ++wrong;
  }
  static void seen(const El* e) { if (!live.count(e)) ++wrong; }
  El() : v(next_value) { enter(this); ++defaults; }
  El(const El& o) : v(o.v) { seen(&o); enter(this); ++copies; }
  El& operator=(const El& o) { seen(this); seen(&o); if (fail_in == 0) throw std::runtime_error("x"); v = o.v; ++assigns; return *this; }
  ~El() { if (!live.erase(this)) { ++wrong; std::printf("an object was destroyed twice\n"); std::fflush(stdout); } v = -1; }
  friend bool operator==(const El& a, const El& b) { seen(&a); seen(&b); return a.v == b.v; }
  friend bool operator==(const El& a, const long& b) { seen(&a); return a.v == b; }
  friend bool operator==(const long& a, const El& b) { seen(&b); return a == b.v; }
};
template <class W> struct Var {  // as an alternative of a variant (exploration/incomplete_types.h)
  std::variant<W, int> x;
  bool operator==(const Var& o) const { return x == o.x; }
};

template <class W>
static bool replay(const std::vector<int>& h, int slots, bool assign, const char* kind) {
  std::vector<W*> w(slots + 1, nullptr);
  const int rec = 5 + slots + 1;
  wrong = 0;
  live.clear();
  auto bad = [&](int n, const std::string& what) {
    std::printf("{\"kind\":\"%s\",\"step\":%d,\"what\":\"%s\",\"h\":[", kind, n, what.c_str());
    for (size_t k = 0; k < h.size(); ++k) std::printf("%s%d", k ? "," : "", h[k]);
    std::printf("]}\n");
    std::fflush(stdout);
    return false;
  };
  for (int n = 0; n * rec < (int)h.size(); ++n) {
    const int *o = &h[n * rec], *exp = o + 5;
    bool threw = false;
    fail_in = o[4] ? 0 : -1;
    next_value = o[3];
    defaults = copies = assigns = 0;
    if (o[0] == 3 && !assign) return true;
    try {
      switch (o[0]) {
        case 1: w[o[1]] = new W(); break;
        case 2: w[o[1]] = new W(*static_cast<const W*>(w[o[2]])); break;
        case 3:
          if constexpr (std::is_copy_assignable_v<W>) *w[o[1]] = *static_cast<const W*>(w[o[2]]);
          break;
        case 4: delete w[o[1]]; w[o[1]] = nullptr; break;
      }
    } catch (const std::runtime_error&) { threw = true; }
    fail_in = -1;
    if (threw != !!o[4]) return bad(n, threw ? "failed" : "did not report the element's failure");
    if (o[0] == 1 && !threw && (defaults != 1 || copies || assigns)) return bad(n, "default construction did not construct exactly one default object");
    if (o[0] == 2 && !threw && (copies != 1 || defaults || assigns)) return bad(n, "a copy was not made by exactly one copy construction");
    if (wrong) return bad(n, "an object was used outside its lifetime");
    if ((int)live.size() != exp[slots]) return bad(n, std::to_string(live.size()) + " objects are alive instead of " + std::to_string(exp[slots]));
    for (int a = 1; a <= slots; ++a)
      for (int b = 1; b <= slots; ++b)
        if (exp[a - 1] && exp[b - 1] && (*w[a] == *w[b]) != (exp[a - 1] == exp[b - 1])) return bad(n, "wrappers compare wrongly");
  }
  for (auto* p : w) delete p;
  if (!live.empty() || wrong) return bad(-1, "objects left at the end");
  return true;
}

struct NoDef { NoDef(int); };
struct NoCopy { NoCopy() = default; NoCopy(const NoCopy&) = delete; NoCopy& operator=(const NoCopy&) = delete; };
struct NoEq {};
static int facts() {
  using namespace xyz;
  int n = 0;
  auto fact = [&](const char* what, bool got, bool want) {
    ++n;
    if (got != want) std::printf("{\"kind\":\"fact\",\"what\":\"%s is %s\"}\n", what, got ? "true" : "false");
  };
  fact("default_initializable constrained_wrapper<El>", std::default_initializable<constrained_wrapper<El>>, true);
  fact("default_initializable constrained_wrapper<NoDef>", std::default_initializable<constrained_wrapper<NoDef>>, false);
  fact("copy_constructible constrained_wrapper<El>", std::is_copy_constructible_v<constrained_wrapper<El>>, true);
  fact("copy_constructible constrained_wrapper<NoCopy>", std::is_copy_constructible_v<constrained_wrapper<NoCopy>>, false);
  fact("copy_assignable constrained_wrapper<NoCopy>", std::is_copy_assignable_v<constrained_wrapper<NoCopy>>, false);
  fact("copy_constructible wrapper<El>", std::is_copy_constructible_v<wrapper<El>>, true);
  fact("equality_comparable constrained_wrapper<El>", std::equality_comparable<constrained_wrapper<El>>, true);
  fact("equality_comparable constrained_wrapper<NoEq>", std::equality_comparable<constrained_wrapper<NoEq>>, false);
  return n;
}
#ifdef VT_HETERO  // values of different types compare as the owned objects do
template <class X> static X next_as;
template <class X> struct Num {
  X v = next_as<X>;
  template <class Y> friend bool operator==(const Num& a, const Num<Y>& b) { return a.v == b.v; }
  operator double() const { return v; }  // for std::equality_comparable_with
};
template <template <class> class W> static int hetero(const char* name) {
  int n = 0;
  for (int a : {0, 1}) {
    (void)a;
    W<int> x;
    W<long> y;
    if (!(x == y) || !(y == x)) std::printf("{\"kind\":\"%s\",\"what\":\"int and long wrappers of 0 are unequal\"}\n", name);
    ++n;
  }
  // every pair of values
  auto judge = [&](auto& x, auto& y, bool want) {
    if ((x == y) != want || (y == x) != want || (x != y) == want) std::printf("{\"kind\":\"%s\",\"what\":\"wrappers of different element types compare wrongly\"}\n", name);
    ++n;
  };
  for (int a = -1; a <= 2; ++a)
    for (int b = -1; b <= 2; ++b) {
      next_as<int> = a;
      next_as<long> = b;
      W<Num<int>> x, x2(x);
      W<Num<long>> y;
      judge(x, y, a == b);
      judge(x2, y, a == b);
      next_as<int> = b;
      W<Num<int>> z;
      x2 = z;
      judge(x2, y, true);
      judge(x, z, a == b);
    }
  return n;
}
#endif

#ifdef VT_COPY  // elements that can be copied but neither default constructed nor assigned
struct OnlyCopy { const int v; explicit OnlyCopy(int x) : v(x) {} OnlyCopy(const OnlyCopy&) = default; OnlyCopy& operator=(const OnlyCopy&) = delete; };
struct ConstDef { const int v = 3; friend bool operator==(const ConstDef& a, const ConstDef& b) { return a.v == b.v; } };
template xyz::wrapper<OnlyCopy>::wrapper(const wrapper&);
template <template <class> class W> static void copy_only(const char* name) {
  W<ConstDef> a;
  W<ConstDef> b(a);
  W<ConstDef> c(b);
  c = a;
  if (!(b == a) || !(c == b)) std::printf("{\"kind\":\"%s\",\"what\":\"copies of an element that cannot be assigned are unequal\"}\n", name);
}
static_assert(std::is_copy_constructible_v<xyz::constrained_wrapper<OnlyCopy>>, "");
void use(const xyz::constrained_wrapper<OnlyCopy>& o) { xyz::constrained_wrapper<OnlyCopy> c(o); (void)c; }
#endif

#ifdef VT_INC  // structures with members of a type that is incomplete here (exploration/incomplete_types.h)
static long outstanding;
static bool counting;
void* operator new(std::size_t n) {
  void* p = std::malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  if (counting) ++outstanding;
  return p;
}
void operator delete(void* p) noexcept { if (counting && p) --outstanding; std::free(p); }
void operator delete(void* p, std::size_t) noexcept { if (counting && p) --outstanding; std::free(p); }
template <class M> static int incomplete(const char* name, int owned) {
  bool ok = true;
  counting = true;
  outstanding = 0;
  {
    M a;
    ok = ok && outstanding == owned;
    M* b = new M(a);
    ok = ok && outstanding == 1 + 2 * owned && a == *b && *b == a && *b == *b;
    M c(*b);
    delete b;
    ok = ok && outstanding == 2 * owned && a == c;
  }
  counting = false;
  if (!ok || outstanding) std::printf("{\"kind\":\"%s\",\"what\":\"copies do not own one object each\"}\n", name);
  return 1;
}
#endif

int main(int argc, char** argv) {
  const int slots = std::atoi(argv[2]);
  std::ifstream in(argv[1]);
  std::string line;
  long count = 0;
  int n = facts();
#ifdef VT_HETERO
  n += hetero<xyz::wrapper>("wrapper") + hetero<xyz::constrained_wrapper>("constrained_wrapper");
#endif
#ifdef VT_COPY
  copy_only<xyz::wrapper>("wrapper");
  copy_only<xyz::constrained_wrapper>("constrained_wrapper");
  n += 2;
#endif
#ifdef VT_INC
  using namespace xyz::testing;
  n += incomplete<WrapperMember>("WrapperMember", 1) + incomplete<ConstrainedWrapperMember>("ConstrainedWrapperMember", 1) + incomplete<VariantWrapperMember>("VariantWrapperMember", 1) +
       incomplete<UniquePtrMember>("UniquePtrMember", 1) + incomplete<VectorMember>("VectorMember", 0) + incomplete<VariantVectorMember>("VariantVectorMember", 0);
#endif
  while (std::getline(in, line)) {
    std::vector<int> h;
    std::istringstream is(line);
    for (int x; is >> x;) h.push_back(x);
    ++count;
    if (!replay<xyz::wrapper<El>>(h, slots, true, "wrapper")) return 1;
    if (!replay<xyz::constrained_wrapper<El>>(h, slots, true, "constrained_wrapper")) return 1;
    if (!replay<Var<xyz::wrapper<El>>>(h, slots, true, "variant<wrapper>")) return 1;
    if (!replay<Var<xyz::constrained_wrapper<El>>>(h, slots, true, "variant<constrained_wrapper>")) return 1;
  }
  std::printf("{\"done\":%ld,\"facts\":%d}\n", count, n);
  return argc < 3;
}
