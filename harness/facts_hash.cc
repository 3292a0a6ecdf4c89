// Hashing of indirects (C14): agreement with the owned type's hash whatever the
// history, and histories of unordered containers keyed by indirects.
#define VT_KIND 1
#include "own.h"
#include "facts.h"
#include <functional>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
using namespace vt;
static long touched = 0;
static int live = 0;
template <class X>
struct TagAl {  // copies propagate, equality by tag
  using value_type = X;
  using propagate_on_container_copy_assignment = std::true_type;
  using propagate_on_container_move_assignment = std::true_type;
  using propagate_on_container_swap = std::true_type;
  int tag;
  TagAl(int t = 0) : tag(t) {}
  template <class Y>
  TagAl(const TagAl<Y>& o) : tag(o.tag) {}
  X* allocate(std::size_t n) { ++touched; return std::allocator<X>().allocate(n); }
  void deallocate(X* p, std::size_t n) { ++touched; std::allocator<X>().deallocate(p, n); }
  friend bool operator==(const TagAl& a, const TagAl& b) { return a.tag == b.tag; }
  friend bool operator!=(const TagAl& a, const TagAl& b) { return a.tag != b.tag; }
};
// hash without any pattern, and only available on const objects
struct Key {
  int v;
  explicit Key(int x) : v(x) { ++live; }
  Key(const Key& o) : v(o.v) { ++touched; ++live; }
  Key(Key&& o) : v(o.v) { o.v = -9; ++touched; ++live; }
  Key& operator=(const Key& o) { v = o.v; ++touched; return *this; }
  Key& operator=(Key&& o) { v = o.v; o.v = -9; ++touched; return *this; }
  ~Key() { --live; }
  friend bool operator==(const Key& a, const Key& b) { return a.v == b.v; }
  friend bool operator!=(const Key& a, const Key& b) { return a.v != b.v; }
};
namespace std {
template <>
struct hash<Key> {
  std::size_t operator()(const Key& k) const { return static_cast<std::size_t>(k.v) * 0x9E3779B97F4A7C15ull ^ 0xABCDEFull; }
  std::size_t operator()(Key& k) const { k.v = 1234; ++touched; return 4; }
};
}  // namespace std
template <class T> struct V;
template <> struct V<int> { static const char* n() { return "int"; } static std::vector<int> all() { return {0, 1, -1, 77, 2147483647}; } };
template <> struct V<long> { static const char* n() { return "long"; } static std::vector<long> all() { return {0, 1, -1, 1L << 40}; } };
template <> struct V<double> { static const char* n() { return "double"; } static std::vector<double> all() { return {0.0, -0.0, 1.5, -7}; } };
template <> struct V<std::string> { static const char* n() { return "string"; } static std::vector<std::string> all() { return {"", "a", "hello, world"}; } };
template <> struct V<Key> { static const char* n() { return "key"; } static std::vector<Key> all() { return {Key(1), Key(2), Key(-5)}; } };
static std::string dec(std::size_t h) { return std::to_string(h); }
template <class O>
void show(const char* al, const char* hist, int vi, O& o, std::size_t want) {
  using T = typename O::value_type;
  touched = 0;
  const O& c = o;
  std::size_t h1 = std::hash<O>()(c), h2 = std::hash<O>()(o), h3 = std::hash<O>{}(c);
  Fact("hash").t("ty", V<T>::n()).t("al", al).t("hist", hist).i("v", c.valueless_after_move() ? -1 : vi).t("h", dec(h1)).t("want", dec(want)).b("stable", h1 == h2 && h2 == h3).i("touched", touched);
}
template <class T, class A>
void run(const char* al, A a, A b) {
  using O = xyz::indirect<T, A>;
  auto vals = V<T>::all();
  for (std::size_t i = 0; i < vals.size(); ++i) {
    const T& v = vals[i];
    int n = static_cast<int>(i);
    std::size_t want = std::hash<T>()(v);
    O x(std::allocator_arg, a, VT_INPLACE, v), y(std::allocator_arg, b, VT_INPLACE, vals[(i + 1) % vals.size()]);
    std::size_t wanty = std::hash<T>()(*static_cast<const O&>(y));
    show(al, "constructed", n, x, want);
    O z(x);
    show(al, "copied", n, z, want);
    O z2(std::allocator_arg, b, x);
    show(al, "copied-elsewhere", n, z2, want);
    O m(std::move(z));
    show(al, "moved", n, m, want);
    show(al, "moved-from", n, z, want);
    z = x;
    show(al, "recovered", n, z, want);
    y = x;
    show(al, "copy-assigned", n, y, want);
    y = vals[(i + 1) % vals.size()];
    show(al, "value-assigned", n, y, wanty);
    y = std::move(z2);
    show(al, "move-assigned", n, y, want);
    O w(std::allocator_arg, y.get_allocator(), VT_INPLACE, vals[(i + 1) % vals.size()]);
    w.swap(y);
    show(al, "swapped", n, w, want);
    show(al, "swapped-other", n, y, wanty);
    O g(std::move(w));
    w.swap(y);
    show(al, "swapped-valueless", n, y, want);
    show(al, "swapped-valueless-other", n, w, wanty);
    *x = vals[(i + 1) % vals.size()];
    show(al, "written", n, x, wanty);
    O vl(y);
    show(al, "valueless-copy", n, vl, want);
    O ve(std::allocator_arg, b, std::move(vl));
    show(al, "valueless-move", n, ve, want);
  }
}
template <class T> using I = xyz::indirect<T>;
template <>
struct V<I<int>> { static const char* n() { return "indirect<int>"; } static std::vector<I<int>> all() { return {I<int>(VT_INPLACE, 3), I<int>(VT_INPLACE, 4)}; } };
template <class S>
void sets(const char* name, unsigned seed) {
  S s;
  using O = typename S::key_type;
  using T = typename O::value_type;
  unsigned long long r = seed * 7919ull + 3;
  auto rnd = [&](int n) { r = r * 6364136223846793005ull + 1442695040888963407ull; return static_cast<int>((r >> 33) % static_cast<unsigned>(n)); };
  auto mk = [](int k) {
    O o(VT_INPLACE, k < 0 ? 0 : k);
    if (k < 0) O gone(std::move(o));
    return o;
  };
  Fact("hset").t("set", name).t("op", "new").i("k", 0).b("res", true).i("size", 0);
  for (int i = 0; i < 150; ++i) {
    int k = rnd(7) - 1, op = rnd(5);
    O key = mk(k);
    bool res = false;
    const char* n = "";
    if (op <= 1) {
      n = "insert";
      res = op ? s.insert(std::move(key)).second : s.insert(key).second;
    } else if (op == 2) {
      n = "erase";
      res = s.erase(key) != 0;
    } else if (op == 3) {
      n = "find";
      auto it = s.find(key);
      res = it != s.end() && *it == key;
    } else {
      n = "rehash";
      s.rehash(static_cast<std::size_t>(rnd(50)) + s.size());
      S t(s);
      s = S();
      s = t;
      res = true;
    }
    Fact("hset").t("set", name).t("op", n).i("k", k).b("res", res).i("size", static_cast<long>(s.size()));
  }
  (void)sizeof(T);
}
template <class M>
void maps(const char* name, unsigned seed) {
  M m;
  using O = typename M::key_type;
  unsigned long long r = seed * 104729ull + 5;
  auto rnd = [&](int n) { r = r * 6364136223846793005ull + 1442695040888963407ull; return static_cast<int>((r >> 33) % static_cast<unsigned>(n)); };
  Fact("hmap").t("map", name).t("op", "new").i("k", 0).i("v", 0).i("got", 0);
  for (int i = 0; i < 100; ++i) {
    int k = rnd(5), v = rnd(9) + 1;
    O key(VT_INPLACE, k);
    if (rnd(2)) {
      m[key] = v;
      Fact("hmap").t("map", name).t("op", "put").i("k", k).i("v", v).i("got", m[std::move(key)]);
    } else {
      auto it = m.find(key);
      Fact("hmap").t("map", name).t("op", "get").i("k", k).i("v", 0).i("got", it == m.end() ? 0 : it->second);
    }
  }
}
int main(int argc, char** argv) {
  unsigned seed = argc > 1 ? static_cast<unsigned>(std::atoi(argv[1])) : 1;
  run<int>("std", std::allocator<int>(), std::allocator<int>());
  run<long>("std", std::allocator<long>(), std::allocator<long>());
  run<double>("std", std::allocator<double>(), std::allocator<double>());
  run<std::string>("std", std::allocator<std::string>(), std::allocator<std::string>());
  run<Key>("std", std::allocator<Key>(), std::allocator<Key>());
  run<I<int>>("std", std::allocator<I<int>>(), std::allocator<I<int>>());
  run<int>("tag", TagAl<int>(1), TagAl<int>(2));
  run<std::string>("tag", TagAl<std::string>(1), TagAl<std::string>(2));
  run<Key>("tag", TagAl<Key>(1), TagAl<Key>(2));
  {
    // an owner whose owned owner is valueless still hashes as the owned owner does
    I<I<int>> n(VT_INPLACE, I<int>(VT_INPLACE, 3));
    I<int> gone(std::move(*n));
    Fact("hash").t("ty", "indirect<int>").t("al", "std").t("hist", "inner-valueless").i("v", 9).t("h", dec(std::hash<I<I<int>>>()(n))).t("want", dec(std::hash<I<int>>()(*n))).b("stable", true).i("touched", 0);
  }
  for (unsigned q = 0; q < 4; ++q) {
    sets<std::unordered_set<I<int>>>("set<indirect<int>>", seed + q);
    sets<std::unordered_set<xyz::indirect<Key, TagAl<Key>>>>("set<indirect<Key,Tag>>", seed + 10 + q);
    maps<std::unordered_map<I<int>, int>>("map<indirect<int>>", seed + q);
    maps<std::unordered_map<xyz::indirect<Key, TagAl<Key>>, int>>("map<indirect<Key,Tag>>", seed + q);
  }
}
