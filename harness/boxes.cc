// boxes SEED HISTORIES LENGTH : random histories of containers and composites of owners;
// one JSON record per step, judged by spec/VTBoxes.tla (C20).
// -DVT_V=14|20 -DVT_KIND=1|2
#include <algorithm>
#include <array>
#include <deque>
#include <list>
#include <numeric>
#include <set>
#include <unordered_map>
#include <unordered_set>
#if __cplusplus >= 201703L
#include <optional>
#include <variant>
#endif
#include "runner.h"
using namespace vt;

#if VT_KIND == 1
template <class C>
using Ow = xyz::indirect<E<0>, Al<E<0>, C>>;
#else
using PBase = PB<0, true>;
using PD1 = D1<0, true>;
using PD2 = D2<0, true>;
using PD3 = D3<0, true>;
template <class C>
using Ow = xyz::polymorphic<PB<0, true>, Al<PB<0, true>, C>>;
#endif
static const unsigned UID = 1;
template <class O>
O make(int v) {
  typename O::allocator_type a(UID, 0);
#if VT_KIND == 1
  return O(std::allocator_arg, a, VT_INPLACE, v);
#else
  if (v % 4 == 0) return O(std::allocator_arg, a, VT_INPLACE_TYPE(PBase), v);
  if (v % 4 == 1) return O(std::allocator_arg, a, VT_INPLACE_TYPE(PD1), v);
  if (v % 4 == 2) return O(std::allocator_arg, a, VT_INPLACE_TYPE(PD2), v);
  return O(std::allocator_arg, a, VT_INPLACE_TYPE(PD3), v);
#endif
}
template <class O>
int value(const O& o) {
#if VT_KIND == 1
  return (*o).val();
#else
  return (*o).get();
#endif
}
template <class O>
int rank(const O& o) { return o.valueless_after_move() ? -1 : value(o); }

// ------------------------------------------------------------------ families
struct Arg {
  const char* op;
  int i, j, v;
};
enum Fam { Seq, Prod, Opt, Map, Set };
static const char* fam_name[] = {"seq", "prod", "opt", "map", "set"};

template <class O, class B>
struct SeqBox {
  using Box = B;
  static constexpr Fam fam = Seq;
  static std::vector<O*> cells(B& b) {
    std::vector<O*> r;
    for (auto& o : b) r.push_back(std::addressof(o));
    return r;
  }
  static std::vector<int> keys(B&) { return {}; }
  static bool on(B&) { return true; }
  static std::unique_ptr<B> init(Rng&) { return std::unique_ptr<B>(new B()); }
  static void emptied(B& b) { b.clear(); }
  static typename B::iterator at(B& b, int i) { return std::next(b.begin(), i); }
  static void reserve(std::vector<O>& b, int n) { b.reserve(b.size() + static_cast<std::size_t>(n)); }
  static void reserve(std::deque<O>& b, int) { b.shrink_to_fit(); }
  static void reserve(std::list<O>&, int) {}
  static void shrink(std::vector<O>& b) { b.shrink_to_fit(); }
  template <class X>
  static void shrink(X&) {}
  struct Less {
    bool operator()(const O& a, const O& b) const { return rank(a) < rank(b); }
  };
  static void stable(std::list<O>& b) { b.sort(Less()); }
  template <class X>
  static void stable(X& b) { std::stable_sort(b.begin(), b.end(), Less()); }
  static void usort(std::list<O>& b, int) { b.sort(Less()); }
  template <class X>
  static void usort(X& b, int j) {
    if (j % 2) std::sort(b.begin(), b.end(), Less());
    else std::make_heap(b.begin(), b.end(), Less()), std::sort_heap(b.begin(), b.end(), Less());
  }
  static bool pick(Rng& r, B& x, B& y, Arg& a) {
    int n = static_cast<int>(x.size()), m = static_cast<int>(y.size());
    static const char* ops[] = {"push", "push", "push", "pushcopy", "pushself", "insert", "insert", "insrange", "insmove", "erase", "erasen", "pop", "clear", "reserve", "shrink", "sort", "usort", "reverse", "rotate", "remove", "insself", "partition"};
    a.op = ops[r.below(static_cast<int>(sizeof ops / sizeof *ops))];
    std::string s(a.op);
    if (s == "pushcopy") { if (!m) return false; a.i = r.below(m); }
    if (s == "pushself" || s == "pop" || s == "rotate") { if (!n) return false; a.i = r.below(n); }
    if (s == "insert" || s == "insrange" || s == "insmove") a.i = r.below(n + 1);
    if (s == "insself") { if (!n) return false; a.i = r.below(n + 1); a.j = r.below(n); }
    if (s == "erase") { if (!n) return false; a.i = r.below(n); }
    if (s == "erasen") { a.i = r.below(n + 1); a.j = a.i + r.below(n - a.i + 1); }
    if ((s[0] == 'p' && s[1] == 'u') || s.substr(0, 3) == "ins") if (n + (s == "insrange" || s == "insmove" ? m : 1) > 7) return false;
    if (s == "usort" || s == "reserve") a.j = r.below(4);
    return true;
  }
  static void run(B& x, B& y, const Arg& a) {
    std::string s(a.op);
    if (s == "push") x.emplace_back(make<O>(a.v));
    else if (s == "pushcopy") { const O& c = *at(y, a.i); x.push_back(c); }
    else if (s == "pushself") { const O& c = *at(x, a.i); x.push_back(c); }
    else if (s == "insself") { const O& c = *at(x, a.j); x.insert(at(x, a.i), c); }
    else if (s == "insert") x.insert(at(x, a.i), make<O>(a.v));
    else if (s == "insrange") x.insert(at(x, a.i), y.begin(), y.end());
    else if (s == "insmove") x.insert(at(x, a.i), std::make_move_iterator(y.begin()), std::make_move_iterator(y.end()));
    else if (s == "erase") x.erase(at(x, a.i));
    else if (s == "erasen") x.erase(at(x, a.i), at(x, a.j));
    else if (s == "pop") x.pop_back();
    else if (s == "clear") x.clear();
    else if (s == "reserve") reserve(x, a.j);
    else if (s == "shrink") shrink(x);
    else if (s == "sort") stable(x);
    else if (s == "usort") usort(x, a.j);
    else if (s == "reverse") std::reverse(x.begin(), x.end());
    else if (s == "rotate") std::rotate(x.begin(), at(x, a.i), x.end());
    else if (s == "partition") std::stable_partition(x.begin(), x.end(), [&](const O& o) { return rank(o) < a.v; });
    else if (s == "remove") x.erase(std::remove_if(x.begin(), x.end(), [&](const O& o) { return rank(o) == a.v; }), x.end());
  }
};

template <class O>
struct Rec {  // special members are the compiler's
  O a;
  std::pair<O, O> b;
  std::array<O, 1> c;
#if VT_KIND == 1
  friend bool operator==(const Rec& l, const Rec& r) { return l.a == r.a && l.b == r.b && l.c == r.c; }
  friend bool operator<(const Rec& l, const Rec& r) { return std::tie(l.a, l.b, l.c) < std::tie(r.a, r.b, r.c); }
#endif
};
template <class O, class B>
struct ProdBox {
  using Box = B;
  static constexpr Fam fam = Prod;
  static std::vector<O*> cells(Rec<O>& b) { return {&b.a, &b.b.first, &b.b.second, &b.c[0]}; }
  static std::vector<O*> cells(std::pair<O, O>& b) { return {&b.first, &b.second}; }
  static std::vector<O*> cells(std::tuple<O, int, O>& b) { return {&std::get<0>(b), &std::get<2>(b)}; }
  static std::vector<O*> cells(std::array<O, 3>& b) { return {&b[0], &b[1], &b[2]}; }
  static std::vector<int> keys(B&) { return {}; }
  static bool on(B&) { return true; }
  static std::unique_ptr<B> mk(const B*, const Rec<O>*, int v) { return std::unique_ptr<B>(new B{make<O>(v), {make<O>(v + 1), make<O>(v + 2)}, {{make<O>(v + 3)}}}); }
  static std::unique_ptr<B> mk(const B*, const std::pair<O, O>*, int v) { return std::unique_ptr<B>(new B(make<O>(v), make<O>(v + 1))); }
  static std::unique_ptr<B> mk(const B*, const std::tuple<O, int, O>*, int v) { return std::unique_ptr<B>(new B(make<O>(v), 3, make<O>(v + 1))); }
  static std::unique_ptr<B> mk(const B*, const std::array<O, 3>*, int v) { return std::unique_ptr<B>(new B{{make<O>(v), make<O>(v + 1), make<O>(v + 2)}}); }
  static std::unique_ptr<B> init(Rng& r) { return mk(nullptr, static_cast<const B*>(nullptr), 1 + r.below(3)); }
  static void emptied(B&) {}
  static bool pick(Rng&, B&, B&, Arg&) { return false; }
  static void run(B&, B&, const Arg&) {}
};

#if __cplusplus >= 201703L
template <class O, class B>
struct OptBox {
  using Box = B;
  static constexpr Fam fam = Opt;
  static std::vector<O*> cells(std::optional<O>& b) { return b ? std::vector<O*>{std::addressof(*b)} : std::vector<O*>{}; }
  static std::vector<O*> cells(std::variant<O, int>& b) { return b.index() == 0 ? std::vector<O*>{std::addressof(std::get<0>(b))} : std::vector<O*>{}; }
  static std::vector<int> keys(B&) { return {}; }
  static bool on(B& b) { return !cells(b).empty(); }
  static std::unique_ptr<B> init(Rng&) {
    std::unique_ptr<B> r(new B(make<O>(1)));
    return r;
  }
  static void emptied(B&) {}
  // after a failed assignment a variant is valueless_by_exception; libstdc++'s swap of such a variant leaves a moved-from alternative behind in
  // the other one, which is none of the owners' doing
  static void settle(std::optional<O>&) {}
  static void settle(std::variant<O, int>& b) {
    if (b.valueless_by_exception()) b = 0;
  }
  static bool pick(Rng& r, B&, B&, Arg& a) {
    static const char* ops[] = {"emplace", "reset", "oassign"};
    a.op = ops[r.below(3)];
    return true;
  }
  static void emplace(std::optional<O>& x, int v) { x.emplace(make<O>(v)); }
  static void emplace(std::variant<O, int>& x, int v) { x.template emplace<0>(make<O>(v)); }
  static void reset(std::optional<O>& x) { x.reset(); }
  static void reset(std::variant<O, int>& x) { x = 0; }
  static void run(B& x, B&, const Arg& a) {
    std::string s(a.op);
    if (s == "emplace") emplace(x, a.v);
    else if (s == "reset") reset(x);
    else x = make<O>(a.v);
  }
};
#endif

template <class O, class B>
struct MapBox {
  using Box = B;
  static constexpr Fam fam = Map;
  static std::vector<std::pair<int, O*>> sorted(B& b) {
    std::vector<std::pair<int, O*>> r;
    for (auto& p : b) r.push_back({p.first, std::addressof(p.second)});
    std::sort(r.begin(), r.end(), [](const std::pair<int, O*>& a, const std::pair<int, O*>& c) { return a.first < c.first; });
    return r;
  }
  static std::vector<O*> cells(B& b) {
    std::vector<O*> r;
    for (auto& p : sorted(b)) r.push_back(p.second);
    return r;
  }
  static std::vector<int> keys(B& b) {
    std::vector<int> r;
    for (auto& p : sorted(b)) r.push_back(p.first);
    return r;
  }
  static bool on(B&) { return true; }
  static std::unique_ptr<B> init(Rng&) { return std::unique_ptr<B>(new B()); }
  static void emptied(B& b) { b.clear(); }
  static bool pick(Rng& r, B& x, B&, Arg& a) {
    static const char* ops[] = {"mput", "mput", "mput", "mtry", "merase", "mextract", "clear"};
    a.op = ops[r.below(7)];
    std::string s(a.op);
    if (s == "mtry" || s == "mextract")
      if (__cplusplus < 201703L) return false;
    a.i = r.below(6);
    a.j = r.below(6);
    if (s == "clear" && r.below(4)) return false;
    if (s == "mextract" && (!x.count(a.i) || x.count(a.j))) return false;
    if (s == "merase" && !x.count(a.i)) return false;
    return true;
  }
  static void run(B& x, B&, const Arg& a) {
    std::string s(a.op);
    if (s == "mput") x.emplace(a.i, make<O>(a.v));
    else if (s == "merase") x.erase(a.i);
    else if (s == "clear") x.clear();
#if __cplusplus >= 201703L
    else if (s == "mtry") x.try_emplace(a.i, make<O>(a.v));
    else if (s == "mextract") {
      auto n = x.extract(a.i);
      n.key() = a.j;
      x.insert(std::move(n));
    }
#endif
  }
};

template <class O, class B>
struct SetBox {
  using Box = B;
  static constexpr Fam fam = Set;
  static std::vector<O*> cells(B& b) {
    std::vector<O*> r;
    for (auto& o : b) r.push_back(const_cast<O*>(std::addressof(o)));
    std::sort(r.begin(), r.end(), [](O* p, O* q) { return rank(*p) < rank(*q); });
    return r;
  }
  static std::vector<int> keys(B&) { return {}; }
  static bool on(B&) { return true; }
  static std::unique_ptr<B> init(Rng&) { return std::unique_ptr<B>(new B()); }
  static void emptied(B& b) { b.clear(); }
  static bool pick(Rng& r, B& x, B& y, Arg& a) {
    static const char* ops[] = {"sput", "sput", "sput", "scopy", "serase", "clear"};
    a.op = ops[r.below(6)];
    std::string s(a.op);
    a.i = 0;
    if (s == "clear" && r.below(4)) return false;
    if (s == "serase") { if (x.empty()) return false; a.i = r.below(static_cast<int>(x.size())); }
    if (s == "scopy") { if (y.empty()) return false; a.i = r.below(static_cast<int>(y.size())); }
    return true;
  }
  static void run(B& x, B& y, const Arg& a) {
    std::string s(a.op);
    if (s == "sput") x.insert(make<O>(a.v));
    else if (s == "clear") x.clear();
    else if (s == "scopy") { const O& c = *cells(y)[static_cast<std::size_t>(a.i)]; x.insert(c); }
    else x.erase(*cells(x)[static_cast<std::size_t>(a.i)]);
  }
};

// ------------------------------------------------------------------ histories
struct CellSeen {
  int id, vt, al;
};
template <class O, class Ad>
struct Hist {
  using B = typename Ad::Box;
  std::unique_ptr<B> box[2];
  std::string fixed;
  static CellSeen see(const O& o) {
    CellSeen c{0, 0, static_cast<int>(o.get_allocator().uid)};
    if (o.valueless_after_move()) return c;
#if VT_KIND == 1
    const void* p = std::addressof(*o);
    int ty = 1;
#else
    const void* p = (*o).self();
    int ty = (*o).id();
#endif
    auto it = W().objs.find(p);
    if (it == W().objs.end() || !it->second.alive || it->second.external) {
      W().err("dangling", "an owner refers to a dead object");
      c.id = -1;
      return c;
    }
    c.id = static_cast<int>((static_cast<const char*>(p) - W().arena) / 8) + 1;
    c.vt = value(o) * 10 + ty;
    return c;
  }
  std::string boxes() {
    std::string s = "[";
    for (int b = 0; b < 2; ++b) {
      s += b ? ",{" : "{";
      s += std::string("\"on\":") + (Ad::on(*box[b]) ? "true" : "false") + ",\"c\":[";
      bool first = true;
      for (O* o : Ad::cells(*box[b])) {
        CellSeen c = see(*o);
        s += std::string(first ? "" : ",") + "[" + std::to_string(c.id) + "," + std::to_string(c.vt) + "," + std::to_string(c.al) + "]";
        first = false;
      }
      s += "],\"k\":[";
      first = true;
      for (int k : Ad::keys(*box[b])) {
        s += (first ? "" : ",") + std::to_string(k);
        first = false;
      }
      s += "]}";
    }
    return s + "]";
  }
  void print(const Arg& a, int x, int k, int exc) {
    long born = 0, assigned = 0;
    for (auto& e : W().ev) {
      born += e.k == EvC;
      assigned += e.k == EvG;
    }
    std::string bs = boxes();
    long live = 0;
    for (auto& o : W().objs) live += o.second.alive && !o.second.external;
    int eq = -1, lt = -1;
#if VT_KIND == 1
    cmp(eq, lt, static_cast<B*>(nullptr));
#endif
    std::string errs;
    for (auto& e : W().errs) errs += (errs.empty() ? "\"" : ",\"") + e.code + "\"";
    W().errs.clear();
    std::printf("%s,\"op\":\"%s\",\"x\":%d,\"i\":%d,\"j\":%d,\"v\":%d,\"flt\":%d,\"exc\":%d,\"b\":%s,\"born\":%ld,\"assigned\":%ld,\"live\":%ld,\"blocks\":%ld,\"eq\":%d,\"lt\":%d,\"errs\":[%s]}\n",
                fixed.c_str(), a.op, x + 1, a.i + 1, a.j + 1, a.v, k, exc, bs.c_str(), born, assigned, live, W().live_blocks, eq, lt, errs.c_str());
    std::fflush(stdout);
  }
#if VT_KIND == 1
  template <class X>
  void cmp(int& eq, int& lt, X*) {
    eq = *box[0] == *box[1];
    lt = Ad::fam == Opt || Ad::fam == Map || Ad::fam == Set ? -1 : less(*box[0], *box[1], 0);
  }
  template <class X>
  static auto less(const X& a, const X& b, int) -> decltype(static_cast<int>(a < b)) { return a < b; }
  template <class X>
  static int less(const X&, const X&, long) { return -1; }
#endif
  // operations every family has
  bool pick_common(Rng& r, B& x, B& y, Arg& a) {
    (void)y;
    static const char* ops[] = {"bcopy", "bmove", "bassign", "bmassign", "bswap", "bself", "write", "moveout", "elcopy", "elmove", "elswap", "elreset"};
    a.op = ops[r.below(Ad::fam == Set ? 6 : 12)];
    int n = static_cast<int>(Ad::cells(x).size());
    if (a.op[0] != 'b') {
      if (!n) return false;
      a.i = r.below(n);
      a.j = r.below(n);
      if (std::string(a.op) == "write" && Ad::cells(x)[static_cast<std::size_t>(a.i)]->valueless_after_move()) return false;
      if (std::string(a.op) == "elmove" && a.i == a.j && r.below(3)) return false;
    }
    return true;
  }
  template <class X>
  static auto do_swap(X& p, X& q, int v, int) -> decltype(p.swap(q), void()) {
    using std::swap;
    if (v % 2) swap(p, q);
    else p.swap(q);
  }
  template <class X>
  static void do_swap(X& p, X& q, int, long) {
    using std::swap;
    swap(p, q);
  }
  void run(int xi, const Arg& a) {
    std::string s(a.op);
    B& x = *box[xi];
    B& y = *box[1 - xi];
    auto c = Ad::cells(x);
    auto cell = [&](int i) -> O& { return *c[static_cast<std::size_t>(i)]; };
    if (s == "bcopy") {
      const B& src = x;
      std::unique_ptr<B> n(new B(src));
      box[1 - xi] = std::move(n);
    } else if (s == "bmove") {
      std::unique_ptr<B> n(new B(std::move(x)));
      Ad::emptied(x);
      box[1 - xi] = std::move(n);
    } else if (s == "bassign") {
      const B& src = x;
      y = src;
    } else if (s == "bmassign") {
      y = std::move(x);
      Ad::emptied(x);
    } else if (s == "bswap") {
      do_swap(x, y, a.v, 0);
    } else if (s == "bself") {
      const B& src = x;
      x = src;
    } else if (s == "write") {
#if VT_KIND == 1
      cell(a.i)->setv(a.v);
#else
      cell(a.i)->set(a.v);
#endif
    } else if (s == "moveout") {
      O t(std::move(cell(a.i)));
    } else if (s == "elcopy") {
      const O& src = cell(a.j);
      cell(a.i) = src;
    } else if (s == "elmove") {
      cell(a.i) = std::move(cell(a.j));
    } else if (s == "elswap") {
      using std::swap;
      swap(cell(a.i), cell(a.j));
    } else if (s == "elreset") {
      cell(a.i) = make<O>(a.v);
    } else
      Ad::run(x, y, a);
  }
  // these may not fail half-way in a call that is declared noexcept
  static bool may_fail(const Arg& a) {
    std::string s(a.op);
    return s != "bmove" && s != "bmassign" && s != "bswap" && s != "write" && s != "moveout" && s != "elmove" && s != "elswap" && s != "erase" && s != "erasen" &&
           s != "pop" && s != "clear" && s != "sort" && s != "usort" && s != "reverse" && s != "rotate" && s != "remove" && s != "partition" && s != "insmove" &&
           s != "shrink" && s != "merase" && s != "mextract" && s != "serase" && s != "bself" && s != "reset" && !(Ad::fam == Opt && s == "oassign");
  }
  template <class A>
  static auto settle(B& b, int) -> decltype(A::settle(b), void()) { A::settle(b); }
  template <class A>
  static void settle(B&, long) {}
  void history(unsigned seed, int len, const std::string& head) {
    W().reset();
    Rng rng(seed);
    fixed = head;
    W().begin(0);
    box[0] = Ad::init(rng);
    box[1] = Ad::init(rng);
    W().end();
    print(Arg{"start", 0, 0, 0}, 0, 0, 0);
    for (int n = 0; n < len;) {
      Arg a{"", 0, 0, 1 + rng.below(7)};
      int xi = rng.below(2);
      bool ok = Ad::fam == Prod || rng.below(3) == 0 ? pick_common(rng, *box[xi], *box[1 - xi], a) : Ad::pick(rng, *box[xi], *box[1 - xi], a);
      if (!ok) continue;
      ++n;
      int k = may_fail(a) && rng.below(3) == 0 ? 1 + rng.below(3) : 0;
      int skip = k ? rng.below(3) : 0;
      int exc = 0;
      W().begin(k);
      W().skip = skip;
      VT_TRY(run(xi, a))
      settle<Ad>(*box[0], 0);
      settle<Ad>(*box[1], 0);
      W().end();
      print(a, xi, k, exc);
    }
    W().begin(0);
    box[0].reset();
    box[1].reset();
    W().end();
    long live = 0;
    for (auto& o : W().objs) live += o.second.alive && !o.second.external;
    std::string errs;
    for (auto& e : W().errs) errs += (errs.empty() ? "\"" : ",\"") + e.code + "\"";
    std::printf("%s,\"op\":\"end\",\"live\":%ld,\"blocks\":%ld,\"errs\":[%s]}\n", fixed.c_str(), live, W().live_blocks, errs.c_str());
    std::fflush(stdout);
  }
};

static unsigned g_seed = 1;
static int g_hist = 3, g_len = 60;
template <class C, class Ad>
void go(const char* name) {
  using O = Ow<C>;
  int part = 0;
  int rc = in_child(120, [&] {
    for (int h = 0; h < g_hist; ++h) {
      Hist<O, Ad> hist;
      char head[200];
      std::snprintf(head, sizeof head, "{\"impl\":%d,\"kind\":%d,\"box\":\"%s\",\"fam\":\"%s\",\"ae\":%s,\"pocma\":%s,\"vec\":%s,\"grow\":%s", VT_V, VT_KIND, name, fam_name[Ad::fam],
                    C::ae ? "true" : "false", C::pocma ? "true" : "false", std::string(name) == "vector" ? "true" : "false", std::is_nothrow_move_constructible<O>::value ? "true" : "false");
      hist.history(g_seed * 1000u + static_cast<unsigned>(h) * 7u + static_cast<unsigned>(part), g_len, head);
    }
  });
  if (rc) {
    std::printf("{\"crash\":\"%s\",\"box\":\"%s\",\"kind\":%d,\"impl\":%d}\n", signame(rc), name, VT_KIND, VT_V);
    std::fflush(stdout);
  }
}
template <class C>
void all() {
  using O = Ow<C>;
  go<C, SeqBox<O, std::vector<O>>>("vector");
  go<C, SeqBox<O, std::deque<O>>>("deque");
  go<C, SeqBox<O, std::list<O>>>("list");
  go<C, ProdBox<O, Rec<O>>>("struct");
  go<C, ProdBox<O, std::pair<O, O>>>("pair");
  go<C, ProdBox<O, std::tuple<O, int, O>>>("tuple");
  go<C, ProdBox<O, std::array<O, 3>>>("array");
#if __cplusplus >= 201703L
  go<C, OptBox<O, std::optional<O>>>("optional");
  go<C, OptBox<O, std::variant<O, int>>>("variant");
#endif
  go<C, MapBox<O, std::map<int, O>>>("map");
  go<C, MapBox<O, std::unordered_map<int, O>>>("unordered_map");
#if VT_KIND == 1
  go<C, SetBox<O, std::set<O>>>("set");
  go<C, SetBox<O, std::unordered_set<O>>>("unordered_set");
#endif
}
int main(int argc, char** argv) {
  if (argc > 1) g_seed = static_cast<unsigned>(std::atoi(argv[1]));
  if (argc > 2) g_hist = std::atoi(argv[2]);
  if (argc > 3) g_len = std::atoi(argv[3]);
  all<Cfg<false, false, false, true, false>>();
  all<Cfg<true, true, true, false, false>>();
  all<Cfg<false, false, false, false, false>>();
  std::printf("{\"done\":1}\n");
}
