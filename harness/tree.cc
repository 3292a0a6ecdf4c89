// tree FILE... : replays every transition printed by spec/VTTree.tla (C21).
//   --seed N   --one : the file is a history executed in order
// -DVT_V=14|20 -DVT_KIND=1|2
#include "runner.h"
#include <algorithm>
#include <set>
using namespace vt;

template <class C>
struct TreeT {
  struct Node;
  using A = Al<Node, C>;
#if VT_KIND == 1
  using O = xyz::indirect<Node, A>;
#else
  using O = xyz::polymorphic<Node, A>;
#endif
  struct Node {
    int val;
    bool reg;
    std::vector<O> k_;
    explicit Node(int v) : val(v), reg(true) { W().ctor_begin(nullptr); fin(HArg, nullptr); }
    Node(const Node& o) : val(pre(o, true)), reg(true), k_(o.k_) { fin(HCopy, &o); }
    Node(Node&& o) : val(pre(o, true)), reg(true), k_(std::move(o.k_)) { o.val = MF; fin(HMove, &o); }
    // used by a derived node
    Node(NoReg, int v) : val(v), reg(false) {}
    Node& operator=(const Node& o) {  // safe however o is nested
      W().assign(self(), HCopy, o.self());
      std::vector<O> k(o.kids());
      int v = o.val;
      kids().swap(k);
      val = v;
      return *this;
    }
    static int pre(const Node& o, bool r) {
      if (r) W().ctor_begin(&o);
      return o.val;
    }
    void fin(int how, const void* src) { W().ctor_end(this, 1, how, src, &val, this); }
#if VT_KIND == 2
    virtual
#endif
    ~Node() {
      if (reg) W().dtor(this, 1);
      val = -999;
    }
#if VT_KIND == 2
    virtual
#endif
    std::vector<O>& kids() { return k_; }
#if VT_KIND == 2
    virtual
#endif
    const std::vector<O>& kids() const { return k_; }
#if VT_KIND == 2
    virtual
#endif
    const void* self() const { return this; }
#if VT_KIND == 2
    virtual
#endif
    int ty() const { return 1; }
    friend bool operator==(const Node& a, const Node& b) {
#if VT_KIND == 1
      return a.val == b.val && a.k_ == b.k_;
#else
      return a.val == b.val;
#endif
    }
  };
#if VT_KIND == 2
  struct DNode : Pad, Node {
    std::vector<O> dk_;
    explicit DNode(int v) : Node(NoReg{}, v) { W().ctor_begin(nullptr); W().ctor_end(this, 2, HArg, nullptr, &this->val, static_cast<Node*>(this)); }
    DNode(const DNode& o) : Node(NoReg{}, pre(o)), dk_(o.dk_) { W().ctor_end(this, 2, HCopy, &o, &this->val, static_cast<Node*>(this)); }
    DNode(DNode&& o) : Node(NoReg{}, pre(o)), dk_(std::move(o.dk_)) {
      o.val = MF;
      W().ctor_end(this, 2, HMove, &o, &this->val, static_cast<Node*>(this));
    }
    static int pre(const DNode& o) {
      W().ctor_begin(&o);
      return o.val;
    }
    ~DNode() { W().dtor(this, 2); }
    std::vector<O>& kids() override { return dk_; }
    const std::vector<O>& kids() const override { return dk_; }
    const void* self() const override { return this; }
    int ty() const override { return 2; }
  };
#endif
};

struct Tok {  // an owner in pre-order
  int al, id, val, n;
};
struct TEdge {
  int cfg[6];
  int o, a, k, n, exc;
  std::vector<int> p, q;
  std::vector<Tok> pre[2], post[2];
  bool has_pre[2], has_post[2];
  std::string line, key;
};
struct Item {
  std::string code, detail;
};

static void parse_owner(const std::vector<int>& v, std::size_t& i, std::vector<Tok>& out) {
  Tok t{v[i], v[i + 1], v[i + 2], v[i + 3]};
  i += 4;
  out.push_back(t);
  for (int k = 0; k < t.n; ++k) parse_owner(v, i, out);
}
static bool parse_root(const std::vector<int>& v, std::size_t& i, std::vector<Tok>& out) {
  if (v[i] == -9) {
    ++i;
    return false;
  }
  parse_owner(v, i, out);
  return true;
}
static std::string key_of(const std::vector<Tok>* r, const bool* has) {  // names and values do not matter
  std::string s;
  for (int i = 0; i < 2; ++i) {
    if (!has[i]) s += "-";
    for (auto& t : r[i]) s += std::to_string(t.al) + (t.id ? "n" : "v") + std::to_string(t.n);
    s += "/";
  }
  return s;
}
static std::vector<TEdge> load(const char* f) {
  std::vector<TEdge> res;
  FILE* fp = std::fopen(f, "r");
  if (!fp) {
    std::printf("{\"fatal\":\"cannot read %s\"}\n", f);
    std::exit(0);
  }
  std::string line;
  char buf[65536];
  while (std::fgets(buf, sizeof buf, fp)) {
    char* s = std::strstr(buf, "<<77200");
    if (!s || s - buf > 2) continue;
    std::vector<int> v;
    for (char* c = s + 2; *c && *c != '>';) {
      v.push_back(static_cast<int>(std::strtol(c, &c, 10)));
      while (*c == ',' || *c == ' ') ++c;
    }
    TEdge e;
    std::size_t i = 1;
    for (int& c : e.cfg) c = v[i++];
    e.o = v[i++]; e.a = v[i++]; e.k = v[i++]; e.n = v[i++]; e.exc = v[i++];
    while (v[i]) e.p.push_back(v[i++]);
    ++i;
    while (v[i]) e.q.push_back(v[i++]);
    ++i;
    for (int r = 0; r < 2; ++r) e.has_pre[r] = parse_root(v, i, e.pre[r]);
    for (int r = 0; r < 2; ++r) e.has_post[r] = parse_root(v, i, e.post[r]);
    if (i != v.size()) {
      std::printf("{\"fatal\":\"malformed line\"}\n");
      std::exit(0);
    }
    std::string l(s);
    while (!l.empty() && (l.back() == '\n' || l.back() == '"')) l.pop_back();
    e.line = l;
    e.key = key_of(e.pre, e.has_pre);
    res.push_back(e);
  }
  std::fclose(fp);
  return res;
}
static std::string path_str(const std::vector<int>& p) {
  std::string s;
  for (int x : p) s += (s.empty() ? "root" : ".") + std::to_string(x);
  return s.empty() ? "-" : s;
}
static std::string op_text(const TEdge& e) {
  static const char* n[] = {"", "", "", "copy-construct", "move-construct", "copy-assign", "move-assign", "", "swap", "destroy"};
  std::string s = std::string(n[e.o]) + " " + path_str(e.p) + " <- " + path_str(e.q);
  if (e.a >= 0) s += " with allocator " + std::to_string(e.a);
  if (e.k) s += std::string(" failing at ") + (e.k == 1 ? "allocation " : e.k == 2 ? "construction " : "assignment ") + std::to_string(e.n);
  return s;
}

struct TShared {
  volatile int edge;
  volatile long steps, builds;
  volatile int hist_n;
  int hist[256];
};

template <class C>
struct Forest {
  using T = TreeT<C>;
  using Node = typename T::Node;
  using O = typename T::O;
  using A = typename T::A;
  alignas(O) unsigned char mem[2][sizeof(O)];
  bool alive[2] = {false, false};
  std::map<int, const void*> name;  // id -> complete object
  std::map<int, int> type_of;       // id -> dynamic type, value -> dynamic type
  std::map<int, int> type_of_val;
  O& root(int r) { return *reinterpret_cast<O*>(mem[r]); }

  void fill(O& o, const std::vector<Tok>& t, std::size_t& i) {
    Tok me = t[i++];
    if (!me.id) {
      O gone(std::move(o));
      return;
    }
    auto& ks = o->kids();
    ks.reserve(static_cast<std::size_t>(me.n) + 1);
    for (int k = 0; k < me.n; ++k) {
      make(t[i], [&](auto&&... as) { ks.emplace_back(std::forward<decltype(as)>(as)...); });
      fill(ks.back(), t, i);
    }
  }
  template <class F>
  static void make(const Tok& t, F put) {
    A a(static_cast<unsigned>(t.al), 0);
#if VT_KIND == 1
    put(std::allocator_arg, a, VT_INPLACE, t.id);
#else
    if (t.id % 2) put(std::allocator_arg, a, VT_INPLACE_TYPE(Node), t.id);
    else put(std::allocator_arg, a, VT_INPLACE_TYPE(typename T::DNode), t.id);
#endif
  }
  void build(const TEdge& e) {
    W().reset();
    W().begin(0);
    for (int r = 0; r < 2; ++r) {
      alive[r] = e.has_pre[r];
      if (!alive[r]) continue;
      make(e.pre[r][0], [&](auto&&... as) { ::new (static_cast<void*>(mem[r])) O(std::forward<decltype(as)>(as)...); });
      std::size_t i = 0;
      fill(root(r), e.pre[r], i);
    }
    W().end();
    named.clear();
  }
  // gives every node the name (and value) the specification gives it in pre-order
  std::set<const void*> named;
  void rename(O& o, const std::vector<Tok>& t, std::size_t& i) {
    Tok me = t[i++];
    if (!me.id) return;
    name[me.id] = self(*o);
    named.insert(self(*o));
    o->val = me.val;
    type_of[me.id] = o->ty();
    if (me.val != MF) type_of_val[me.val] = o->ty();
    for (int k = 0; k < me.n; ++k) rename(o->kids()[static_cast<std::size_t>(k)], t, i);
  }
  void rename(const TEdge& e) {
    name.clear();
    named.clear();
    type_of.clear();
    type_of_val.clear();
    for (int r = 0; r < 2; ++r)
      if (e.has_pre[r]) {
        std::size_t i = 0;
        rename(root(r), e.pre[r], i);
      }
  }
  static const void* self(const Node& n) {
    return n.self();
  }
  O* find(const std::vector<int>& p) {
    O* o = &root(p[0] - 1);
    for (std::size_t i = 1; i < p.size(); ++i) o = &(*o)->kids()[static_cast<std::size_t>(p[i] - 1)];
    return o;
  }
  int nodes = 0;
  std::map<int, const void*> fresh;
  void look(const O& o, const std::vector<Tok>& t, std::size_t& i, const std::string& at, std::vector<Item>& bad) {
    Tok me = t[i++];
    if (static_cast<int>(o.get_allocator().uid) != me.al) bad.push_back({"allocator", at + " has allocator " + std::to_string(o.get_allocator().uid) + ", should have " + std::to_string(me.al)});
    if (o.valueless_after_move() != (me.id == 0)) {
      bad.push_back({"valueless", at + (me.id ? " is valueless" : " is engaged")});
      throw 1;
    }
    if (!me.id) return;
    const Node& n = *o;
    const void* p = reinterpret_cast<const void*>(&n);
    const Block* b = W().block_of(p);
    if (!b || !b->live) {
      bad.push_back({"dangling", at + " refers to storage that is not allocated"});
      throw 1;
    }
    if (b->tag != o.get_allocator().tag()) bad.push_back({"provider", at + " holds storage of an unequal allocator"});
    p = self(n);
    if (!W().alive(p)) {
      bad.push_back({"dangling", at + " refers to an object that was destroyed"});
      throw 1;
    }
    ++nodes;
    auto it = name.find(me.id);
    if (it != name.end()) {
      if (it->second != p) bad.push_back({"identity", at + " should hold node " + std::to_string(me.id) + " itself"});
    } else {
      if (named.count(p)) bad.push_back({"identity", at + " should hold a new node"});
      auto f = fresh.find(me.id);
      if (f != fresh.end()) bad.push_back({"shared", at + " shares its node"});
      for (auto& x : fresh)
        if (x.second == p) bad.push_back({"shared", at + " shares its node"});
      fresh[me.id] = p;
    }
    if (n.val != me.val) bad.push_back({"value", at + " has value " + std::to_string(n.val) + ", should have " + std::to_string(me.val)});
    auto ti = type_of.find(me.id);
    auto tv = type_of_val.find(me.val);
    int want = ti != type_of.end() && it != name.end() ? ti->second : tv != type_of_val.end() ? tv->second : 0;
    if (want && n.ty() != want) bad.push_back({"type", at + " has the wrong dynamic type"});
    if (static_cast<int>(n.kids().size()) != me.n) {
      bad.push_back({"kids", at + " has " + std::to_string(n.kids().size()) + " children, should have " + std::to_string(me.n)});
      throw 1;
    }
    for (int k = 0; k < me.n; ++k) look(n.kids()[static_cast<std::size_t>(k)], t, i, at + "." + std::to_string(k + 1), bad);
  }
  void check(const std::vector<Tok>* t, const bool* has, std::vector<Item>& bad) {
    nodes = 0;
    fresh.clear();
    try {
      for (int r = 0; r < 2; ++r) {
        if (alive[r] != has[r]) {
          bad.push_back({"exists", "root " + std::to_string(r + 1)});
          return;
        }
        if (!has[r]) continue;
        std::size_t i = 0;
        look(root(r), t[r], i, "root" + std::to_string(r + 1), bad);
      }
    } catch (int) {
      return;
    }
    int live = 0;
    for (auto& o : W().objs) live += o.second.alive && !o.second.external;
    if (live != nodes) bad.push_back({"leak-object", std::to_string(live) + " nodes are alive, " + std::to_string(nodes) + " are owned"});
    if (W().live_blocks != nodes) bad.push_back({"leak-storage", std::to_string(W().live_blocks) + " blocks are allocated, " + std::to_string(nodes) + " are owned"});
#if VT_KIND == 1
    if (has[0] && has[1] && bad.empty()) {
      bool eq = t[0].size() == t[1].size();
      for (std::size_t i = 0; eq && i < t[0].size(); ++i) eq = t[0][i].n == t[1][i].n && (t[0][i].id == 0) == (t[1][i].id == 0) && t[0][i].val == t[1][i].val;
      if ((root(0) == root(1)) != eq) bad.push_back({"cmp", "== of the two roots"});
    }
#endif
    for (auto& e : W().errs) bad.push_back({e.code, e.detail});
    W().errs.clear();
  }
  void run(const TEdge& e, int variant, std::vector<Item>& bad) {
    int exc = 0;
    O* q = e.q.empty() ? nullptr : find(e.q);
    const O* cq = q;
    O* p = e.o == 5 || e.o == 6 || e.o == 8 ? find(e.p) : nullptr;
    int r = e.p[0] - 1;
    A a(static_cast<unsigned>(e.a < 0 ? 0 : e.a), 0);
    W().begin(e.k);
    W().skip = e.n > 0 ? e.n - 1 : 0;
    switch (e.o) {
      case 3:
        if (e.a < 0) {
          if (variant % 2) { VT_TRY(::new (static_cast<void*>(mem[r])) O(*cq)) }
          else { VT_TRY(::new (static_cast<void*>(mem[r])) O(*q)) }
        } else { VT_TRY(::new (static_cast<void*>(mem[r])) O(std::allocator_arg, a, *cq)) }
        alive[r] = !exc;
        break;
      case 4:
        if (e.a < 0) { VT_TRY(::new (static_cast<void*>(mem[r])) O(std::move(*q))) }
        else { VT_TRY(::new (static_cast<void*>(mem[r])) O(std::allocator_arg, a, std::move(*q))) }
        alive[r] = !exc;
        break;
      case 5:
        if (variant % 2) { VT_TRY(*p = *cq) }
        else { VT_TRY(*p = *q) }
        break;
      case 6:
        VT_TRY(*p = std::move(*q))
        break;
      case 8:
        if (variant % 2) { VT_TRY(swap(*p, *q)) }
        else { VT_TRY(p->swap(*q)) }
        break;
      case 9:
        VT_TRY(root(r).~O())
        alive[r] = false;
        break;
    }
    bool fired = W().fired;
    W().end();
    if (e.k && !fired) bad.push_back({"no-fault-point", "the step that should have failed was never reached"});
    if (exc != e.exc) bad.push_back({"exc", "propagated " + std::to_string(exc) + ", should be " + std::to_string(e.exc)});
    check(e.post, e.has_post, bad);
  }
  void destroy(std::vector<Item>& bad) {
    W().begin(0);
    for (int r = 0; r < 2; ++r)
      if (alive[r]) {
        root(r).~O();
        alive[r] = false;
      }
    W().end();
    for (auto& o : W().objs)
      if (o.second.alive && !o.second.external) {
        bad.push_back({"leak-object", "a node is alive after its last owner is gone"});
        break;
      }
    if (W().live_blocks) bad.push_back({"leak-storage", "storage is allocated after its last owner is gone"});
    for (auto& e : W().errs) bad.push_back({e.code, e.detail});
    W().errs.clear();
  }
};

static std::string jq(const std::string& s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') r += '\\';
    r += c;
  }
  return r;
}
static void report(const std::vector<TEdge>& es, const TShared& sh, int ei, const std::vector<Item>& bad) {
  const TEdge& e = es[static_cast<std::size_t>(ei)];
  std::string s = "{\"mismatch\":1,\"o\":" + std::to_string(e.o) + ",\"k\":" + std::to_string(e.k) + ",\"op\":\"" + op_text(e) + "\",\"cfg\":[";
  for (int i = 0; i < 6; ++i) s += (i ? "," : "") + std::to_string(e.cfg[i]);
  s += "],\"items\":[";
  for (std::size_t i = 0; i < bad.size() && i < 8; ++i) s += std::string(i ? "," : "") + "{\"code\":\"" + bad[i].code + "\",\"detail\":\"" + jq(bad[i].detail) + "\"}";
  s += "],\"hist\":[";
  for (int i = 0; i < sh.hist_n; ++i) s += std::string(i ? "," : "") + "\"" + es[static_cast<std::size_t>(sh.hist[i])].line + "\"";
  s += "]}";
  std::printf("%s\n", s.c_str());
}

template <class C>
void walk(const std::vector<TEdge>& es, unsigned seed, bool one) {
  TShared* sh = static_cast<TShared*>(mmap(nullptr, sizeof(TShared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  char* done = static_cast<char*>(mmap(nullptr, es.size() + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::map<std::string, std::vector<int>> index;
  for (std::size_t i = 0; i < es.size(); ++i) index[es[i].key].push_back(static_cast<int>(i));
  int crashes = 0;
  for (;;) {
    sh->edge = -1;
    int rc = in_child(120, [&] {
      Forest<C> f;
      Rng rng(seed);
      std::size_t next = 0;
      int found = 0;
      std::vector<std::size_t> order(es.size());
      for (std::size_t i = 0; i < order.size(); ++i) order[i] = i;
      if (!one)
        for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[static_cast<std::size_t>(rng.below(static_cast<int>(i)))]);
      while (found < 60) {
        while (next < es.size() && done[order[next]]) ++next;
        if (next == es.size()) break;
        int ei = static_cast<int>(order[next]);
        std::vector<Item> bad;
        sh->hist_n = 0;
        sh->edge = ei;
        f.build(es[static_cast<std::size_t>(ei)]);
        f.rename(es[static_cast<std::size_t>(ei)]);
        f.check(es[static_cast<std::size_t>(ei)].pre, es[static_cast<std::size_t>(ei)].has_pre, bad);
        sh->builds = sh->builds + 1;
        sh->hist[0] = ei;
        if (!bad.empty()) {
          bad.insert(bad.begin(), Item{"build", "the structure before the call could not be built"});
          sh->hist_n = 1;
          report(es, *sh, ei, bad);
          done[ei] = 1;
          ++found;
          continue;
        }
        bool ok = true;
        while (ok && sh->hist_n < 200) {
          const TEdge& e = es[static_cast<std::size_t>(ei)];
          sh->edge = ei;
          sh->hist[sh->hist_n] = ei;
          sh->hist_n = sh->hist_n + 1;
          done[ei] = 1;
          sh->steps = sh->steps + 1;
          f.run(e, ei + static_cast<int>(seed), bad);
          if (!bad.empty()) {
            report(es, *sh, ei, bad);
            ++found;
            ok = false;
            break;
          }
          auto it = index.find(key_of(e.post, e.has_post));
          if (it == index.end() || it->second.empty()) break;
          if (one) {
            if (static_cast<std::size_t>(ei) + 1 == es.size() || es[static_cast<std::size_t>(ei) + 1].key != it->first) break;
            ++ei;
          } else {
            int pick = -1;
            while (!it->second.empty()) {  // any edge of this state not taken yet
              std::size_t j = static_cast<std::size_t>(rng.below(static_cast<int>(it->second.size())));
              int c = it->second[j];
              it->second[j] = it->second.back();
              it->second.pop_back();
              if (!done[c]) {
                pick = c;
                break;
              }
            }
            if (pick < 0) break;
            ei = pick;
          }
          f.rename(es[static_cast<std::size_t>(ei)]);
        }
        if (ok) {
          f.destroy(bad);
          if (!bad.empty()) {
            report(es, *sh, ei, bad);
            ++found;
          }
        }
        f.alive[0] = f.alive[1] = false;
      }
    });
    if (!rc) break;
    if (rc >= 1000 || sh->edge < 0 || ++crashes > 8) {
      if (crashes <= 8) std::printf("{\"fatal\":\"child exit %d\"}\n", rc);
      break;
    }
    done[sh->edge] = 1;
    if (!sh->hist_n) {
      sh->hist[0] = sh->edge;
      sh->hist_n = 1;
    }
    report(es, *sh, sh->edge, {Item{std::string("crash-") + signame(rc), "the program died during this call"}});
  }
  long covered = 0;
  for (std::size_t i = 0; i < es.size(); ++i) covered += done[i];
  std::printf("{\"summary\":1,\"edges\":%ld,\"covered\":%ld,\"steps\":%ld,\"builds\":%ld}\n", static_cast<long>(es.size()), covered, sh->steps, sh->builds);
}

int main(int argc, char** argv) {
  unsigned seed = 1;
  bool one = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--seed") {
      seed = static_cast<unsigned>(std::atoi(argv[++i]));
      continue;
    }
    if (a == "--one") {
      one = true;
      continue;
    }
    std::vector<TEdge> es = load(argv[i]);
    if (es.empty()) {
      std::printf("{\"fatal\":\"no transitions in %s\"}\n", argv[i]);
      return 0;
    }
    const int* c = es[0].cfg;
    if (c[0] != VT_KIND) return 2;
    int m = c[1] | c[2] << 1 | c[3] << 2 | c[4] << 3 | c[5] << 4;
#define VT_RUN(x) \
  case x: walk<Cfg<((x) & 1) != 0, ((x) & 2) != 0, ((x) & 4) != 0, ((x) & 8) != 0, ((x) & 16) != 0>>(es, seed, one); break;
    switch (m) {  // see CONFIGS in tools/engines/tree.py
      VT_RUN(0) VT_RUN(2) VT_RUN(5) VT_RUN(6) VT_RUN(7) VT_RUN(8) VT_RUN(17) VT_RUN(23) VT_RUN(31)
      default: std::printf("{\"fatal\":\"configuration not compiled in\"}\n");
    }
  }
  std::printf("{\"done\":1}\n");
}
