// Walks the behaviours printed by spec/VTGraph.tla through the real code and
// compares everything observable after every step.
#ifndef VT_DRIVER_H
#define VT_DRIVER_H
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
#include <algorithm>
#include <array>
#include <exception>
#include <functional>
#include <iterator>
#include <set>
#include <tuple>
#include "vt.h"

namespace vt {

enum OpK { CDEF = 1, CVAL, CCOPY, CMOVE, ACOPY, AMOVE, AVAL, SWAP, KILL, MUT };
constexpr int MAXS = 6;
enum { TPocca = 1, TPocma, TPocs, TAe, TSel };

struct SlotSt {
  int st, al, ty, val;
  bool operator==(const SlotSt& o) const { return st == o.st && al == o.al && ty == o.ty && val == o.val; }
  bool operator<(const SlotSt& o) const {
    return std::tie(st, al, ty, val) < std::tie(o.st, o.al, o.ty, o.val);
  }
};
using State = std::vector<SlotSt>;
struct XEv {
  int k, who, how, src;
  bool operator<(const XEv& o) const { return std::tie(k, who, how, src) < std::tie(o.k, o.who, o.how, o.src); }
  bool operator==(const XEv& o) const { return k == o.k && who == o.who && how == o.how && src == o.src; }
};
struct OpR {
  int o, s, t, a, ty, v, f, k;
};
struct Edge {
  int pre, post;
  OpR op;
  int exc;
  std::vector<int> origin;
  std::vector<XEv> ev;
  bool covered = false;
  int line;
};
struct CfgKey {
  int kind, pocca, pocma, pocs, ae, sel, mv;
  bool operator<(const CfgKey& o) const {
    return std::tie(kind, pocca, pocma, pocs, ae, sel, mv) <
           std::tie(o.kind, o.pocca, o.pocma, o.pocs, o.ae, o.sel, o.mv);
  }
  bool operator==(const CfgKey& o) const { return !(*this < o) && !(o < *this); }
  std::string str() const {
    char b[120];
    std::snprintf(b, sizeof b, "kind=%d pocca=%d pocma=%d pocs=%d ae=%d sel=%d mv=%d", kind, pocca, pocma, pocs, ae, sel, mv);
    return b;
  }
};
struct Graph {
  CfgKey key;
  int ns = 0;
  std::vector<State> nodes;
  std::map<State, int> index;
  std::vector<Edge> edges;
  std::vector<std::vector<int>> out;
  // comparison table per state: [s][t] in {0 none,1 lt,2 eq,3 gt}, and with values 0..9
  std::map<int, std::vector<int>> rel;
  std::vector<Edge> terms;  // calls whose failure ends the program (pre only)
  int node(const State& s) {
    auto it = index.find(s);
    if (it != index.end()) return it->second;
    int i = static_cast<int>(nodes.size());
    nodes.push_back(s);
    out.emplace_back();
    index[s] = i;
    return i;
  }
};

struct Mismatch {
  std::string code, detail;
  int slot;  // 0 none
};

// what the harness sees in a slot
struct Seen {
  int st = 0, al = 0, ty = 0, val = 0;
  const void* obj = nullptr;
  bool good = true;
};

struct Runner {
  virtual ~Runner() {}
  virtual void reset() = 0;
  // runs op with its fault; returns caught fault kind (0 none, -1 foreign)
  virtual int exec(const OpR& op, int variant, std::vector<Mismatch>& mm) = 0;
  virtual Seen look(int s, std::vector<Mismatch>& mm) = 0;
  // relation of slots / slot and value, checked for all operators; -1 inconsistent
  virtual int rel(int, int, std::vector<Mismatch>&) { return 0; }
  virtual int relv(int, int, std::vector<Mismatch>&) { return 0; }
  virtual void hash(int, const Seen&, std::vector<Mismatch>&) {}
  virtual bool has_cmp() const { return false; }
};

inline std::string ev_str(const XEv& e) {
  static const char* kn[] = {"?", "alloc", "construct", "destroy", "dealloc", "assign"};
  static const char* hn[] = {"-", "default", "args", "copy", "move", "ilist", "nonconst-copy", "constrv"};
  char b[120];
  if (e.k == EvA || e.k == EvF)
    std::snprintf(b, sizeof b, "%s(obj%d tag%d)", kn[e.k], e.who, e.how);
  else
    std::snprintf(b, sizeof b, "%s(obj%d %s from obj%d)", kn[e.k], e.who, hn[e.how < 8 ? e.how : 0], e.src);
  return b;
}

// ------------------------------------------------------------------ stepping
struct Stepper {
  Runner& r;
  int ns;
  std::vector<Seen> pre;
  bool check_obs = true;
  explicit Stepper(Runner& rr, int n) : r(rr), ns(n), pre(n + 1) {}
  void reset() {
    W().reset();
    r.reset();
    pre.assign(ns + 1, Seen());
  }
  std::vector<XEv> canon_events() {
    std::vector<XEv> out;
    for (const Ev& e : W().ev) {
      XEv x{e.k, name(e.who), 0, 0};
      if (e.k == EvA || e.k == EvF)
        x.how = e.how;
      else if (e.k == EvC || e.k == EvG) {
        x.how = e.how;
        x.src = e.src ? name(e.src) : 0;
      }
      out.push_back(x);
    }
    return out;
  }
  // objects are named by the slot owning them before the call, 9 new, 0 external, 8 elsewhere
  int name(const void* p) {
    for (int s = 1; s <= ns; ++s) {
      if (!pre[s].obj) continue;
      if (pre[s].obj == p) return s;
    }
    const void* start = nullptr;
    const Block* b = W().block_of(p, &start);
    if (b) {
      for (int s = 1; s <= ns; ++s) {
        const void* st2 = nullptr;
        if (pre[s].obj && W().block_of(pre[s].obj, &st2) && st2 == start) return s;
      }
      return b->fresh ? 9 : 8;
    }
    auto it = W().objs.find(p);
    if (it != W().objs.end() && it->second.external) return 0;
    return 8;
  }
  struct Outcome {
    int exc = 0;
    std::vector<XEv> ev;
    std::vector<Seen> post;
    std::vector<int> origin;
  };
  Outcome run(const OpR& op, int variant, std::vector<Mismatch>& mm) {
    Outcome o;
    W().errs.clear();
    o.exc = r.exec(op, variant, mm);
    o.ev = canon_events();
    o.post.assign(ns + 1, Seen());
    o.origin.assign(ns + 1, 0);
    for (int s = 1; s <= ns; ++s) {
      o.post[s] = r.look(s, mm);
      if (o.post[s].st == 2) o.origin[s] = name(o.post[s].obj);
    }
    for (auto& e : W().errs) mm.push_back(Mismatch{e.code, e.detail, 0});
    W().errs.clear();
    // ledger
    std::set<const void*> owned;
    long engaged = 0;
    for (int s = 1; s <= ns; ++s)
      if (o.post[s].st == 2) {
        ++engaged;
        if (!owned.insert(o.post[s].obj).second) mm.push_back(Mismatch{"shared", "two owners own one object", s});
        const Block* b = W().block_of(o.post[s].obj);
        if (!b || !b->live)
          mm.push_back(Mismatch{"dangling", "owned object is not in live storage", s});
        else if (b->tag != provider_tag(o.post[s].al))
          mm.push_back(Mismatch{"provider", "owner's allocator is unequal to the one that provided its storage", s});
      }
    for (auto& ob : W().objs)
      if (ob.second.alive && !ob.second.external && !owned.count(ob.first)) {
        mm.push_back(Mismatch{"leak-object", "object alive that nobody owns", 0});
        break;
      }
    if (W().live_blocks != engaged) {
      char b[80];
      std::snprintf(b, sizeof b, "%ld blocks allocated, %ld engaged owners", W().live_blocks, engaged);
      mm.push_back(Mismatch{"leak-storage", b, 0});
    }
    return o;
  }
  int provider_tag(int al) const { return ae ? 0 : (al == 2 ? 1 : 0); }
  bool ae = false;
  void settle(const Outcome& o) { pre = o.post; }
};

inline void compare(const Graph& g, const Edge& e, const Stepper::Outcome& o, std::vector<Mismatch>& mm) {
  char b[200];
  if (o.exc != e.exc) {
    std::snprintf(b, sizeof b, "expected failure kind %d, got %d", e.exc, o.exc);
    mm.push_back(Mismatch{"exc", b, 0});
  }
  const State& want = g.nodes[e.post];
  for (int s = 1; s <= g.ns; ++s) {
    const SlotSt& w = want[s - 1];
    const Seen& h = o.post[s];
    if (!h.good) continue;  // already reported
    if ((w.st == 0) != (h.st == 0)) {
      mm.push_back(Mismatch{"exists", "slot existence differs", s});
      continue;
    }
    if (w.st == 0) continue;
    if (w.al != h.al) {
      std::snprintf(b, sizeof b, "slot %d allocator %d, expected %d", s, h.al, w.al);
      mm.push_back(Mismatch{"allocator", b, s});
    }
    if (w.st != h.st) {
      std::snprintf(b, sizeof b, "slot %d is %s, expected %s", s, h.st == 1 ? "valueless" : "engaged", w.st == 1 ? "valueless" : "engaged");
      mm.push_back(Mismatch{"valueless", b, s});
      continue;
    }
    if (w.st != 2) continue;
    if (w.ty != h.ty) {
      std::snprintf(b, sizeof b, "slot %d dynamic type %d, expected %d", s, h.ty, w.ty);
      mm.push_back(Mismatch{"type", b, s});
    }
    if (w.val != h.val) {
      std::snprintf(b, sizeof b, "slot %d value %d, expected %d", s, h.val, w.val);
      mm.push_back(Mismatch{"value", b, s});
    }
    if (o.origin[s] != e.origin[s - 1]) {
      std::snprintf(b, sizeof b, "slot %d owns object %d, expected %d", s, o.origin[s], e.origin[s - 1]);
      mm.push_back(Mismatch{"identity", b, s});
    }
  }
  // events as multisets, per kind
  std::vector<XEv> a = o.ev, w = e.ev;
  std::sort(a.begin(), a.end());
  std::sort(w.begin(), w.end());
  std::vector<XEv> extra, missing;
  std::set_difference(a.begin(), a.end(), w.begin(), w.end(), std::back_inserter(extra));
  std::set_difference(w.begin(), w.end(), a.begin(), a.end(), std::back_inserter(missing));
  static const char* codes[] = {"ev-?", "ev-alloc", "ev-construct", "ev-destroy", "ev-dealloc", "ev-assign"};
  for (auto& x : extra) {
    bool other = false;  // same kind and object, different detail
    for (auto& y : missing)
      if (y.k == x.k && y.who == x.who) other = true;
    std::string c = codes[x.k];
    if (other) c += (x.k == EvA || x.k == EvF) ? "-tag" : "-how";
    mm.push_back(Mismatch{c, "unexpected " + ev_str(x), 0});
  }
  for (auto& x : missing) {
    bool other = false;
    for (auto& y : extra)
      if (y.k == x.k && y.who == x.who) other = true;
    std::string c = codes[x.k];
    if (other) c += (x.k == EvA || x.k == EvF) ? "-tag" : "-how";
    mm.push_back(Mismatch{c, "missing " + ev_str(x), 0});
  }
  // an old object must outlive the construction of its replacement
  int firstD = -1, lastC = -1;
  for (int i = 0; i < static_cast<int>(o.ev.size()); ++i) {
    if (o.ev[i].k == EvD && firstD < 0 && o.ev[i].who != 9) firstD = i;
    if (o.ev[i].k == EvC && o.ev[i].who == 9) lastC = i;
  }
  if (firstD >= 0 && lastC > firstD)
    mm.push_back(Mismatch{"order", "old object destroyed before its replacement was constructed", 0});
}

// ------------------------------------------------------------------ parsing
inline bool ints(const char* p, std::vector<int>& out) {
  out.clear();
  while (*p) {
    if ((*p >= '0' && *p <= '9') || (*p == '-' && p[1] >= '0' && p[1] <= '9')) {
      char* q;
      out.push_back(static_cast<int>(std::strtol(p, &q, 10)));
      p = q;
    } else
      ++p;
  }
  return !out.empty();
}

struct Book {
  std::map<CfgKey, Graph> graphs;
  std::vector<std::pair<CfgKey, Edge>> seq;  // in file order (for --seq)
  std::vector<std::string> lines;
  bool keep_seq = false;
  long nlines = 0;
  static State slots(const std::vector<int>& v, std::size_t& i, int ns) {
    State s;
    for (int k = 0; k < ns; ++k, i += 4) s.push_back(SlotSt{v[i], v[i + 1], v[i + 2], v[i + 3]});
    return s;
  }
  void load(const char* file, int kind) {
    FILE* f = std::fopen(file, "r");
    if (!f) {
      std::fprintf(stderr, "cannot open %s\n", file);
      std::exit(2);
    }
    char* buf = nullptr;
    std::size_t n = 0;
    std::vector<int> v;
    while (getline(&buf, &n, f) > 0) {
      const char* p = std::strstr(buf, "7700");
      if (!p || p - buf > 6) continue;
      ints(p, v);
      CfgKey key{v[1], v[2], v[3], v[4], v[5], v[6], v[7]};
      if (kind && key.kind != kind) continue;
      Graph& g = graphs[key];
      g.key = key;
      std::size_t i = 8;
      int ns = v[i++];
      if (!g.ns) {
        g.ns = ns;
        g.node(State(ns, SlotSt{0, 0, 0, 0}));
      }
      State a = slots(v, i, ns);
      if (v[0] == 77003) {
        g.rel[g.node(a)] = std::vector<int>(v.begin() + static_cast<long>(i), v.end());
        continue;
      }
      Edge e;
      e.pre = g.node(a);
      e.op = OpR{v[i], v[i + 1], v[i + 2], v[i + 3], v[i + 4], v[i + 5], v[i + 6], v[i + 7]};
      i += 8;
      if (v[0] == 77002) {
        g.terms.push_back(e);
        continue;
      }
      e.exc = v[i++];
      State b = slots(v, i, ns);
      e.post = g.node(b);
      for (int k = 0; k < ns; ++k) e.origin.push_back(v[i++]);
      int ne = v[i++];
      for (int k = 0; k < ne; ++k, i += 4) e.ev.push_back(XEv{v[i], v[i + 1], v[i + 2], v[i + 3]});
      if (i != v.size()) {
        std::fprintf(stderr, "malformed edge line\n");
        std::exit(2);
      }
      e.line = static_cast<int>(nlines++);
      if (keep_seq) {
        seq.push_back(std::make_pair(key, e));
      }
      g.out[e.pre].push_back(static_cast<int>(g.edges.size()));
      g.edges.push_back(e);
    }
    std::free(buf);
    std::fclose(f);
  }
};

inline std::string edge_line(const Graph& g, const Edge& e) {
  std::string s;
  auto add = [&s](int x) {
    if (!s.empty()) s += ' ';
    s += std::to_string(x);
  };
  add(77001);
  const CfgKey& c = g.key;
  for (int x : {c.kind, c.pocca, c.pocma, c.pocs, c.ae, c.sel, c.mv, g.ns}) add(x);
  for (auto& q : g.nodes[e.pre])
    for (int x : {q.st, q.al, q.ty, q.val}) add(x);
  for (int x : {e.op.o, e.op.s, e.op.t, e.op.a, e.op.ty, e.op.v, e.op.f, e.op.k, e.exc}) add(x);
  for (auto& q : g.nodes[e.post])
    for (int x : {q.st, q.al, q.ty, q.val}) add(x);
  for (int x : e.origin) add(x);
  add(static_cast<int>(e.ev.size()));
  for (auto& x : e.ev)
    for (int y : {x.k, x.who, x.how, x.src}) add(y);
  return s;
}

inline std::string op_str(const OpR& o) {
  static const char* n[] = {"?", "default-construct", "value-construct", "copy-construct", "move-construct", "copy-assign",
                            "move-assign", "value-assign", "swap", "destroy", "write"};
  char b[160];
  std::snprintf(b, sizeof b, "%s s=%d t=%d alloc=%d type=%d value=%d form=%d fault=%d", n[o.o], o.s, o.t, o.a, o.ty, o.v, o.f, o.k);
  return b;
}

inline std::string jesc(const std::string& s) {
  std::string r;
  for (char ch : s) {
    if (ch == '"' || ch == '\\') r += '\\';
    r += ch;
  }
  return r;
}

// ------------------------------------------------------------------ the walk
struct Shared {  // survives a crash of the child
  volatile int edge;
  volatile long steps, resets;
  volatile int phase;
  volatile int hist_n;
  int hist[4096];
  volatile int variant;
};

struct Rng {
  unsigned long long s;
  explicit Rng(unsigned long long x) : s(x * 6364136223846793005ULL + 1442695040888963407ULL) {}
  unsigned next() {
    s ^= s << 13;
    s ^= s >> 7;
    s ^= s << 17;
    return static_cast<unsigned>(s >> 11);
  }
  int below(int n) { return static_cast<int>(next() % static_cast<unsigned>(n)); }
};

struct Options {
  unsigned seed = 1;
  long extra = 2000;
  int max_report = 40;
  std::string label;
  bool seq = false;
  int variant_fix = -1;
};

class Walker {
 public:
  Walker(Graph& g, Runner& r, Shared& sh, const Options& op) : g_(g), st_(r, g.ns), r_(r), sh_(sh), opt_(op), rng_(op.seed * 7919u + 13u) {
    st_.ae = g.key.ae;
  }
  std::set<std::string> skip;   // classes of edges that crashed
  static std::string cls(const Graph& g, const Edge& e) {
    const State& p = g.nodes[e.pre];
    char b[120];
    int a = p[static_cast<std::size_t>(e.op.s - 1)].st, c = e.op.t ? p[static_cast<std::size_t>(e.op.t - 1)].st : 0;
    std::snprintf(b, sizeof b, "%d/%d/%d/%d/%d/%d", e.op.o, e.op.k, e.op.a >= 0, a, c, e.op.s == e.op.t);
    return b;
  }
  void hist_push(int e) {
    if (sh_.hist_n >= 4096) return;
    sh_.hist[sh_.hist_n] = e;
    sh_.hist_n = sh_.hist_n + 1;
  }
  void restart() {
    st_.reset();
    cur_ = 0;
    sh_.hist_n = 0;
    sh_.resets = sh_.resets + 1;
  }
  // returns false when the world had to be abandoned
  bool step(int ei) {
    Edge& e = g_.edges[static_cast<std::size_t>(ei)];
    sh_.edge = ei;
    hist_push(ei);
    std::vector<Mismatch> mm;
    int variant = opt_.variant_fix >= 0 ? opt_.variant_fix : static_cast<int>(rng_.below(60));
    sh_.variant = variant;
    Stepper::Outcome o = st_.run(e.op, variant, mm);
    compare(g_, e, o, mm);
    e.covered = true;
    sh_.steps = sh_.steps + 1;
    if (mm.empty()) {
      st_.settle(o);
      cur_ = e.post;
      if (r_.has_cmp()) observe(mm);
      if (mm.empty()) return true;
      report(e, mm, variant);
      return true;
    }
    report(e, mm, variant);
    restart();
    return false;
  }
  void observe(std::vector<Mismatch>& mm) {
    auto it = g_.rel.find(cur_);
    if (it == g_.rel.end()) return;
    const std::vector<int>& t = it->second;
    std::size_t i = 0;
    W().begin(FNone);
    for (int a = 1; a <= g_.ns; ++a)
      for (int b = 1; b <= g_.ns; ++b, ++i)
        if (t[i]) {
          W().rec = true;
          int got = r_.rel(a, b, mm);
          ++cmp_;
          if (got != t[i]) mm.push_back(Mismatch{"cmp", "slots " + std::to_string(a) + "," + std::to_string(b) + " compare as " + std::to_string(got) + ", expected " + std::to_string(t[i]) + " (1 less, 2 equal, 3 greater)", a});
        }
    int nv = t[i++];
    for (int a = 1; a <= g_.ns; ++a)
      for (int v = 0; v < nv; ++v, ++i)
        if (t[i]) {
          W().rec = true;
          int got = r_.relv(a, v, mm);
          ++cmp_;
          if (got != t[i]) mm.push_back(Mismatch{"cmp", "slot " + std::to_string(a) + " and value " + std::to_string(v) + " compare as " + std::to_string(got) + ", expected " + std::to_string(t[i]), a});
        }
    for (int a = 1; a <= g_.ns; ++a)
      if (st_.pre[static_cast<std::size_t>(a)].st) W().rec = true, r_.hash(a, st_.pre[static_cast<std::size_t>(a)], mm), ++hash_;
    W().end();
    if (!W().ev.empty()) mm.push_back(Mismatch{"cmp-effect", "comparison or hashing touched elements or storage", 0});
    for (auto& e : W().errs) mm.push_back(Mismatch{e.code, e.detail, 0});
    W().errs.clear();
  }
  void report(const Edge& e, const std::vector<Mismatch>& mm, int variant) {
    ++mismatches_;
    std::string sig = std::to_string(e.op.o) + ":" + std::to_string(e.op.k);
    for (auto& m : mm) sig += "," + m.code;
    if (seen_[sig]++ >= 2 || reported_ >= opt_.max_report) return;
    ++reported_;
    std::printf("{\"mismatch\":1,\"label\":\"%s\",\"cfg\":\"%s\",\"kind\":%d,\"op\":\"%s\",\"o\":%d,\"s\":%d,\"t\":%d,\"a\":%d,\"k\":%d,\"variant\":%d,\"pre_s\":%d,\"pre_t\":%d,\"al_s\":%d,\"al_t\":%d,\"cfgv\":[%d,%d,%d,%d,%d,%d,%d],\"items\":[",
                opt_.label.c_str(), g_.key.str().c_str(), g_.key.kind, jesc(op_str(e.op)).c_str(), e.op.o, e.op.s, e.op.t, e.op.a, e.op.k, variant,
                g_.nodes[e.pre][static_cast<std::size_t>(e.op.s - 1)].st, e.op.t ? g_.nodes[e.pre][static_cast<std::size_t>(e.op.t - 1)].st : 0,
                g_.nodes[e.pre][static_cast<std::size_t>(e.op.s - 1)].al, e.op.t ? g_.nodes[e.pre][static_cast<std::size_t>(e.op.t - 1)].al : 0,
                g_.key.kind, g_.key.pocca, g_.key.pocma, g_.key.pocs, g_.key.ae, g_.key.sel, g_.key.mv);
    for (std::size_t i = 0; i < mm.size(); ++i)
      std::printf("%s{\"code\":\"%s\",\"detail\":\"%s\",\"slot\":%d}", i ? "," : "", mm[i].code.c_str(), jesc(mm[i].detail).c_str(), mm[i].slot);
    std::printf("],\"hist\":[");
    int n = sh_.hist_n;
    for (int i = 0; i < n; ++i) std::printf("%s\"%s\"", i ? "," : "", edge_line(g_, g_.edges[static_cast<std::size_t>(sh_.hist[i])]).c_str());
    std::printf("]}\n");
    std::fflush(stdout);
  }
  bool ok_edge(const Edge& e) const { return skip.empty() || !skip.count(cls(g_, e)); }
  int bfs_to_uncovered(std::vector<int>& path) {
    path.clear();
    std::vector<int> from(g_.nodes.size(), -2);
    std::vector<int> q{cur_};
    from[static_cast<std::size_t>(cur_)] = -1;
    for (std::size_t h = 0; h < q.size(); ++h) {
      int n = q[h];
      for (int ei : g_.out[static_cast<std::size_t>(n)]) {
        Edge& e = g_.edges[static_cast<std::size_t>(ei)];
        if (!ok_edge(e)) continue;
        if (!e.covered) {
          int k = n;
          path.push_back(ei);
          while (from[static_cast<std::size_t>(k)] >= 0) {
            int pe = from[static_cast<std::size_t>(k)];
            path.push_back(pe);
            k = g_.edges[static_cast<std::size_t>(pe)].pre;
          }
          std::reverse(path.begin(), path.end());
          return 1;
        }
        if (from[static_cast<std::size_t>(e.post)] == -2 && e.exc == 0) {
          from[static_cast<std::size_t>(e.post)] = ei;
          q.push_back(e.post);
        }
      }
    }
    return 0;
  }
  void shuffle_out() {
    for (auto& v : g_.out)
      for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[static_cast<std::size_t>(rng_.below(static_cast<int>(i)))]);
  }
  void walk() {
    shuffle_out();
    restart();
    long limit = 0;
    std::vector<int> path;
    while (true) {
      if (sh_.hist_n > 300) restart();
      // prefer an uncovered edge here
      int pick = -1;
      for (int ei : g_.out[static_cast<std::size_t>(cur_)])
        if (!g_.edges[static_cast<std::size_t>(ei)].covered && ok_edge(g_.edges[static_cast<std::size_t>(ei)])) {
          pick = ei;
          break;
        }
      if (pick >= 0) {
        step(pick);
        continue;
      }
      if (!bfs_to_uncovered(path)) {
        if (cur_ == 0) break;
        // unreachable from here (skipped classes): try once more from the start
        restart();
        if (!bfs_to_uncovered(path)) break;
      }
      for (int ei : path)
        if (!step(ei)) break;
      if (++limit > 2000000 || mismatches_ > 300) break;
    }
    restart();
    for (long i = 0; i < opt_.extra && mismatches_ <= 300; ++i) {
      if (sh_.hist_n > 120) restart();
      auto& v = g_.out[static_cast<std::size_t>(cur_)];
      int ei = -1;
      for (int tries = 0; tries < 20; ++tries) {
        int c = v[static_cast<std::size_t>(rng_.below(static_cast<int>(v.size())))];
        if (ok_edge(g_.edges[static_cast<std::size_t>(c)]) && g_.edges[static_cast<std::size_t>(c)].op.o != KILL) {
          ei = c;
          break;
        }
        if (ok_edge(g_.edges[static_cast<std::size_t>(c)])) ei = c;
      }
      if (ei < 0) {
        restart();
        continue;
      }
      step(ei);
    }
  }
  void summary() {
    long cov = 0;
    for (auto& e : g_.edges) cov += e.covered;
    std::printf("{\"summary\":1,\"label\":\"%s\",\"cfg\":\"%s\",\"nodes\":%zu,\"edges\":%zu,\"covered\":%ld,\"steps\":%ld,\"histories\":%ld,\"comparisons\":%ld,\"hashes\":%ld,\"mismatches\":%ld}\n",
                opt_.label.c_str(), g_.key.str().c_str(), g_.nodes.size(), g_.edges.size(), cov, static_cast<long>(sh_.steps), static_cast<long>(sh_.resets), cmp_, hash_, mismatches_);
    std::fflush(stdout);
  }
  Graph& g_;
  Stepper st_;
  Runner& r_;
  Shared& sh_;
  const Options& opt_;
  Rng rng_;
  int cur_ = 0;
  long mismatches_ = 0, cmp_ = 0, hash_ = 0;
  int reported_ = 0;
  std::map<std::string, int> seen_;
};

inline const char* signame(int sig) {
  return sig == SIGSEGV ? "segv" : sig == SIGABRT ? "abort" : sig == SIGXCPU || sig == SIGALRM ? "hang" : sig == SIGBUS ? "bus" : sig == SIGILL ? "ill" : sig == SIGFPE ? "fpe" : sig == SIGKILL ? "killed" : "signal";
}

inline Shared* shared() {
  void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) std::exit(2);
  return static_cast<Shared*>(p);
}

// runs fn in a child; returns 0 or the signal
inline int in_child(unsigned cpu, const std::function<void()>& fn) {
  std::fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    rlimit rl{cpu, cpu + 5};
    setrlimit(RLIMIT_CPU, &rl);
    rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
    std::signal(SIGSEGV, SIG_DFL);
    fn();
    std::fflush(stdout);
    _exit(0);
  }
  int status = 0;
  waitpid(p, &status, 0);
  if (WIFSIGNALED(status)) return WTERMSIG(status);
  return WEXITSTATUS(status) ? 1000 + WEXITSTATUS(status) : 0;
}

inline void walk_cfg(Graph& g, Runner& r, const Options& opt) {
  std::set<std::string> skip;
  for (int attempt = 0; attempt < 10; ++attempt) {
    Shared* sh = shared();
    sh->edge = -1;
    int rc = in_child(60, [&] {
      Walker w(g, r, *sh, opt);
      w.skip = skip;
      w.walk();
      w.summary();
    });
    if (!rc) {
      munmap(sh, sizeof(Shared));
      return;
    }
    if (rc >= 1000) {
      std::printf("{\"fatal\":\"child exit %d\"}\n", rc - 1000);
      return;
    }
    int ei = sh->edge;
    if (ei < 0) {
      std::printf("{\"fatal\":\"crash before the first step\"}\n");
      return;
    }
    Walker w(g, r, *sh, opt);
    Edge& e = g.edges[static_cast<std::size_t>(ei)];
    w.report(e, {Mismatch{std::string("crash-") + signame(rc), std::string("the program died during this call: ") + signame(rc), 0}}, sh->variant);
    skip.insert(Walker::cls(g, e));
    munmap(sh, sizeof(Shared));
  }
}

}  // namespace vt
#endif
