// replay GRAPH... : walks every transition of every configuration of the files.
//   --seed N --extra N --label L --types a,b,c   (concrete type of abstract type 2,3,4)
//   --seq : the (single) file is one history, executed in order
//   --terms : runs the calls the specification says end the program, each in a child
// Compile with -DVT_V=14|20 -DVT_KIND=1|2 -DVT_POCCA_ONLY=0|1 (one half of the configurations) -DVT_MV=..
#include "runner.h"
#ifndef VT_MV
#define VT_MV 0
#endif
#ifndef VT_VD
#define VT_VD true
#endif
using namespace vt;

template <class C>
Runner* make(const int* types) {
#if VT_KIND == 1
  (void)types;
  return new IndRunner<VT_MV, C>();
#else
  auto* r = new PolyRunner<VT_MV, VT_VD, C>();
  for (int i = 0; i < 3; ++i) r->tymap[2 + i] = types[i];
  return r;
#endif
}

static Runner* runner_for(const CfgKey& k, const int* types) {
  if (k.mv != VT_MV) return nullptr;
#define VT_CASE(a, b, c, d, e) \
  if (k.pocca == a && k.pocma == b && k.pocs == c && k.ae == d && k.sel == e) return make<Cfg<a, b, c, d, e>>(types);
#define VT_C5(a, b, c, d) VT_CASE(a, b, c, d, 0) VT_CASE(a, b, c, d, 1)
#define VT_C4(a, b, c) VT_C5(a, b, c, 0) VT_C5(a, b, c, 1)
#define VT_C3(a, b) VT_C4(a, b, 0) VT_C4(a, b, 1)
#ifdef VT_POCCA_ONLY
#ifdef VT_POCMA_ONLY
  VT_C3(VT_POCCA_ONLY, VT_POCMA_ONLY)
#else
  VT_C3(VT_POCCA_ONLY, 0) VT_C3(VT_POCCA_ONLY, 1)
#endif
#else
  VT_C3(0, 0) VT_C3(0, 1) VT_C3(1, 0) VT_C3(1, 1)
#endif
  return nullptr;
}

int main(int argc, char** argv) {
  Options opt;
  int types[3] = {2, 3, 4};
  bool terms = false;
  std::size_t max_terms = 1000000;
  std::vector<const char*> files;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--seed") opt.seed = static_cast<unsigned>(std::atoi(argv[++i]));
    else if (a == "--extra") opt.extra = std::atol(argv[++i]);
    else if (a == "--label") opt.label = argv[++i];
    else if (a == "--variant") opt.variant_fix = std::atoi(argv[++i]);
    else if (a == "--types") std::sscanf(argv[++i], "%d,%d,%d", &types[0], &types[1], &types[2]);
    else if (a == "--seq") opt.seq = true;
    else if (a == "--terms") terms = true;
    else if (a == "--max-terms") max_terms = static_cast<std::size_t>(std::atol(argv[++i]));
    else files.push_back(argv[i]);
  }
  Book book;
  book.keep_seq = opt.seq;
  for (auto f : files) book.load(f, VT_KIND);
  if (opt.seq) {
    if (book.seq.empty()) return 2;
    CfgKey key = book.seq[0].first;
    Graph& g = book.graphs[key];
    Runner* r = runner_for(key, types);
    if (!r) {
      std::fprintf(stderr, "configuration not compiled in\n");
      return 2;
    }
    Shared* sh = shared();
    int rc = in_child(60, [&] {
      bool bad = false;
      for (int var = 0; var < 6 && !bad; ++var) {
        opt.variant_fix = var;
        Walker w(g, *r, *sh, opt);
        w.restart();
        for (std::size_t i = 0; i < g.edges.size(); ++i) {
          if (var == 0) std::printf("step %s\n", op_str(g.edges[i].op).c_str());
          if (!w.step(static_cast<int>(i)) || w.mismatches_) {
            bad = true;
            break;
          }
        }
      }
    });
    if (rc) std::printf("{\"mismatch\":1,\"items\":[{\"code\":\"crash-%s\"}]}\n", signame(rc));
    return 0;
  }
  long ran = 0;
  for (auto& kv : book.graphs) {
    Runner* r = runner_for(kv.first, types);
    if (!r) continue;
    ++ran;
    if (terms) {
      auto& ts = kv.second.terms;
      std::size_t stride = ts.size() / max_terms + 1;
      for (std::size_t ti = opt.seed % stride; ti < ts.size(); ti += stride) {
        auto& e = ts[ti];
        // reach the pre-state on a shortest path, then fail inside the call
        Graph& g = kv.second;
        std::vector<int> from(g.nodes.size(), -2), q{0};
        from[0] = -1;
        for (std::size_t h = 0; h < q.size() && from[static_cast<std::size_t>(e.pre)] == -2; ++h)
          for (int ei : g.out[static_cast<std::size_t>(q[h])])
            if (g.edges[static_cast<std::size_t>(ei)].exc == 0 && from[static_cast<std::size_t>(g.edges[static_cast<std::size_t>(ei)].post)] == -2) {
              from[static_cast<std::size_t>(g.edges[static_cast<std::size_t>(ei)].post)] = ei;
              q.push_back(g.edges[static_cast<std::size_t>(ei)].post);
            }
        std::vector<int> path;
        for (int n = e.pre; n != 0;) {
          path.push_back(from[static_cast<std::size_t>(n)]);
          n = g.edges[static_cast<std::size_t>(path.back())].pre;
        }
        std::reverse(path.begin(), path.end());
        Shared* sh = shared();
        int rc = in_child(10, [&] {
          std::fclose(stderr);
          Walker w(g, *r, *sh, opt);
          w.restart();
          for (int ei : path)
            if (!w.step(ei)) _exit(3);
          std::vector<Mismatch> mm;
          Stepper::Outcome o = w.st_.run(e.op, 0, mm);
          _exit(o.exc ? 4 : 5);
        });
        munmap(sh, sizeof(Shared));
        std::printf("{\"term\":1,\"label\":\"%s\",\"cfgv\":[%d,%d,%d,%d,%d,%d,%d],\"op\":\"%s\",\"o\":%d,\"k\":%d,\"rc\":%d}\n", opt.label.c_str(), g.key.kind, g.key.pocca, g.key.pocma, g.key.pocs, g.key.ae, g.key.sel, g.key.mv, op_str(e.op).c_str(), e.op.o, e.op.k, rc);
      }
      continue;
    }
    walk_cfg(kv.second, *r, opt);
  }
  std::printf("{\"done\":1,\"label\":\"%s\",\"configs\":%ld}\n", opt.label.c_str(), ran);
  return 0;
}
