#include "footrt.h"
#include <dlfcn.h>
#include <pthread.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>

namespace foot {
namespace {
struct Range { const char *lo, *hi; };
struct Block { char* p; std::size_t n; int state; int owner; };  // state 0 freed, 1 old, 2 obtained by the running call
Range slots[MAXS + 1], args;
const void* owned[MAXS + 1];
char* arena;
std::size_t used, cap = std::size_t(64) << 20;
Block* blocks;
int nblocks;
bool on, rd[CEND], wr[CEND];
int failing;
char first[200];
const char *stack_lo, *stack_hi, *tls_lo, *tls_hi;
unsigned long rng = 1;
char argbuf[4096] __attribute__((aligned(64)));
std::size_t argused;

void setup() {
  if (arena) return;
  arena = static_cast<char*>(std::malloc(cap));
  blocks = static_cast<Block*>(std::malloc(sizeof(Block) * 200000));
  pthread_attr_t a;
  void* base;
  std::size_t n;
  pthread_getattr_np(pthread_self(), &a);
  pthread_attr_getstack(&a, &base, &n);
  stack_lo = static_cast<char*>(base);
  stack_hi = stack_lo + n;
  tls_hi = static_cast<const char*>(__builtin_thread_pointer());
  tls_lo = tls_hi - 8192;
  args = Range{argbuf, argbuf + sizeof argbuf};
}
int classify(const char* p) {
  if (p >= stack_lo && p < stack_hi) return -1;
  if (p >= tls_lo && p < tls_hi) return -1;
  for (int s = 1; s <= MAXS; ++s)
    if (p >= slots[s].lo && p < slots[s].hi) return s;
  if (p >= arena && p < arena + cap) {
    int lo = 0, hi = nblocks;
    while (lo < hi) {
      int m = (lo + hi) / 2;
      if (blocks[m].p + blocks[m].n <= p) lo = m + 1;
      else hi = m;
    }
    if (lo == nblocks || p < blocks[lo].p) return CForeign;
    const Block& b = blocks[lo];
    return b.state == 0 ? CStale : b.state == 2 ? CFresh : b.owner ? CObj + b.owner : CForeign;
  }
  if (p >= args.lo && p < args.hi) return CArg;
  return CForeign;
}
void note_access(const void* p, std::size_t n, bool w) {
  const char* q = static_cast<const char*>(p);
  for (std::size_t i = 0; i < n; i += n > 1 ? n - 1 : 1) {
    int c = classify(q + i);
    if (c < 0) continue;
    (w ? wr : rd)[c] = true;
    if (w && (c == CForeign || c == CStale) && !first[0]) {
      Dl_info d;
      std::memset(&d, 0, sizeof d);
      dladdr(p, &d);
      std::snprintf(first, sizeof first, "%s", d.dli_sname ? d.dli_sname : "?");
      for (char* f = first; *f; ++f)
        if (*f == '"' || *f == '\\') *f = '?';
    }
  }
}
Block* find(const void* p) {
  for (int i = nblocks; i-- > 0;)
    if (static_cast<const char*>(p) >= blocks[i].p && static_cast<const char*>(p) < blocks[i].p + blocks[i].n) return &blocks[i];
  return nullptr;
}
}  // namespace

void slot_at(int s, const void* p, std::size_t n) { setup(); slots[s] = Range{static_cast<const char*>(p), static_cast<const char*>(p) + n}; }
void owns(int s, const void* p) { owned[s] = p; }
void* arg_mem(std::size_t n) {
  setup();
  n = (n + 63) / 64 * 64;
  if (argused + n > sizeof argbuf) std::abort();
  void* p = argbuf + argused;
  argused += n;
  return p;
}
void* allocate(std::size_t n) {
  setup();
  maybe_fail(1);
  std::size_t m = (n + 63) / 64 * 64;
  if (used + m > cap || nblocks >= 199999) { std::fprintf(stderr, "arena full\n"); std::abort(); }
  char* p = arena + used;
  used += m;
  blocks[nblocks++] = Block{p, n, 2, 0};
  return p;
}
void deallocate(void* p) {
  Block* b = find(p);
  if (!b || b->p != p || b->state == 0) { std::fprintf(stderr, "bad deallocation\n"); std::abort(); }
  b->state = 0;
}
void fail_at(int k) { failing = k; }
void maybe_fail(int k) {
  if (on && failing == k) {
    failing = 0;
    throw int(k);
  }
}
void begin() {
  setup();
  std::memset(rd, 0, sizeof rd);
  std::memset(wr, 0, sizeof wr);
  first[0] = 0;
  for (int i = 0; i < nblocks; ++i) {
    if (blocks[i].state == 2) blocks[i].state = 1;
    blocks[i].owner = 0;
  }
  for (int s = 1; s <= MAXS; ++s)
    if (owned[s])
      if (Block* b = find(owned[s])) b->owner = s;
  on = true;
}
void end() { on = false; failing = 0; }
bool did_read(int c) { return rd[c]; }
bool did_write(int c) { return wr[c]; }
const char* note() { return first; }
void seed(unsigned s) { rng = s * 2654435761ul + 12345; }
int random(int n) {
  rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
  return static_cast<int>((rng >> 11) % static_cast<unsigned>(n));
}
inline void acc(const void* p, std::size_t n, bool w) { if (on) note_access(p, n, w); }
}  // namespace foot

extern "C" {
using foot::acc;
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                                     \
  void __tsan_read##n(void* p) { acc(p, n, false); }                              \
  void __tsan_write##n(void* p) { acc(p, n, true); }                              \
  void __tsan_unaligned_read##n(void* p) { acc(p, n, false); }                    \
  void __tsan_unaligned_write##n(void* p) { acc(p, n, true); }                    \
  void __tsan_volatile_read##n(void* p) { acc(p, n, false); }                     \
  void __tsan_volatile_write##n(void* p) { acc(p, n, true); }                     \
  void __tsan_unaligned_volatile_read##n(void* p) { acc(p, n, false); }           \
  void __tsan_unaligned_volatile_write##n(void* p) { acc(p, n, true); }           \
  void __tsan_read_write##n(void* p) { acc(p, n, false); acc(p, n, true); }       \
  void __tsan_unaligned_read_write##n(void* p) { acc(p, n, false); acc(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, std::size_t n) { acc(p, n, false); }
void __tsan_write_range(void* p, std::size_t n) { acc(p, n, true); }
void __tsan_vptr_update(void** p, void*) { acc(p, 8, true); }
void __tsan_vptr_read(void** p) { acc(p, 8, false); }
void* __tsan_memcpy(void* d, const void* s, std::size_t n) { acc(s, n, false); acc(d, n, true); return std::memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, std::size_t n) { acc(s, n, false); acc(d, n, true); return std::memmove(d, s, n); }
void* __tsan_memset(void* d, int v, std::size_t n) { acc(d, n, true); return std::memset(d, v, n); }
// atomic accesses are synchronised by definition
#define AT(b, T)                                                                                                              \
  T __tsan_atomic##b##_load(const volatile T* a, int) { return __atomic_load_n(a, 5); }                                       \
  void __tsan_atomic##b##_store(volatile T* a, T v, int) { __atomic_store_n(a, v, 5); }                                       \
  T __tsan_atomic##b##_exchange(volatile T* a, T v, int) { return __atomic_exchange_n(a, v, 5); }                             \
  T __tsan_atomic##b##_fetch_add(volatile T* a, T v, int) { return __atomic_fetch_add(a, v, 5); }                             \
  T __tsan_atomic##b##_fetch_sub(volatile T* a, T v, int) { return __atomic_fetch_sub(a, v, 5); }                             \
  T __tsan_atomic##b##_fetch_and(volatile T* a, T v, int) { return __atomic_fetch_and(a, v, 5); }                             \
  T __tsan_atomic##b##_fetch_or(volatile T* a, T v, int) { return __atomic_fetch_or(a, v, 5); }                               \
  T __tsan_atomic##b##_fetch_xor(volatile T* a, T v, int) { return __atomic_fetch_xor(a, v, 5); }                             \
  T __tsan_atomic##b##_fetch_nand(volatile T* a, T v, int) { return __atomic_fetch_nand(a, v, 5); }                           \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { return __atomic_compare_exchange_n(a, c, v, false, 5, 5); }   \
  T __tsan_atomic##b##_compare_exchange_val(volatile T* a, T c, T v, int, int) { __atomic_compare_exchange_n(a, &c, v, false, 5, 5); return c; }
AT(8, std::uint8_t) AT(16, std::uint16_t) AT(32, std::uint32_t) AT(64, std::uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
