// Which memory a call touches.  The translation unit under test is compiled with -fsanitize=thread, which makes the
// compiler announce every load and store; footrt.cc (compiled without) receives the announcements and classifies them.
#ifndef VT_FOOTRT_H
#define VT_FOOTRT_H
#include <cstddef>
namespace foot {
// classes of memory: slots 1..MAXS, objects of slots 11..10+MAXS, 20 storage obtained by this call, 21 the caller's values,
// 22 storage that had been given back, 23 anything else that outlives the call
constexpr int MAXS = 3;
enum { CObj = 10, CFresh = 20, CArg = 21, CStale = 22, CForeign = 23, CEND = 24 };
void slot_at(int s, const void* p, std::size_t n);
void owns(int s, const void* obj);  // obj: any address inside the owned object, or null
void* arg_mem(std::size_t n);
void* allocate(std::size_t n);
void deallocate(void* p);
void fail_at(int kind);             // 1 allocation, 2 construction, 3 assignment; 0 none
void maybe_fail(int kind);          // throws int
void begin();
void end();
bool did_read(int c);
bool did_write(int c);
const char* note();                 // the first foreign address written, for humans
int random(int n);
void seed(unsigned s);
}  // namespace foot
#endif
