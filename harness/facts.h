// Facts about the real code, one JSON object per line; judged by spec/VTFacts.tla.
#ifndef VT_FACTS_H
#define VT_FACTS_H
#include <cstdio>
#include <string>
#include <utility>
#ifndef VT_V
#error "VT_V"
#endif
namespace vt {
struct Fact {
  std::string s;
  explicit Fact(const char* f) { s = std::string("{\"f\":\"") + f + "\",\"impl\":" + std::to_string(VT_V); }
  Fact& i(const char* k, long v) {
    s += std::string(",\"") + k + "\":" + std::to_string(v);
    return *this;
  }
  Fact& b(const char* k, bool v) {
    s += std::string(",\"") + k + "\":" + (v ? "true" : "false");
    return *this;
  }
  Fact& t(const char* k, const std::string& v) {
    s += std::string(",\"") + k + "\":\"" + v + "\"";
    return *this;
  }
  Fact& raw(const char* k, const std::string& v) {
    s += std::string(",\"") + k + "\":" + v;
    return *this;
  }
  ~Fact() { std::printf("%s}\n", s.c_str()); }
};
template <class X>
struct TypeName;
}  // namespace vt
#endif
