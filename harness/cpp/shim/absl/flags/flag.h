// Stand-in for absl's flags library, whose compiled part is not in this sandbox.
#ifndef VERIF_SHIM_FLAG_H_
#define VERIF_SHIM_FLAG_H_
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace verif_flags {
inline std::map<std::string, std::function<void(const std::string&)>>& Setters() {
  static auto* m = new std::map<std::string, std::function<void(const std::string&)>>;
  return *m;
}
inline void Set(std::string* v, const std::string& s) { *v = s; }
inline void Set(double* v, const std::string& s) { *v = atof(s.c_str()); }
inline void Set(float* v, const std::string& s) { *v = atof(s.c_str()); }
inline void Set(int32_t* v, const std::string& s) { *v = atoi(s.c_str()); }
inline void Set(int64_t* v, const std::string& s) { *v = atoll(s.c_str()); }
inline void Set(bool* v, const std::string& s) { *v = s != "false" && s != "0"; }
inline void Set(std::vector<std::string>* v, const std::string& s) {
  v->clear();
  if (s.empty()) return;
  size_t a = 0;
  for (size_t b; (b = s.find(',', a)) != std::string::npos; a = b + 1) v->push_back(s.substr(a, b - a));
  v->push_back(s.substr(a));
}
template <class T>
struct Flag {
  T value;
  Flag(const char* name, T v) : value(v) {
    Setters()[name] = [this](const std::string& s) { Set(&value, s); };
  }
};
}  // namespace verif_flags
namespace absl {
template <class T>
T GetFlag(const verif_flags::Flag<T>& f) { return f.value; }
template <class T, class V>
void SetFlag(verif_flags::Flag<T>* f, const V& v) { f->value = T(v); }
}  // namespace absl
#define ABSL_FLAG(T, name, ...) VERIF_FLAG_(T, name, __VA_ARGS__)
// The default may be a braced list; the help text is dropped.
#define VERIF_FLAG_(T, name, def, ...) \
  verif_flags::Flag<T> FLAGS_##name(#name, verif_flags_default<T>(def))
template <class T>
T verif_flags_default(T v) { return v; }
#define ABSL_DECLARE_FLAG(T, name) extern verif_flags::Flag<T> FLAGS_##name
#endif
