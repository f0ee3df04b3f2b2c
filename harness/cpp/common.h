// Shared by the harnesses: a token reader, a JSON writer, protos as hex.
#ifndef VERIF_COMMON_H_
#define VERIF_COMMON_H_
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <sstream>
#include <string>
#include <vector>

namespace vh {

class In {
 public:
  explicit In(const std::string& line) : s_(line) {}
  std::string tok() {
    std::string t;
    if (!(s_ >> t)) {
      std::cerr << "harness: short request\n";
      std::_Exit(97);
    }
    return t;
  }
  long long i() { return atoll(tok().c_str()); }
  double d() { return atof(tok().c_str()); }
  std::vector<int> ints() {
    std::vector<int> v(i());
    for (auto& x : v) x = i();
    return v;
  }
  std::vector<double> doubles() {
    std::vector<double> v(i());
    for (auto& x : v) x = d();
    return v;
  }
  std::vector<float> floats() {
    std::vector<float> v(i());
    for (auto& x : v) x = d();
    return v;
  }
  std::string bytes() {
    std::string t = tok(), r;
    if (t == "-") return r;
    r.reserve(t.size() / 2);
    auto h = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
    for (size_t k = 0; k + 1 < t.size(); k += 2) r.push_back(h(t[k]) * 16 + h(t[k + 1]));
    return r;
  }
  template <class P>
  P proto() {
    P p;
    if (!p.ParseFromString(bytes())) {
      std::cerr << "harness: bad proto\n";
      std::_Exit(97);
    }
    return p;
  }
  template <class P>
  std::vector<P> protos() {
    std::vector<P> v(i());
    for (auto& x : v) x = proto<P>();
    return v;
  }

 private:
  std::istringstream s_;
};

inline std::string Hex(const std::string& b) {
  static const char* d = "0123456789abcdef";
  std::string r;
  r.reserve(b.size() * 2);
  for (unsigned char c : b) {
    r.push_back(d[c >> 4]);
    r.push_back(d[c & 15]);
  }
  return r;
}

// JSON output.
inline std::string J(int x) { return std::to_string(x); }
inline std::string J(long long x) { return std::to_string(x); }
inline std::string J(long x) { return std::to_string(x); }
inline std::string J(size_t x) { return std::to_string(x); }
inline std::string J(bool x) { return x ? "true" : "false"; }
inline std::string J(double x) {
  if (std::isnan(x)) return "\"nan\"";
  if (std::isinf(x)) return x > 0 ? "\"inf\"" : "\"-inf\"";
  char b[40];
  snprintf(b, sizeof b, "%.17g", x);
  return b;
}
inline std::string J(float x) { return J(static_cast<double>(x)); }
inline std::string J(const std::string& x) {
  std::string r = "\"";
  for (unsigned char c : x) {
    if (c == '"' || c == '\\') {
      r.push_back('\\');
      r.push_back(c);
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r.push_back(c);
    }
  }
  return r + "\"";
}
inline std::string J(const char* x) { return J(std::string(x)); }
struct Raw {
  std::string s;
};
inline std::string J(const Raw& x) { return x.s; }
template <class T>
std::string J(const std::vector<T>& v) {
  std::string r = "[";
  bool first = true;
  for (const auto& x : v) {
    if (!first) r += ",";
    first = false;
    r += J(static_cast<T>(x));
  }
  return r + "]";
}
template <class P>
std::string PJ(const std::vector<P>& v) {  // protos
  std::vector<std::string> h;
  for (const auto& x : v) h.push_back(Hex(x.SerializeAsString()));
  return J(h);
}

class Obj {
 public:
  template <class T>
  Obj& add(const std::string& k, const T& v) {
    return raw(k, J(v));
  }
  Obj& raw(const std::string& k, const std::string& json) {
    s_ += (s_.empty() ? "" : ",") + J(k) + ":" + json;
    return *this;
  }
  std::string str() const { return "{" + s_ + "}"; }

 private:
  std::string s_;
};

using Op = std::function<std::string(In&)>;

inline int Serve(const std::map<std::string, Op>& ops) {
  std::ios::sync_with_stdio(false);
  std::string line;
  while (std::getline(std::cin, line)) {
    In in(line);
    const std::string name = in.tok();
    auto it = ops.find(name);
    if (it == ops.end()) {
      std::cerr << "harness: no op " << name << "\n";
      std::_Exit(97);
    }
    const std::string r = it->second(in);
    std::fwrite(r.data(), 1, r.size(), stdout);
    std::fputc('\n', stdout);
    std::fflush(stdout);
  }
  return 0;
}

}  // namespace vh
#endif
