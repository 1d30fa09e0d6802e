// A minimal JSON-lines writer for the drivers: one object per event.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include <array>
#include <vector>
#include <map>
#include <set>
#include <limits>
#include <stdexcept>

namespace emit {
inline std::string str(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}
inline std::string val(const std::string& s) { return str(s); }
inline std::string val(const char* s) { return str(s); }
inline std::string val(bool b) { return b ? "true" : "false"; }
template<class T> std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T,bool>, std::string> val(T x) { return std::to_string(x); }
template<class T> std::enable_if_t<std::is_floating_point_v<T>, std::string> val(T x) {
  if (!std::isfinite(x)) return "\"nonfinite\"";
  char b[40]; std::snprintf(b, 40, "%.17g", (double)x); return b;
}
template<class T, size_t N> std::string val(const std::array<T,N>& v);
template<class T> std::string val(const std::vector<T>& v);
template<class A, class B> std::string val(const std::pair<A,B>& p) { return "[" + val(p.first) + "," + val(p.second) + "]"; }
template<class T> std::string val(const std::set<T>& v) { std::vector<T> w(v.begin(), v.end()); return val(w); }
template<class T> std::string val(const std::vector<T>& v) {
  std::string o = "["; bool f = true;
  for (size_t i=0;i<v.size();++i) { if (!f) o += ","; f = false; T x = v[i]; o += val(x); }
  return o + "]";
}
template<class T, size_t N> std::string val(const std::array<T,N>& v) { return val(std::vector<T>(v.begin(), v.end())); }

class Event {
  std::string s;
public:
  explicit Event(const std::string& name) { s = "{\"ev\":" + str(name); }
  template<class T> Event& f(const char* k, const T& v) { s += ","; s += str(k); s += ":"; s += val(v); return *this; }
  Event& raw(const char* k, const std::string& v) { s += ","; s += str(k); s += ":"; s += v; return *this; }
  ~Event() { s += "}\n"; std::fputs(s.c_str(), stdout); std::fflush(stdout); }
};

// the nearest integer of x*n, flagged when x*n is not an integer to within tol
struct Rounded { long long i; bool ok; };
inline Rounded scaled(double x, double n, double tol=1e-6) {
  double y = x*n; if (!std::isfinite(y) || std::fabs(y) > 2e9) return {0, false};
  double r = std::nearbyint(y); return {(long long)r, std::fabs(y-r) <= tol};
}
} // namespace emit

#define BAD_SCRIPT(msg) do { std::cerr << msg << std::endl; std::exit(77); } while(0)
