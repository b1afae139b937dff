// Shared by the conformance harnesses: token input, ndjson output with exact numbers.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>
#include <Eigen/Core>

namespace vh {

inline std::string num(double v) {
  if (std::isnan(v)) return "nan";
  if (std::isinf(v)) return v > 0 ? "inf" : "-inf";
  if (v == 0) return "0";
  char buf[64];
  std::snprintf(buf, sizeof buf, "%a", v);
  return buf;
}

inline double parse_num(const std::string& s) { return std::strtod(s.c_str(), nullptr); }

// Whitespace separated tokens of a scenario file.
struct Reader {
  std::istream& in;
  explicit Reader(std::istream& i) : in(i) {}
  bool more() { in >> std::ws; return in.good() && in.peek() != EOF; }
  std::string tok() {
    std::string t;
    if (!(in >> t)) { std::fprintf(stderr, "scenario: unexpected end\n"); std::exit(3); }
    return t;
  }
  void expect(const char* w) { const std::string t = tok(); if (t != w) { std::fprintf(stderr, "scenario: expected %s, got %s\n", w, t.c_str()); std::exit(3); } }
  int i() { return std::atoi(tok().c_str()); }
  double d() { return parse_num(tok()); }
  Eigen::VectorXd vec() { const int n = i(); Eigen::VectorXd v(n); for (int k = 0; k < n; ++k) v[k] = d(); return v; }
  Eigen::MatrixXd mat() { const int r = i(), c = i(); Eigen::MatrixXd m(r, c); for (int a = 0; a < r; ++a) for (int b = 0; b < c; ++b) m(a, b) = d(); return m; }
};

// Minimal JSON object writer.
struct Obj {
  std::string s{"{"};
  bool first{true};
  void key(const char* k) { if (!first) s += ','; first = false; s += '"'; s += k; s += "\":"; }
  Obj& raw(const char* k, const std::string& v) { key(k); s += v; return *this; }
  Obj& str(const char* k, const std::string& v) { return raw(k, quote(v)); }
  // Numbers (doubles) are strings, so that TLC reads them exactly.
  Obj& n(const char* k, double v) { return raw(k, "\"" + num(v) + "\""); }
  Obj& i(const char* k, long v) { return raw(k, std::to_string(v)); }
  Obj& b(const char* k, bool v) { return raw(k, v ? "true" : "false"); }
  template <class V> Obj& v(const char* k, const V& x) { return raw(k, arr(x)); }
  Obj& m(const char* k, const Eigen::MatrixXd& x) { return raw(k, arr2(x)); }
  static std::string quote(const std::string& v) {
    std::string r{"\""};
    for (const char c : v) {
      if (c == '"' || c == '\\') { r += '\\'; r += c; }
      else if (c == '\n') r += "\\n";
      else if (static_cast<unsigned char>(c) < 32) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", static_cast<unsigned char>(c)); r += b; }
      else r += c;
    }
    return r + "\"";
  }
  template <class V> static std::string arr(const V& x) {
    std::string r{"["};
    for (int k = 0; k < static_cast<int>(x.size()); ++k) { if (k) r += ','; r += "\"" + num(x[k]) + "\""; }
    return r + "]";
  }
  static std::string arr2(const Eigen::MatrixXd& x) {
    std::string r{"["};
    for (int a = 0; a < x.rows(); ++a) { if (a) r += ','; r += "["; for (int k = 0; k < x.cols(); ++k) { if (k) r += ','; r += "\"" + num(x(a, k)) + "\""; } r += "]"; }
    return r + "]";
  }
  static std::string join(const std::vector<std::string>& xs) {
    std::string r{"["};
    for (std::size_t k = 0; k < xs.size(); ++k) { if (k) r += ','; r += xs[k]; }
    return r + "]";
  }
  std::string done() const { return s + "}"; }
};

inline void emit(const Obj& o) { std::fputs(o.done().c_str(), stdout); std::fputc('\n', stdout); std::fflush(stdout); }
inline void emit_nf(const Obj& o) { std::fputs(o.done().c_str(), stdout); std::fputc('\n', stdout); }

inline std::string fnv(const std::string& t) {
  unsigned long long h = 1469598103934665603ull;
  for (const char c : t) { h ^= static_cast<unsigned char>(c); h *= 1099511628211ull; }
  char b[32]; std::snprintf(b, sizeof b, "%016llx", h); return b;
}

template <class E> std::string name_of(const E& e) { std::ostringstream o; o << e; return o.str(); }

// Member detection: lets a harness name a parameter field only through a checked accessor.
}  // namespace vh
