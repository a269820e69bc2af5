// Driver support: reads one JSON operation per line, runs it against the real
// library, and writes the same line back with the observation appended:
//   {"op":..., ...}   ->   {"op":..., ..., "obs":{"k":"ok","v":[ints],"s":[strings]}}
// Every observation has the same three fields, so that the TLA+ trace
// specification can compare them with '=' without ever mixing types.
#ifndef VERIF_VD_H
#define VERIF_VD_H
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unistd.h>
#include <vector>

namespace vd {

struct J {
  enum T { Null, Bool, Num, Str, Arr, Obj } t = Null;
  double                   n = 0;
  bool                     b = false;
  std::string              s;
  std::vector<J>           a;
  std::map<std::string, J> o;

  bool     has(const std::string& k) const { return o.count(k) != 0; }
  const J& operator[](const std::string& k) const {
    auto it = o.find(k);
    if (it == o.end()) { fprintf(stderr, "driver: missing field %s\n", k.c_str()); _exit(70); }
    return it->second;
  }
  const J& operator[](size_t i) const { return a.at(i); }
  const J& operator[](int i) const { return a.at(i); }
  size_t   size() const { return a.size(); }
  int      i() const { return (int)n; }
  long     l() const { return (long)n; }
  size_t   u() const { return (size_t)n; }
  double   d() const { return n; }
  const std::string& str() const { return s; }
  std::vector<int> ints() const { std::vector<int> r; for (auto& x : a) r.push_back(x.i()); return r; }
  std::vector<size_t> sizes() const { std::vector<size_t> r; for (auto& x : a) r.push_back(x.u()); return r; }
  std::vector<double> dbls() const { std::vector<double> r; for (auto& x : a) r.push_back(x.d()); return r; }
  std::vector<std::string> strs() const { std::vector<std::string> r; for (auto& x : a) r.push_back(x.s); return r; }
};

class Parser {
  const char* p;
  void ws() { while (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r') ++p; }
  [[noreturn]] void bad() { fprintf(stderr, "driver: bad json near %.40s\n", p); _exit(70); }

public:
  explicit Parser(const std::string& s) : p(s.c_str()) {}
  J parse() {
    ws();
    J j;
    if (*p == '{') {
      j.t = J::Obj; ++p; ws();
      if (*p == '}') { ++p; return j; }
      for (;;) {
        ws(); J k = parse(); ws();
        if (*p++ != ':') bad();
        j.o[k.s] = parse(); ws();
        if (*p == ',') { ++p; continue; }
        if (*p == '}') { ++p; return j; }
        bad();
      }
    }
    if (*p == '[') {
      j.t = J::Arr; ++p; ws();
      if (*p == ']') { ++p; return j; }
      for (;;) {
        j.a.push_back(parse()); ws();
        if (*p == ',') { ++p; continue; }
        if (*p == ']') { ++p; return j; }
        bad();
      }
    }
    if (*p == '"') {
      j.t = J::Str; ++p;
      while (*p && *p != '"') {
        if (*p == '\\') {
          ++p;
          switch (*p) {
          case 'n': j.s += '\n'; break;
          case 't': j.s += '\t'; break;
          case 'r': j.s += '\r'; break;
          case 'b': j.s += '\b'; break;
          case 'f': j.s += '\f'; break;
          case 'u': { char h[5] = {p[1], p[2], p[3], p[4], 0}; j.s += (char)strtol(h, nullptr, 16); p += 4; break; }
          default: j.s += *p;
          }
          ++p;
        } else j.s += *p++;
      }
      if (*p != '"') bad();
      ++p;
      return j;
    }
    if (!strncmp(p, "true", 4)) { j.t = J::Bool; j.b = true; j.n = 1; p += 4; return j; }
    if (!strncmp(p, "false", 5)) { j.t = J::Bool; p += 5; return j; }
    if (!strncmp(p, "null", 4)) { p += 4; return j; }
    char* e; j.t = J::Num; j.n = strtod(p, &e);
    if (e == p) bad();
    p = e;
    return j;
  }
};

// 32-bit-safe encoding of numbers.  Values TLC cannot hold become markers.
static const long NAN_ = 2000000001, PINF = 2000000002, NINF = 2000000003, FRAC = 2000000004, BIG = 2000000005;
inline long num(double x) {
  if (std::isnan(x)) return NAN_;
  if (std::isinf(x)) return x > 0 ? PINF : NINF;
  if (std::fabs(x) >= 2000000000.) return BIG;
  if (x != std::floor(x)) return FRAC;
  return (long)x;
}
// x * scale rounded to nearest integer; for values that are only accurate up to rounding
inline long rnd(double x, double scale = 1.) {
  if (std::isnan(x)) return NAN_;
  if (std::isinf(x)) return x > 0 ? PINF : NINF;
  double y = x * scale;
  if (std::fabs(y) >= 2000000000.) return BIG;
  return std::lround(y);
}

struct Obs {
  std::string              k = "ok";
  std::vector<long>        v;
  std::vector<std::string> s;
  Obs() {}
  Obs(const std::string& kk) : k(kk) {}
  Obs(const char* kk) : k(kk) {}
  Obs& add(long x) { v.push_back((x >= 2000000000L || x <= -2000000000L) && x != NAN_ && x != PINF && x != NINF && x != FRAC && x != BIG ? BIG : x); return *this; }
  Obs& addn(double x) { v.push_back(num(x)); return *this; }
  Obs& adds(const std::string& x) { s.push_back(x); return *this; }
  template <typename C> Obs& all(const C& c) { for (auto& x : c) addn((double)x); return *this; }
};

inline std::string quote(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}

inline std::string toJson(const Obs& o) {
  std::string r = "{\"k\":" + quote(o.k) + ",\"v\":[";
  for (size_t i = 0; i < o.v.size(); ++i) r += (i ? "," : "") + std::to_string(o.v[i]);
  r += "],\"s\":[";
  for (size_t i = 0; i < o.s.size(); ++i) r += (i ? "," : "") + quote(o.s[i]);
  return r + "]}";
}

// main loop.  argv: input output current
inline int run(int argc, char** argv, const std::function<Obs(const J&)>& f) {
  if (argc < 4) { fprintf(stderr, "usage: driver input output current\n"); return 70; }
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  int           cur = open(argv[3], O_CREAT | O_RDWR | O_TRUNC, 0644);
  std::string   line;
  long          no = 0;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    char b[32];
    int  n = snprintf(b, sizeof b, "%-20ld\n", no++);
    if (pwrite(cur, b, n, 0) < 0) return 70;
    J   j = Parser(line).parse();
    Obs o;
    try {
      o = f(j);
    } catch (const std::exception& e) {
      o = Obs("throw");
      if (getenv("VD_DEBUG")) fprintf(stderr, "throw: %s\n", e.what());
    } catch (...) {
      o = Obs("throw");
    }
    size_t e = line.find_last_of('}');
    out << line.substr(0, e) << ",\"obs\":" << toJson(o) << "}\n";
  }
  out.flush();
  return out ? 0 : 70;
}

}  // namespace vd
#endif
