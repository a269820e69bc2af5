// Cells, rows and column infos of tables to and from JSON and observations.
#ifndef VERIF_TABCELLS
#define VERIF_TABCELLS
#include "vd.h"
#include "ElementsKernel/Exception.h"
#include "Table/ColumnInfo.h"
#include "Table/Table.h"
#include "NdArray/NdArray.h"
#include <cinttypes>
using namespace vd;
using namespace Euclid::Table;
namespace ET = Euclid::Table;
template <typename T> using Nd = Euclid::NdArray::NdArray<T>;
typedef Row::cell_type Cell;

template <typename T> struct Num {};
template <> struct Num<bool> { static bool of(const std::string& s) { return s == "1"; } static std::string text(bool b) { return b ? "1" : "0"; } };
template <> struct Num<int32_t> { static int32_t of(const std::string& s) { return (int32_t)strtoll(s.c_str(), 0, 10); } static std::string text(int32_t x) { return std::to_string(x); } };
template <> struct Num<int64_t> { static int64_t of(const std::string& s) { return strtoll(s.c_str(), 0, 10); } static std::string text(int64_t x) { return std::to_string(x); } };
// the shortest decimal text that reads back as the same number, without exponent
template <typename T, typename F> static std::string plain(T x, F back) {
  if (std::isnan(x)) return "nan";
  if (std::isinf(x)) return x > 0 ? "inf" : "-inf";
  char b[64];
  for (int p = 0; p < 18; ++p) { snprintf(b, sizeof b, "%.*e", p, (double)x); if (back(b) == x) break; }
  std::string m, r(b);
  bool neg = r[0] == '-';
  size_t e = r.find('e');
  int ex = atoi(r.c_str() + e + 1);
  for (size_t i = neg; i < e; ++i) if (r[i] != '.') m += r[i];
  while (m.size() > 1 && m.back() == '0') m.pop_back();
  std::string o = neg ? "-" : "";
  if (m == "0") return o + "0";
  int pt = ex + 1;
  if (pt <= 0) return o + "0." + std::string(-pt, '0') + m;
  if (pt >= (int)m.size()) return o + m + std::string(pt - m.size(), '0');
  return o + m.substr(0, pt) + "." + m.substr(pt);
}
template <> struct Num<float> { static float of(const std::string& s) { return strtof(s.c_str(), 0); } static std::string text(float x) { return plain(x, [](const char* b) { return strtof(b, 0); }); } };
template <> struct Num<double> { static double of(const std::string& s) { return strtod(s.c_str(), 0); } static std::string text(double x) { return plain(x, [](const char* b) { return strtod(b, 0); }); } };

template <typename T> static std::vector<T> vec(const J& x) { std::vector<T> v; for (auto& s : x.a) v.push_back(Num<T>::of(s.str())); return v; }
static Cell cell(const J& c) {
  const std::string& t = c["t"].str();
  auto& x = c["x"];
  if (t == "bool") return Num<bool>::of(x[0].str());
  if (t == "int") return Num<int32_t>::of(x[0].str());
  if (t == "long") return Num<int64_t>::of(x[0].str());
  if (t == "float") return Num<float>::of(x[0].str());
  if (t == "double") return Num<double>::of(x[0].str());
  if (t == "string") return x[0].str();
  if (t == "[bool]") return vec<bool>(x);
  if (t == "[int]") return vec<int32_t>(x);
  if (t == "[long]") return vec<int64_t>(x);
  if (t == "[float]") return vec<float>(x);
  if (t == "[double]") return vec<double>(x);
  auto sh = c["sh"].sizes();
  if (t == "[int+]") return Nd<int32_t>(sh, vec<int32_t>(x));
  if (t == "[long+]") return Nd<int64_t>(sh, vec<int64_t>(x));
  if (t == "[float+]") return Nd<float>(sh, vec<float>(x));
  return Nd<double>(sh, vec<double>(x));
}
static std::map<std::string, std::type_index>& types() {
  static std::map<std::string, std::type_index> m{
      {"bool", typeid(bool)}, {"int", typeid(int32_t)}, {"long", typeid(int64_t)}, {"float", typeid(float)}, {"double", typeid(double)}, {"string", typeid(std::string)},
      {"[bool]", typeid(std::vector<bool>)}, {"[int]", typeid(std::vector<int32_t>)}, {"[long]", typeid(std::vector<int64_t>)}, {"[float]", typeid(std::vector<float>)},
      {"[double]", typeid(std::vector<double>)}, {"[int+]", typeid(Nd<int32_t>)}, {"[long+]", typeid(Nd<int64_t>)}, {"[float+]", typeid(Nd<float>)}, {"[double+]", typeid(Nd<double>)}};
  return m;
}
static std::string word(std::type_index t) { for (auto& p : types()) if (p.second == t) return p.first; return "unknown"; }
struct Show : boost::static_visitor<void> {
  Obs& o;
  explicit Show(Obs& x) : o(x) {}
  void head(std::type_index t) const { o.adds(word(t)); }
  void operator()(const std::string& s) const { head(typeid(s)); o.adds("0"); o.adds("1"); o.adds(s); }
  template <typename T> void operator()(const std::vector<T>& v) const { head(typeid(v)); o.adds("0"); o.adds(std::to_string(v.size())); for (auto x : v) o.adds(Num<T>::text(x)); }
  template <typename T> void operator()(const Nd<T>& v) const {
    head(typeid(v));
    o.adds(std::to_string(v.shape().size()));
    for (auto n : v.shape()) o.adds(std::to_string(n));
    o.adds(std::to_string(v.size()));
    for (auto x : v) o.adds(Num<T>::text(x));
  }
  template <typename T> void operator()(const T& x) const { head(typeid(x)); o.adds("0"); o.adds("1"); o.adds(Num<T>::text(x)); }
};
static void show(Obs& o, const Cell& c) { boost::apply_visitor(Show(o), c); }
static void show(Obs& o, const Row& r) { size_t n = 0; for (auto& c : r) { show(o, c); ++n; } if (n != r.size()) o.k = "changed"; }
static void show(Obs& o, const ET::Table& t) { size_t n = 0; for (auto& r : t) { show(o, r); ++n; } if (n != t.size()) o.k = "changed"; }
static void show(Obs& o, const ColumnInfo& f) {
  for (size_t i = 0; i < f.size(); ++i) {
    auto& d = f.getDescription(i);
    o.adds(d.name); o.adds(word(d.type)); o.adds(d.unit); o.adds(d.description);
  }
}
static std::shared_ptr<ColumnInfo> info(const J& cols) {
  std::vector<ColumnDescription> v;
  for (auto& c : cols.a) v.emplace_back(c["name"].str(), types().at(c["type"].str()), c["unit"].str(), c["desc"].str());
  return std::make_shared<ColumnInfo>(v);
}
static std::vector<Cell> cells(const J& l) { std::vector<Cell> v; for (auto& c : l.a) v.push_back(cell(c)); return v; }
template <typename F> static long refused(F f) { try { f(); } catch (const Elements::Exception&) { return 1; } return 0; }
#endif
