#include "vd.h"
#include "ElementsKernel/Exception.h"
#include "SourceCatalog/CatalogFromTable.h"
#include "SourceCatalog/PhotometryParsingException.h"
#include "SourceCatalog/SourceAttributes/PdfFromRow.h"
#include "SourceCatalog/SourceAttributes/PhotometryAttributeFromRow.h"
#include "SourceCatalog/SourceAttributes/SpectroscopicRedshiftAttributeFromRow.h"
#include "SourceCatalog/SourceAttributes/TableRowAttribute.h"
#include "SourceCatalog/SourceAttributes/TableRowAttributeFromRow.h"
#include "NdArray/NdArray.h"
#include "Table/Table.h"
using namespace vd;
using namespace Euclid::SourceCatalog;
namespace ET = Euclid::Table;
typedef ET::Row::cell_type Cell;
static double back(const J& j) {
  long x = j.l();
  if (x == NAN_) return std::nan("");
  if (x == PINF) return INFINITY;
  if (x == NINF) return -INFINITY;
  return x / 64.;
}
static long units(double x) { return num(x * 64); }
static std::map<std::string, std::type_index>& types() {
  static std::map<std::string, std::type_index> m{{"bool", typeid(bool)}, {"int", typeid(int32_t)}, {"long", typeid(int64_t)}, {"float", typeid(float)}, {"double", typeid(double)},
                                                  {"string", typeid(std::string)}, {"[double]", typeid(std::vector<double>)}, {"[float]", typeid(std::vector<float>)}};
  return m;
}
static Cell cell(const std::string& t, const std::string& s, double n, const std::vector<double>& xs) {
  if (t == "bool") return n != 0;
  if (t == "int") return (int32_t)strtoll(s.c_str(), 0, 10);
  if (t == "long") return (int64_t)strtoll(s.c_str(), 0, 10);
  if (t == "float") return (float)n;
  if (t == "double") return n;
  if (t == "string") return s;
  if (t == "[float]") return std::vector<float>(xs.begin(), xs.end());
  return xs;
}
struct Text : boost::static_visitor<std::string> {
  std::string operator()(const std::string& s) const { return s; }
  std::string operator()(bool b) const { return b ? "1" : "0"; }
  std::string operator()(int32_t b) const { return std::to_string(b); }
  std::string operator()(int64_t b) const { return std::to_string(b); }
  std::string operator()(float b) const { char t[40]; snprintf(t, sizeof t, "%.10g", b); return t; }
  std::string operator()(double b) const { char t[40]; snprintf(t, sizeof t, "%.10g", b); return t; }
  template <typename T> std::string operator()(const std::vector<T>& v) const { std::string r = "["; for (auto x : v) r += (*this)(x) + ";"; return r + "]"; }
  template <typename T> std::string operator()(const T&) const { return "?"; }
};
struct OtherAttribute : Attribute {};
static std::unique_ptr<Catalog> cat;
static void source(Obs& o, const Source& s) {
  auto id = s.getId();
  if (auto* p = boost::get<int64_t>(&id)) o.adds("n").adds(std::to_string(*p));
  else o.adds("s").adds(boost::get<std::string>(id));
  if (auto a = s.getAttribute<TableRowAttribute>()) { o.add((long)a->getRow().size()); for (auto& c : a->getRow()) o.adds(boost::apply_visitor(Text{}, c)); } else o.add(-1);
  if (auto a = s.getAttribute<SpectroscopicRedshift>()) { o.add(units(a->getValue())); o.add(units(a->getError())); } else o.add(-1);
  if (auto a = s.getAttribute<Photometry>()) { auto p = a->find("F"); o.add(units(p->flux)); o.add(units(p->error)); } else o.add(-1);
  if (auto a = s.getAttribute<Pdf<double>>()) { auto& p = a->getPdf("p"); o.add((long)p.size()); for (auto& x : p) o.add(units(x)); } else o.add(-1);
  if (auto a = s.getAttribute<OtherAttribute>()) o.add(1); else o.add(-1);
}
static Obs step(const J& e) {
  const std::string& op = e["op"].str();
  Obs o;
  if (op == "fpeq") {
    auto mk = [](const J& a) { return FluxErrorPair(back(a[0]), back(a[1]), a[2].i(), a[3].i()); };
    auto a = mk(e["a"]), b = mk(e["b"]);
    return o.add(a == b).add(a != b);
  }
  if (op == "phot") {
    std::vector<ET::ColumnDescription> cd;
    std::vector<Cell> v;
    for (size_t i = 0; i < e["cols"].size(); ++i) {
      cd.emplace_back(e["cols"][i].str(), types().at(e["ty"][i].str()));
      double x = back(e["vals"][i]);
      char t[40]; snprintf(t, sizeof t, "%.10g", x);
      v.push_back(cell(e["ty"][i].str(), t, x, {}));
    }
    auto info = std::make_shared<ET::ColumnInfo>(cd);
    std::vector<std::pair<std::string, std::pair<std::string, std::string>>> map;
    std::vector<std::pair<std::string, float>> n;
    std::vector<std::pair<std::string, bool>> mag;
    for (auto& f : e["fs"].a) {
      map.push_back({f["f"].str(), {f["fc"].str(), f["ec"].str()}});
      n.push_back({f["f"].str(), (float)f["n"].d()});
      mag.push_back({f["f"].str(), (bool)f["mag"].i()});
    }
    if (!e["conv"].i()) mag.clear();
    PhotometryAttributeFromRow h(info, map, e["miss"].i(), back(e["flag"]), e["up"].i(), n, back(e["uflag"]), mag);
    ET::Row row(v, info);
    std::unique_ptr<Attribute> a;
    try { a = h.createAttribute(row); } catch (const PhotometryParsingException&) { return Obs("reject"); }
    auto& p = dynamic_cast<Photometry&>(*a);
    const double f0 = 3.631e9;
    size_t k = 0;
    for (auto it = p.begin(); it != p.end(); ++it, ++k) {
      o.add(it->missing_photometry_flag); o.add(it->upper_limit_flag);
      o.add(units(it->flux)); o.add(units(it->error));
      o.add(rnd(it->flux / f0, 1e6)); o.add(rnd(it->error / f0, 1e6)); o.add(rnd(it->error / (f0 * 0.4 * std::log(10.)), 1e6));
      o.adds(it.filterName());
    }
    if (k != p.size() || p.end() - p.begin() != (ssize_t)k || *p.getFilterNames() != o.s) o.k = "changed";
    for (auto& q : e["ask"].a) {
      auto r = p.find(q.str());
      if (!r) { o.add(0).add(0).add(0); continue; }
      o.add(1); o.add(units(r->flux)); o.add(units(r->error));
    }
    return o;
  }
  if (op == "cat") {
    cat.reset();
    std::vector<ET::ColumnDescription> cd;
    for (size_t i = 0; i < e["cols"].size(); ++i) cd.emplace_back(e["cols"][i].str(), types().at(e["ty"][i].str()));
    auto info = std::make_shared<ET::ColumnInfo>(cd);
    std::vector<ET::Row> rows;
    for (auto& r : e["rows"].a) {
      std::vector<Cell> v;
      for (auto& c : r.a) { std::vector<double> xs; for (auto& x : c["xs"].a) xs.push_back(back(x)); v.push_back(cell(c["t"].str(), c["s"].str(), back(c["n"]), xs)); }
      rows.emplace_back(v, info);
    }
    std::vector<std::shared_ptr<AttributeFromRow>> hs;
    for (auto& h : e["hs"].a) {
      const std::string& k = h["k"].str();
      if (k == "row") hs.push_back(std::make_shared<TableRowAttributeFromRow>());
      else if (k == "z") hs.push_back(std::make_shared<SpectroscopicRedshiftAttributeFromRow>(info, h["a"].str()));
      else if (k == "ze") hs.push_back(std::make_shared<SpectroscopicRedshiftAttributeFromRow>(info, h["a"].str(), h["b"].str()));
      else if (k == "phot") {
        std::vector<std::pair<std::string, std::pair<std::string, std::string>>> m{{"F", {h["a"].str(), h["b"].str()}}};
        hs.push_back(std::make_shared<PhotometryAttributeFromRow>(info, m, false, 0, false, std::vector<std::pair<std::string, float>>{{"F", 1.f}}, 0));
      } else {
        std::vector<double> knots;
        for (int i = 0; i < h["n"].i(); ++i) knots.push_back(i);
        hs.push_back(std::make_shared<PdfFromRow<double>>(std::map<std::string, std::vector<double>>{{"p", knots}}, std::map<std::string, std::string>{{"p", h["a"].str()}}));
      }
    }
    CatalogFromTable make(info, e["id"].str(), hs);
    cat.reset(new Catalog(make.createCatalog(ET::Table(rows))));
    o.add((long)cat->size());
    size_t n = 0;
    for (auto& s : *cat) { source(o, s); ++n; }
    if (n != cat->size()) o.k = "changed";
    return o;
  }
  if (op == "find") {
    if (!cat) return Obs("none");
    Source::id_type id;
    if (e["t"].str() == "n") id = (int64_t)strtoll(e["id"].str().c_str(), 0, 10); else id = e["id"].str();
    auto s = cat->find(id);
    if (!s) return Obs("none");
    source(o, *s);
    return o;
  }
  return Obs("unknown op");
}
int main(int argc, char** argv) { return run(argc, argv, step); }
