#include "vd.h"
#include "ElementsKernel/Exception.h"
#include "Configuration/CatalogConfig.h"
#include "Configuration/ConfigManager.h"
#include "Configuration/PdfCatalogConfig.h"
#include "Configuration/PhotometricBandMappingConfig.h"
#include "Configuration/PhotometryCatalogConfig.h"
#include "Configuration/SpecZCatalogConfig.h"
#include "SourceCatalog/SourceAttributes/Photometry.h"
#include "SourceCatalog/SourceAttributes/SpectroscopicRedshift.h"
#include "SourceCatalog/SourceAttributes/TableRowAttribute.h"
#include "SourceCatalog/SourceAttributes/TableRowAttributeFromRow.h"
#include "Table/FitsWriter.h"
#include "Table/Table.h"
#include <CCfits/CCfits>
#include <set>
#include <sys/stat.h>
using namespace vd;
using namespace Euclid::Configuration;
using namespace Euclid::SourceCatalog;
namespace ET = Euclid::Table;
namespace po = boost::program_options;
typedef ET::Row::cell_type Cell;
typedef PdfCatalogConfig<double> PdfConf;
static double back(const J& j) {
  long x = j.l();
  if (x == NAN_) return std::nan("");
  return x / 64.;
}
static long units(double x) { return num(x * 64); }
static std::map<std::string, std::type_index>& types() {
  static std::map<std::string, std::type_index> m{{"bool", typeid(bool)}, {"int", typeid(int32_t)}, {"long", typeid(int64_t)}, {"float", typeid(float)}, {"double", typeid(double)},
                                                  {"string", typeid(std::string)}, {"[double]", typeid(std::vector<double>)}, {"[float]", typeid(std::vector<float>)}};
  return m;
}
static Cell cell(const J& c) {
  const std::string &t = c["t"].str(), &s = c["s"].str();
  double n = back(c["n"]);
  std::vector<double> xs;
  for (auto& x : c["xs"].a) xs.push_back(back(x));
  if (t == "bool") return n != 0;
  if (t == "int") return (int32_t)strtoll(s.c_str(), 0, 10);
  if (t == "long") return (int64_t)strtoll(s.c_str(), 0, 10);
  if (t == "float") return (float)n;
  if (t == "double") return n;
  if (t == "string") return s;
  if (t == "[float]") return std::vector<float>(xs.begin(), xs.end());
  return xs;
}
static std::string g10(double b) { char t[40]; snprintf(t, sizeof t, "%.10g", b); return t; }
struct Text : boost::static_visitor<std::string> {
  std::string operator()(const std::string& s) const { return s; }
  std::string operator()(bool b) const { return b ? "1" : "0"; }
  std::string operator()(int32_t b) const { return std::to_string(b); }
  std::string operator()(int64_t b) const { return std::to_string(b); }
  std::string operator()(float b) const { return g10(b); }
  std::string operator()(double b) const { return g10(b); }
  template <typename T> std::string operator()(const std::vector<T>& v) const { std::string r = "["; for (auto x : v) r += (*this)(x) + ";"; return r + "]"; }
  template <typename T> std::string operator()(const T&) const { return "?"; }
};
static std::string asciiText(const J& c) {
  std::string s = c["s"].str();
  if (c["t"].str()[0] == '[') { s = ""; for (auto& x : c["xs"].a) s += (s.empty() ? "" : ",") + g10(back(x)); return s; }
  return s.find(' ') == std::string::npos ? s : '"' + s + '"';
}

static const J* ev;
static std::string scratch;
static bool has(const std::string& c) { for (auto& r : (*ev)["regs"].a) if (r.str() == c) return true; return false; }
static bool stage[3];
template <typename F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
// The configuration of a program that reads a catalog
struct Program : Configuration {
  Program(long id) : Configuration(id) {
    declareDependency<CatalogConfig>();
    if (has("band")) declareDependency<PhotometricBandMappingConfig>();
    if (has("phot")) declareDependency<PhotometryCatalogConfig>();
    if (has("specz")) declareDependency<SpecZCatalogConfig>();
    if (has("pdf")) declareDependency<PdfConf>();
  }
  bool early(CatalogConfig& c) {
    return throws([&] { c.getTableReader(); }) && throws([&] { c.getTableToCatalogConverter(); }) && throws([&] { c.readAsTable(); }) && throws([&] { c.readAsCatalog(); });
  }
  void preInitialize(const UserValues&) override {
    auto& c = getDependency<CatalogConfig>();
    bool ok = early(c) && throws([&] { c.getColumnInfo(); }) && throws([&] { c.getFilename(); });
    long base = (*ev)["base"].i();
    if (base) c.setBaseDir(base == 1 ? scratch : "/nonexistent");
    if (has("band") || has("phot")) {
      auto& b = getDependency<PhotometricBandMappingConfig>();
      ok = ok && throws([&] { b.getPhotometricBandMapping(); }) && throws([&] { b.getUpperLimitThresholdMapping(); }) && throws([&] { b.getConvertFromMagMapping(); });
      if (base) b.setBaseDir(base == 1 ? scratch : "/nonexistent");
    }
    if (has("phot")) {
      auto& p = getDependency<PhotometryCatalogConfig>();
      ok = ok && throws([&] { p.isMissingPhotometryEnabled(); }) && throws([&] { p.isUpperLimitEnabled(); });
    }
    if (has("pdf")) {
      std::vector<double> knots;
      for (int i = 0; i < (*ev)["pdf"]["n"].i(); ++i) knots.push_back(i);
      getDependency<PdfConf>().addPdfColumn("p", (*ev)["pdf"]["col"].str(), knots);
    }
    stage[0] = ok;
  }
  void initialize(const UserValues&) override {
    auto& c = getDependency<CatalogConfig>();
    bool ok = early(c) && c.getColumnInfo() && c.getFilename().string() == scratch + "/cat" && throws([&] { c.setBaseDir("/"); });
    if (has("band") || has("phot")) ok = ok && throws([&] { getDependency<PhotometricBandMappingConfig>().setBaseDir("/"); });
    if (has("pdf")) ok = ok && throws([&] { getDependency<PdfConf>().addPdfColumn("q", "q", {}); });
    c.addAttributeHandler(std::make_shared<TableRowAttributeFromRow>());
    stage[1] = ok;
  }
};
static void source(Obs& o, const Source& s) {
  auto id = s.getId();
  if (auto* p = boost::get<int64_t>(&id)) o.adds("n").adds(std::to_string(*p));
  else o.adds("s").adds(boost::get<std::string>(id));
  if (auto p = s.getAttribute<Photometry>()) {
    const double f0 = 3.631e9;
    for (auto it = p->begin(); it != p->end(); ++it) {
      o.add(it->missing_photometry_flag); o.add(it->upper_limit_flag);
      o.add(units(it->flux)); o.add(units(it->error));
      o.add(rnd(it->flux / f0, 1e6)); o.add(rnd(it->error / f0, 1e6)); o.add(rnd(it->error / (f0 * 0.4 * std::log(10.)), 1e6));
    }
  }
  if (auto a = s.getAttribute<SpectroscopicRedshift>()) { o.add(units(a->getValue())); o.add(units(a->getError())); }
  if (auto a = s.getAttribute<Pdf<double>>()) for (auto& x : a->getPdf("p")) o.add(units(x));
  if (auto a = s.getAttribute<TableRowAttribute>()) o.add((long)a->getRow().size()); else o.add(-1);
}
static void files(const J& e) {
  std::string cat = scratch + "/cat", map = scratch + "/" + (e["mapopt"].str().empty() ? "filter_mapping.txt" : e["mapopt"].str());
  CCfits::FITS::forget();
  for (std::string f : {"/cat", "/filter_mapping.txt", "/my.map"}) { unlink((scratch + f).c_str()); rmdir((scratch + f).c_str()); }
  const std::string& c = e["content"].str();
  if (c == "dir") mkdir(cat.c_str(), 0700);
  else if (c == "asc") {
    std::ofstream f(cat);
    for (auto& l : e["lead"].a) f << l.str() << "\n";
    for (size_t i = 0; i < e["cols"].size(); ++i) f << "# Column: " << e["cols"][i].str() << " " << e["ty"][i].str() << "\n";
    for (size_t k = 0; k < e["rows"].size(); ++k) {
      auto& r = e["rows"][k];
      for (size_t i = 0; i < r.size(); ++i) f << (i ? " " : "") << asciiText(r[i]);
      if (k + 1 < e["rows"].size() || e["last"].i()) f << "\n";
    }
  } else if (c == "fits") {
    std::vector<ET::ColumnDescription> cd;
    for (size_t i = 0; i < e["cols"].size(); ++i) cd.emplace_back(e["cols"][i].str(), types().at(e["ty"][i].str()));
    auto info = std::make_shared<ET::ColumnInfo>(cd);
    std::vector<ET::Row> rows;
    for (auto& r : e["rows"].a) { std::vector<Cell> v; for (auto& x : r.a) v.push_back(cell(x)); rows.emplace_back(v, info); }
    ET::FitsWriter w(cat);
    w.addData(ET::Table(rows));
    std::ofstream f(cat);
    std::string h = "SIMPLE  =                    T / conforms to FITS standard";
    h.resize(80, ' ');
    f << h << std::string(2800, ' ');
  }
  if (e["nomap"].i() == 2) mkdir(map.c_str(), 0700);
  else if (e["nomap"].i() == 0) { std::ofstream f(map); for (auto& l : e["lines"].a) f << l["text"].str() << "\n"; }
}
static Obs step(const J& e) {
  Obs o;
  if (e["op"].str() == "new") return o;
  ev = &e;
  stage[0] = stage[1] = stage[2] = false;
  files(e);
  static long id = 1000;
  auto& m = ConfigManager::getInstance(++id);
  m.registerConfiguration<Program>();
  auto desc = m.closeRegistration();
  std::vector<std::string> a;
  auto opt = [&](const std::string& name, const J& v, bool number, double div = 1) {
    if (number ? v.l() == -99999 : v.str().empty()) return;
    a.push_back("--" + name + "=" + (number ? g10(v.l() / div) : v.str()));
  };
  std::string pre = e["base"].i() == 1 ? "" : scratch + "/";
  if (!e["file"].str().empty()) a.push_back("--input-catalog-file=" + pre + "cat");
  opt("input-catalog-format", e["fmt"], false);
  opt("source-id-column-name", e["idn"], false);
  opt("source-id-column-index", e["idi"], true);
  if (has("band") || has("phot")) {
    if (!e["mapopt"].str().empty() || e["base"].i() != 1) a.push_back("--filter-mapping-file=" + pre + (e["mapopt"].str().empty() ? "filter_mapping.txt" : e["mapopt"].str()));
    for (auto& x : e["excl"].a) a.push_back("--exclude-filter=" + x.str());
  }
  if (has("phot")) {
    opt("missing-photometry-flag", e["miss"], true, 64);
    opt("enable-upper-limit", e["up"], false);
    opt("upper-limit-use-threshod-flag", e["uflag"], true, 64);
  }
  if (has("specz")) {
    opt("spec-z-column-name", e["zn"], false);
    opt("spec-z-column-index", e["zi"], true);
    opt("spec-z-err-column-name", e["zen"], false);
    opt("spec-z-err-column-index", e["zei"], true);
  }
  po::variables_map vm;
  po::store(po::command_line_parser(a).options(desc).run(), vm);
  po::notify(vm);
  m.initialize(vm);
  auto& c = m.getConfiguration<CatalogConfig>();
  stage[2] = throws([&] { c.addAttributeHandler(nullptr); }) && throws([&] { c.setBaseDir("/"); }) && c.getFilename().string() == scratch + "/cat";
  for (bool b : stage) o.add(b);
  if (has("band") || has("phot")) {
    auto& b = m.getConfiguration<PhotometricBandMappingConfig>();
    auto f = b.getPhotometricBandMapping();
    auto t = b.getUpperLimitThresholdMapping();
    auto g = b.getConvertFromMagMapping();
    if (t.size() != f.size() || g.size() != f.size()) o.k = "changed";
    o.add((long)f.size());
    for (size_t i = 0; i < t.size(); ++i) { if (t[i].first != f.at(i).first) o.k = "changed"; o.add(units(t[i].second)); }
    for (size_t i = 0; i < g.size(); ++i) { if (g[i].first != f.at(i).first) o.k = "changed"; o.add(g[i].second); }
    for (auto& x : f) o.adds(x.first).adds(x.second.first).adds(x.second.second);
  }
  if (has("phot")) { auto& p = m.getConfiguration<PhotometryCatalogConfig>(); o.add(p.isMissingPhotometryEnabled()).add(p.isUpperLimitEnabled()); }
  auto info = c.getColumnInfo();
  o.add((long)info->size());
  for (size_t i = 0; i < info->size(); ++i) {
    o.adds(info->getDescription(i).name);
    if (e["content"].str() != "fits" && info->getDescription(i).type != types().at(e["ty"][i].str())) o.k = "changed";
  }
  const std::string& how = e["how"].str();
  if (how == "table") {
    auto t = c.readAsTable();
    o.add((long)t.size());
    o.adds(c.getIdColumn());
    for (auto& r : t) for (auto& x : r) o.adds(boost::apply_visitor(Text{}, x));
    return o;
  }
  Obs src;
  long n = 0;
  if (how == "catalog") {
    auto cat = c.readAsCatalog();
    for (auto& s : cat) { source(src, s); ++n; }
    auto again = c.readAsCatalog();
    if (again.size() != cat.size()) o.k = "changed";
  } else {
    auto rd = c.getTableReader();
    auto conv = c.getTableToCatalogConverter();
    while (rd->hasMoreRows()) { auto t = rd->read(e["chunk"].i()); auto cat = conv(t); for (auto& s : cat) { source(src, s); ++n; } }
  }
  o.add(n);
  o.adds(c.getIdColumn());
  for (auto x : src.v) o.add(x);
  for (auto& x : src.s) o.adds(x);
  return o;
}
int main(int argc, char** argv) {
  const char* s = getenv("VD_SCRATCH");
  scratch = s ? s : "/tmp";
  return run(argc, argv, step);
}
