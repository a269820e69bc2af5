#include "tabcells.h"
#include "Table/FitsReader.h"
#include "Table/FitsWriter.h"
#include "XYDataset/FitsParser.h"
#include <CCfits/CCfits>

static std::string scratch;
static std::vector<std::unique_ptr<FitsWriter>> ws;
static std::vector<int> wfile;
static std::unique_ptr<CCfits::FITS> held;
static std::unique_ptr<TableReader> rd;
static FitsReader* fr = nullptr;
static std::string name(const J& e) { return scratch + "/f" + std::to_string(e["f"].i()) + ".fits"; }
static void close() { rd.reset(); fr = nullptr; held.reset(); }
template <typename T> static std::vector<T> nums(const J& rows, size_t c) { std::vector<T> v; for (auto& r : rows.a) for (auto& x : r[c].a) v.push_back(Num<T>::of(x.str())); return v; }
template <typename T> static void fill(CCfits::Column& col, const J& rows, size_t c, bool arr) {
  if (!arr) { col.write(nums<T>(rows, c), 1); return; }
  std::vector<std::valarray<T>> v;
  for (auto& r : rows.a) { auto x = vec<T>(r[c]); v.emplace_back(x.data(), x.size()); }
  col.writeArrays(v, 1);
}
static void nothing() { for (int i = 1; i <= 3; ++i) unlink((scratch + "/f" + std::to_string(i) + ".fits").c_str()); CCfits::FITS::forget(); }

static Obs step(const J& e) {
  const std::string& op = e["op"].str();
  Obs o;
  if (op == "new") { close(); ws.clear(); nothing(); return o; }
  if (op == "image") { close(); CCfits::FITS f(name(e), CCfits::Write); std::vector<long> a{2, 3}; f.addImage(e["name"].str(), FLOAT_IMG, a); return o; }
  if (op == "raw") {
    close();
    CCfits::FITS f(name(e), CCfits::Write);
    std::vector<std::string> n, fm, u;
    bool asc = e["kind"].str() == "asc";
    for (auto& c : e["cols"].a) {
      n.push_back(c["name"].str());
      u.push_back(c["unit"].str());
      std::string k = c["f"]["n"].i() ? std::to_string(c["f"]["n"].i()) : "";
      fm.push_back(asc ? c["f"]["c"].str() + k + c["dec"].str() : k + c["f"]["c"].str());
    }
    auto* t = f.addTable(e["name"].str(), 0, n, fm, u, asc ? CCfits::AsciiTbl : CCfits::BinaryTbl);
    for (size_t i = 0; i < n.size(); ++i) {
      auto& c = e["cols"][i];
      std::string d;
      auto sh = c["dims"].ints();
      for (size_t k = sh.size(); k-- > 0;) d += (d.empty() ? "(" : ",") + std::to_string(sh[k]);
      if (!d.empty()) t->addKey("TDIM" + std::to_string(i + 1), d + ")", "");
      if (!c["desc"].str().empty()) t->addKey("TDESC" + std::to_string(i + 1), c["desc"].str(), "");
      char y = c["f"]["c"].str()[0];
      bool arr = !asc && c["f"]["n"].i() > 1;
      if (y == 'A') { std::vector<std::string> v; for (auto& r : e["rows"].a) v.push_back(r[i][0].str()); t->column((int)i + 1).write(v, 1); }
      else if (y == 'E' || y == 'D' || y == 'F') fill<double>(t->column((int)i + 1), e["rows"], i, arr);
      else if (y == 'K') fill<int64_t>(t->column((int)i + 1), e["rows"], i, arr);
      else fill<int32_t>(t->column((int)i + 1), e["rows"], i, arr);
    }
    return o;
  }
  if (op == "key") { CCfits::FITS f(name(e), CCfits::Write); f.extension(e["h"].i()).addKey(e["k"].str(), e["x"].str(), ""); return o; }
  if (op == "writer") {
    if (e["shared"].i()) ws.emplace_back(new FitsWriter(std::make_shared<CCfits::FITS>((e["over"].i() ? "!" : "") + name(e), CCfits::Write)));
    else if (e["over"].i()) ws.emplace_back(new FitsWriter(name(e), true));
    else ws.emplace_back(new FitsWriter(name(e)));
    return o;
  }
  if (op == "set") {
    auto& w = *ws.at(e["w"].u() - 1);
    const std::string &k = e["what"].str(), &x = e["x"].str();
    if (k == "fmt") { if (&w.setFormat(x == "asc" ? FitsWriter::Format::ASCII : FitsWriter::Format::BINARY) != &w) o.k = "changed"; }
    else if (k == "hdu") { if (&w.setHduName(x) != &w) o.k = "changed"; }
    else w.addComment(x);
    return o;
  }
  if (op == "add") {
    close();
    auto fi = info(e["cols"]);
    std::vector<Row> rl;
    for (auto& r : e["rows"].a) rl.emplace_back(cells(r), fi);
    ET::Table t(rl);
    ws.at(e["w"].u() - 1)->addData(t);
    return o;
  }
  if (op == "hdus") {
    CCfits::FITS f(name(e));
    size_t n = f.extension().size();
    for (size_t i = 1; i <= n; ++i) {
      auto& h = f.extension((int)i);
      o.adds(h.name());
      o.adds(dynamic_cast<CCfits::BinTable*>(&h) ? "bin" : dynamic_cast<CCfits::AsciiTable*>(&h) ? "asc" : "img");
      o.adds(std::to_string(h.numCols()));
      o.adds(std::to_string(h.rows()));
    }
    return o;
  }
  if (op == "open") {
    close();
    std::unique_ptr<FitsReader> r;
    if (e["by"].str() == "name") r.reset(new FitsReader(name(e), e["name"].str()));
    else if (e["by"].str() == "hdu") { held.reset(new CCfits::FITS(name(e))); r.reset(new FitsReader(held->extension(e["ix"].i()))); }
    else if (e["ix"].i() == 1 && e["by"].str() == "first") r.reset(new FitsReader(name(e)));
    else r.reset(new FitsReader(name(e), e["ix"].i()));
    if (!e["fixn"].a.empty()) r->fixColumnNames(e["fixn"].strs());
    fr = r.get();
    rd = std::move(r);
    return o;
  }
  if (op == "isds") { Euclid::XYDataset::FitsParser p; return o.add(p.isDatasetFile(name(e))); }
  if (op == "dsname") { Euclid::XYDataset::FitsParser p(e["k"].str()); return o.adds(p.getName(name(e))); }
  if (op == "param") { Euclid::XYDataset::FitsParser p("X"); return o.adds(p.getParameter(name(e), e["k"].str())); }
  if (op == "ds") {
    Euclid::XYDataset::FitsParser p;
    auto d = p.getDataset(name(e));
    if (!d) return Obs("none");
    size_t n = 0;
    for (auto& x : *d) { o.adds(Num<double>::text(x.first)); o.adds(Num<double>::text(x.second)); ++n; }
    if (n != d->size()) o.k = "changed";
    return o;
  }
  if (!rd) return Obs("none");
  if (op == "info") { show(o, rd->getInfo()); return o; }
  if (op == "has") return o.add(rd->hasMoreRows());
  if (op == "left") { size_t n = rd->rowsLeft(); return o.add(n > 1000000 ? 1000000 : (long)n); }
  if (op == "comment") return o.adds(rd->getComment());
  if (op == "skip") { rd->skip(e["n"].l()); return o; }
  if (op == "read") {
    auto t = rd->read(e["n"].l());
    o.add((long)t.size());
    show(o, t);
    if (*t.getColumnInfo() != rd->getInfo()) o.k = "changed";
    return o;
  }
  if (op == "late") return o.add(refused([&] { fr->fixColumnNames({"zz"}); }));
  return Obs("unknown op");
}
int main(int argc, char** argv) {
  const char* s = getenv("VD_SCRATCH");
  scratch = s ? s : "/tmp";
  return run(argc, argv, step);
}
