#include "tabcells.h"
#include "Table/AsciiReader.h"
#include "Table/AsciiWriter.h"
#include "Table/CastVisitor.h"

static std::vector<std::shared_ptr<ColumnInfo>> infos;
static std::vector<Row> rows;
static std::vector<ET::Table> tables;
static std::unique_ptr<std::stringstream> text;
static std::unique_ptr<TableReader> rd;
static AsciiReader* ar = nullptr;
static std::string scratch;
static int serial = 0;
template <typename T> static void conv(Obs& o, const Cell& c) { T v = boost::apply_visitor(CastVisitor<T>{}, c); show(o, Cell{v}); }

static void openText(const std::string& t, const J& e) {
  rd.reset(); ar = nullptr; text.reset();
  std::unique_ptr<AsciiReader> r;
  int via = e["via"].i();
  if (via == 1) {
    std::string f = scratch + "/t" + std::to_string(++serial);
    std::ofstream(f) << t;
    r.reset(new AsciiReader(f));
    unlink(f.c_str());
  } else if (via == 2) r.reset(new AsciiReader(AsciiReader::create<std::stringstream>(t)));
  else { text.reset(new std::stringstream(t)); r.reset(new AsciiReader(*text)); }
  if (!e["ci"].str().empty()) r->setCommentIndicator(e["ci"].str());
  ar = r.get();
  rd = std::move(r);
}

static Obs step(const J& e) {
  const std::string& op = e["op"].str();
  Obs o;
  if (op == "new") { infos.clear(); rows.clear(); tables.clear(); rd.reset(); ar = nullptr; return o; }
  if (op == "info0") { auto f = info(e["cols"]); infos.push_back(f); show(o, *f); return o; }
  if (op == "find") {
    auto& f = *infos.at(e["i"].u());
    auto p = f.find(e["name"].str());
    bool no = refused([&] { f.getDescription(e["name"].str()); });
    if (no != !p || !refused([&] { f.getDescription(f.size()); })) return Obs("changed");
    if (!p) return Obs("none");
    o.add((long)*p); o.adds(word(f.getDescription(e["name"].str()).type));
    if (f.getDescription(*p).name != e["name"].str()) o.k = "changed";
    return o;
  }
  if (op == "eq") { auto &a = *infos.at(e["i"].u()), &b = *infos.at(e["j"].u()); return o.add(a == b).add(a != b); }
  if (op == "row") { Row r(cells(e["cells"]), e["i"].i() < 0 ? nullptr : infos.at(e["i"].u())); rows.push_back(r); show(o, r); return o; }
  if (op == "cell") { show(o, rows.at(e["r"].u())[e["n"].u()]); return o; }
  if (op == "cellname") { show(o, rows.at(e["r"].u())[e["name"].str()]); return o; }
  if (op == "table") {
    std::vector<Row> l;
    for (auto& r : e["rows"].a) l.push_back(rows.at(r.u()));
    ET::Table t(l);
    tables.push_back(t);
    o.add((long)t.size());
    if (*t.getColumnInfo() != *l[0].getColumnInfo()) o.k = "changed";
    show(o, t);
    return o;
  }
  if (op == "trow") { show(o, tables.at(e["t"].u())[e["n"].u()]); return o; }
  if (op == "cast") {
    Cell c = cell(e["cell"]);
    const std::string& t = e["to"].str();
    if (t == "bool") conv<bool>(o, c);
    else if (t == "int") conv<int32_t>(o, c);
    else if (t == "long") conv<int64_t>(o, c);
    else if (t == "float") conv<float>(o, c);
    else if (t == "double") conv<double>(o, c);
    else if (t == "string") conv<std::string>(o, c);
    else if (t == "[bool]") conv<std::vector<bool>>(o, c);
    else if (t == "[int]") conv<std::vector<int32_t>>(o, c);
    else if (t == "[long]") conv<std::vector<int64_t>>(o, c);
    else if (t == "[float]") conv<std::vector<float>>(o, c);
    else if (t == "[double]") conv<std::vector<double>>(o, c);
    else if (t == "[int+]") conv<Nd<int32_t>>(o, c);
    else if (t == "[double+]") conv<Nd<double>>(o, c);
    else return Obs("unknown");
    return o;
  }
  if (op == "open") {
    openText(e["t"].str(), e);
    std::unique_ptr<TableReader> keep = std::move(rd);
    std::vector<std::type_index> ty;
    for (auto& x : e["fixt"].a) ty.push_back(types().at(x.str()));
    bool first = e["order"].i();
    if (first && !e["fixn"].a.empty()) ar->fixColumnNames(e["fixn"].strs());
    if (!ty.empty()) ar->fixColumnTypes(ty);
    if (!first && !e["fixn"].a.empty()) ar->fixColumnNames(e["fixn"].strs());
    rd = std::move(keep);
    return o;
  }
  if (op == "write") {
    rd.reset();
    std::stringstream out;
    std::string f = scratch + "/w" + std::to_string(++serial);
    std::string got;
    {
      std::unique_ptr<AsciiWriter> w(e["wvia"].i() ? new AsciiWriter(f) : new AsciiWriter(out));
      if (!e["ci"].str().empty()) w->setCommentIndicator(e["ci"].str());
      if (!e["show"].i()) w->showColumnInfo(false);
      auto com = e["com"].strs();
      size_t first = e["comsplit"].u();
      std::string one;
      bool some = false;
      for (size_t i = 0; i < com.size(); ++i) { one += (some ? "\n" : "") + com[i]; some = true; if (i + 1 == first || i + 1 == com.size()) { w->addComment(one); one = ""; some = false; } }
      auto fi = info(e["cols"]);
      std::vector<Row> rl;
      for (auto& r : e["rows"].a) rl.emplace_back(cells(r), fi);
      size_t at = 0;
      for (auto& n : e["chunks"].a) { w->addData(ET::Table(std::vector<Row>(rl.begin() + at, rl.begin() + at + n.u()))); at += n.u(); }
      o.add(refused([&] { w->setCommentIndicator("!!"); }));
      o.add(refused([&] { w->showColumnInfo(!e["show"].i()); }));
      o.add(refused([&] { w->addComment("late"); }));
      std::vector<ColumnDescription> other;
      for (size_t i = 0; i < fi->size(); ++i) other.push_back(fi->getDescription(i));
      other[0].name += "x";
      o.add(refused([&] { std::vector<Cell> v(rl[0].begin(), rl[0].end()); w->addData(ET::Table({Row(v, std::make_shared<ColumnInfo>(other))})); }));
    }
    if (e["wvia"].i()) { std::ifstream in(f); std::stringstream ss; ss << in.rdbuf(); got = ss.str(); unlink(f.c_str()); } else got = out.str();
    if (getenv("VD_DEBUG")) fprintf(stderr, "%s\n", got.c_str());
    openText(got, e);
    if (e["fix"].i()) { std::vector<std::type_index> ty; for (auto& c : e["cols"].a) ty.push_back(types().at(c["type"].str())); ar->fixColumnTypes(ty); }
    return o;
  }
  if (!rd) return Obs("none");
  if (op == "info") { show(o, rd->getInfo()); return o; }
  if (op == "has") return o.add(rd->hasMoreRows());
  if (op == "left") return o.add((long)rd->rowsLeft());
  if (op == "comment") return o.adds(rd->getComment());
  if (op == "skip") { rd->skip(e["n"].l()); return o; }
  if (op == "read") {
    auto t = rd->read(e["n"].l());
    o.add((long)t.size());
    show(o, t);
    if (*t.getColumnInfo() != rd->getInfo()) o.k = "changed";
    return o;
  }
  if (op == "late") {
    o.add(refused([&] { ar->setCommentIndicator("%%%"); }));
    o.add(refused([&] { ar->fixColumnNames({"zz"}); }));
    o.add(refused([&] { ar->fixColumnTypes({typeid(int32_t)}); }));
    return o;
  }
  return Obs("unknown op");
}
int main(int argc, char** argv) {
  const char* s = getenv("VD_SCRATCH");
  scratch = s ? s : "/tmp";
  return run(argc, argv, step);
}
