#include "vd.h"
#include "ElementsKernel/Exception.h"
#include <set>
#include <unordered_set>
#include <boost/filesystem.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/string.hpp>
#include "XYDataset/AsciiParser.h"
#include "XYDataset/CachedProvider.h"
#include "XYDataset/FileSystemProvider.h"
#include "XYDataset/QualifiedName.h"
#include "XYDataset/serialize.h"
using namespace vd;
using namespace Euclid::XYDataset;
namespace fs = boost::filesystem;
static std::string base;
static int serial = 0;
struct Spy : XYDatasetProvider {
  std::shared_ptr<XYDatasetProvider> p;
  std::map<std::string, int> n;
  bool twice = false;
  void count(const std::string& k) { if (++n[k] > 1) twice = true; }
  std::vector<QualifiedName> listContents(const std::string& g) override { auto r = p->listContents(g); count("L" + g); return r; }
  std::unique_ptr<Euclid::XYDataset::XYDataset> getDataset(const QualifiedName& q) override { auto r = p->getDataset(q); count("D" + q.qualifiedName()); return r; }
  std::string getParameter(const QualifiedName& q, const std::string& k) override { return p->getParameter(q, k); }
};
static std::shared_ptr<XYDatasetProvider> P;
static std::shared_ptr<Spy> S;
static std::shared_ptr<CachedProvider> C;
static QualifiedName qn(const std::vector<std::string>& p, bool one) {
  if (one) { std::string s; for (size_t i = 0; i < p.size(); ++i) s += (i ? "/" : "") + p[i]; return QualifiedName(s); }
  if (p.empty()) return QualifiedName({}, "");
  return QualifiedName(std::vector<std::string>(p.begin(), p.end() - 1), p.back());
}
template <typename I, typename O> static bool trip(const QualifiedName& q) {
  std::stringstream ss;
  const QualifiedName* a = &q;
  { O o(ss); o << a; }
  QualifiedName* b = nullptr;
  { I i(ss); i >> b; }
  std::unique_ptr<QualifiedName> own(b);
  return *b == q && b->groups() == q.groups() && b->datasetName() == q.datasetName() && b->hash() == q.hash();
}
static void points(Obs& o, const Euclid::XYDataset::XYDataset& d) { for (auto& p : d) { o.addn(p.first * 4); o.addn(p.second * 4); } }
static Obs step(const J& e) {
  const std::string& op = e["op"].str();
  Obs o;
  if (op == "tree") {
    P.reset(); C.reset(); S.reset();
    std::string root = base + "/t" + std::to_string(++serial);
    fs::remove_all(base + "/t" + std::to_string(serial - 1));
    fs::create_directories(root);
    auto dir = [&](const J& d) { fs::path p = root; for (auto& x : d.a) p /= x.str(); fs::create_directories(p); return p; };
    for (auto& f : e["files"].a) std::ofstream((dir(f["d"]) / f["f"].str()).c_str()) << f["t"].str();
    for (auto& f : e["orders"].a) std::ofstream((dir(f["d"]) / "order.txt").c_str()) << f["t"].str();
    int r = e["root"].i();
    P = std::make_shared<FileSystemProvider>(root + (r == 0 ? "" : r == 1 ? "/" : "///"), std::unique_ptr<FileParser>(new AsciiParser()));
    S = std::make_shared<Spy>(); S->p = P;
    C = std::make_shared<CachedProvider>(S);
    return o;
  }
  if (op == "noroot") {
    std::string f = base + "/nodir";
    if (e["how"].i()) std::ofstream(f) << "1 2\n"; else fs::remove(f);
    FileSystemProvider p(f, std::unique_ptr<FileParser>(new AsciiParser()));
    return o;
  }
  XYDatasetProvider* p = e.has("via") ? (e["via"].i() ? (XYDatasetProvider*)C.get() : P.get()) : nullptr;
  if (e.has("via") && !p) return Obs("none");
  if (op == "list") {
    auto l = p->listContents(e["gs"].str());
    o.add(S->twice);
    for (auto& q : l) o.adds(q.qualifiedName());
    return o;
  }
  if (op == "get") {
    auto d = p->getDataset(qn(e["p"].strs(), e["one"].i()));
    o.add(S->twice);
    if (!d) { o.k = "null"; return o; }
    points(o, *d);
    return o;
  }
  if (op == "param") return o.adds(p->getParameter(qn(e["p"].strs(), false), e["key"].str()));
  if (op == "file") {
    std::string f = base + "/x" + std::to_string(++serial) + "/" + e["f"].str();
    fs::create_directories(fs::path(f).parent_path());
    std::ofstream(f) << e["t"].str();
    AsciiParser a;
    o.add(a.isDatasetFile(f));
    try {
      auto d = a.getDataset(f);
      if (!d) o.add(-2); else { o.add((long)d->size()); points(o, *d); }
    } catch (const Elements::Exception&) { o.add(-1); }
    o.adds(a.getName(f)); o.adds(a.getParameter(f, "NAME")); o.adds(a.getParameter(f, "UNIT"));
    fs::remove_all(fs::path(f).parent_path());
    return o;
  }
  if (op == "nofile") {
    AsciiParser a;
    std::string f = base + "/nothing";
    o.add(a.isDatasetFile(f));
    o.add(a.getDataset(f) == nullptr);
    try { a.getName(f); o.add(0); } catch (const Elements::Exception&) { o.add(1); }
    return o;
  }
  if (op == "name") {
    auto q = qn(e["p"].strs(), e["one"].i());
    o.add((long)q.groups().size());
    o.adds(q.qualifiedName());
    for (auto& g : q.groups()) o.adds(g);
    o.adds(q.datasetName());
    std::stringstream ss; ss << q;
    if (ss.str() != q.qualifiedName() || !trip<boost::archive::text_iarchive, boost::archive::text_oarchive>(q) ||
        !trip<boost::archive::binary_iarchive, boost::archive::binary_oarchive>(q)) o.k = "changed";
    return o;
  }
  if (op == "pair") {
    auto a = qn(e["p"].strs(), false), b = qn(e["q"].strs(), true);
    auto c = a;             // a copy that already carries the hash
    a.hash();
    o.add(a == b); o.add(a != b); o.add((a < b) != (b < a));
    QualifiedName::AlphabeticalComparator cmp;
    o.add(cmp(a, b)); o.add(cmp(b, a));
    o.add(a.belongsInGroup(b)); o.add(b.belongsInGroup(a));
    std::hash<QualifiedName> h;
    bool ok = h(a) == a.hash() && c.hash() == a.hash() && ((a == b) == (a.qualifiedName() == b.qualifiedName())) && (!(a == b) || a.hash() == b.hash()) && c == a && !(a < a);
    o.add(ok);
    return o;
  }
  if (op == "sorted") {
    std::set<QualifiedName> s; std::unordered_set<QualifiedName> u;
    std::vector<QualifiedName> v;
    for (auto& n : e["names"].a) { auto q = qn(n.strs(), false); s.insert(q); u.insert(q); v.push_back(q); }
    bool tr = true;
    for (auto& a : v) for (auto& b : v) for (auto& c : v) if (a < b && b < c && !(a < c)) tr = false;
    for (auto& a : v) tr = tr && s.count(a) && u.count(a);
    o.add((long)s.size()); o.add((long)u.size()); o.add(tr);
    return o;
  }
  if (op == "make") {
    auto x = e["xs"].dbls(), y = e["ys"].dbls();
    std::vector<std::pair<double, double>> v;
    if (e["how"].i() != 1) for (size_t i = 0; i < x.size(); ++i) v.emplace_back(x[i], y[i]);
    auto d = e["how"].i() == 1 ? Euclid::XYDataset::XYDataset::factory(x, y) : e["how"].i() == 2 ? Euclid::XYDataset::XYDataset::factory(v) : Euclid::XYDataset::XYDataset(v);
    auto f = d;
    o.add((long)f.size());
    for (auto& q : f) { o.addn(q.first); o.addn(q.second); }
    if (f.size()) { o.addn(f.front().first); o.addn(f.front().second); o.addn(f.back().first); o.addn(f.back().second); }
    return o;
  }
  _exit(70);
}
int main(int c, char** v) {
  base = std::string(getenv("VD_SCRATCH")) + "/xy";
  fs::create_directories(base);
  return run(c, v, step);
}
