#include "vd.h"
#include "ElementsKernel/Exception.h"
#include "AlexandriaKernel/memory_tools.h"
#include "Histogram/Histogram.h"
#include "Histogram/Binning/EdgeVector.h"
#include "Histogram/Binning/Scott.h"
#include "Histogram/Binning/Sqrt.h"
#include <limits>
#include <list>
using namespace vd;
using namespace Euclid::Histogram;
static const double S = 1000;

struct Any {
  virtual ~Any() {}
  virtual void shown(Obs&) = 0;
  virtual void edges(Obs&) = 0;
  virtual void bins(Obs&) = 0;
  virtual void be(Obs&, size_t i) = 0;
  virtual size_t size() = 0;
  virtual void stats(Obs&) = 0;
  virtual void clip(long a, long b) = 0;
  virtual Any* copy(int how) = 0;
};
template <typename T> struct Sc { static T val(long x) { return x == NAN_ ? T(std::nan("")) : T(x / 4.); } static T arg(long x) { return T(x / 16.); } };
template <> struct Sc<int> { static int val(long x) { return (int)x; } static int arg(long x) { return (int)x; } };
template <typename T> std::vector<T> vals(const J& j) { std::vector<T> r; for (auto& x : j.a) r.push_back(Sc<T>::val(x.l())); return r; }

template <typename T, typename W> struct H : Any {
  Histogram<T, W> h;
  H(Histogram<T, W>&& x) : h(std::move(x)) {}
  void shown(Obs& o) override { o.add((long)h.size()); o.all(h.getCounts()); }
  void edges(Obs& o) override { for (auto x : h.getEdges()) o.add(rnd(x, S)); }
  void bins(Obs& o) override { for (auto x : h.getBins()) o.add(rnd(x, S)); }
  void be(Obs& o, size_t i) override { auto p = h.getBinEdges(i); o.add(rnd(p.first, S)).add(rnd(p.second, S)); }
  size_t size() override { return h.size(); }
  void stats(Obs& o) override { T m, d, s; std::tie(m, d, s) = h.getStats(); o.add(rnd(m, S)).add(rnd(d, S)).add(rnd((double)s * s, S)); }
  void clip(long a, long b) override { h.clip(Sc<T>::arg(a), Sc<T>::arg(b)); }
  Any* copy(int how) override {
    if (how == 0) return new H(Histogram<T, W>(h));
    std::vector<T> one{T(1)};
    std::unique_ptr<H> n(new H(Histogram<T, W>(one.begin(), one.end(), Binning::Sqrt<T>{})));
    if (how == 1) { n->h = h; return n.release(); }
    Histogram<T, W> t(h);
    if (how == 2) { n->h = std::move(t); return n.release(); }
    return new H(std::move(t));
  }
  template <typename B> static Any* make(const std::vector<T>& x, const J& w, B&& b) {
    if (w.a.empty()) return new H(Histogram<T, W>(x.begin(), x.end(), std::move(b)));
    std::vector<W> ws;
    for (auto& v : w.a) ws.push_back((W)v.l());
    return new H(Histogram<T, W>(x.begin(), x.end(), ws.begin(), ws.end(), std::move(b)));
  }
};
template <typename T, typename W> Any* make(const J& e) {
  auto x = vals<T>(e["x"]);
  switch (e["kind"].i()) {
  case 0: return H<T, W>::make(x, e["w"], Binning::EdgeVector<T>(vals<T>(e["ed"])));
  case 1: return H<T, W>::make(x, e["w"], Binning::Sqrt<T>{});
  default: return H<T, W>::make(x, e["w"], Binning::Scott<T>{});
  }
}
template <typename T> void look(const BinStrategy<T>& b, const J& e, Obs& o) {
  ssize_t n = b.getBinCount();
  o.add(n);
  for (auto& q : e["qs"].a) { ssize_t i = b.getBinIndex(Sc<T>::arg(q.l())); o.add(i < 0 || i >= n ? 0 : i + 1); }
}
template <typename T> void find(const J& e, Obs& o) {
  auto x = vals<T>(e["x"]);
  if (e["kind"].i() == 0) look<T>(Binning::EdgeVector<T>(vals<T>(e["ed"])), e, o);
  else if (e["kind"].i() == 1) { Binning::Sqrt<T> b; b.computeBins(x.begin(), x.end()); look<T>(b, e, o); }
  else { Binning::Scott<T> b; b.computeBins(x.begin(), x.end()); look<T>(b, e, o); }
}
template <typename T> static std::vector<T> reals(const J& j) { std::vector<T> v; for (auto& x : j.a) v.push_back((T)strtod(x.str().c_str(), nullptr)); return v; }
template <typename T> static T ranked(const std::vector<T>& e, long p) {
  if (p < 2) return e.front() - (e.back() - e.front());
  if (p >= 4 * (long)e.size() + 2) return e.back() + (e.back() - e.front());
  long i = (p + 1) / 4;
  switch (p - 4 * i) {
  case -1: return std::nextafter(e[i - 1], -std::numeric_limits<T>::infinity());
  case 0: return e[i - 1];
  case 1: return std::nextafter(e[i - 1], std::numeric_limits<T>::infinity());
  default: return e[i - 1] + (e[i] - e[i - 1]) / 2;
  }
}
template <typename T> static void rank(const J& e, Obs& o) {
  auto ed = reals<T>(e["edv"]);
  std::vector<T> x;
  for (auto& p : e["ps"].a) x.push_back(ranked(ed, p.l()));
  Binning::EdgeVector<T> b(ed);
  for (auto v : x) { ssize_t i = b.getBinIndex(v); o.add(i < 0 || i >= (ssize_t)b.getBinCount() ? 0 : i + 1); }
  Histogram<T> h(x.begin(), x.end(), Binning::EdgeVector<T>(ed));
  if (!e["cl"].a.empty()) h.clip(ranked(ed, e["cl"][0].l()), ranked(ed, e["cl"][1].l()));
  o.all(h.getCounts());
}
template <typename T, typename B> static void automatic(const J& e, Obs& o) {
  auto x = reals<T>(e["xv"]);
  Histogram<T> h(x.begin(), x.end(), B{});
  auto c = h.getCounts();
  auto ed = h.getEdges();
  if (c.size() != h.size() || ed.size() != h.size() + 1) { o.k = "changed"; return; }
  double sum = 0;
  for (auto v : c) sum += v;
  B b;
  b.computeBins(x.begin(), x.end());
  long in = 0;
  double tol = 1e-5 * std::abs((double)ed.back() - ed.front()) +
               16. * std::numeric_limits<T>::epsilon() * std::max(std::abs((double)ed.front()), std::abs((double)ed.back()));
  std::vector<double> again(c.size());
  for (auto v : x) { ssize_t i = b.getBinIndex(v); if (i >= 0 && i < (ssize_t)c.size()) { again[i] += 1; in += v >= ed[i] - tol && v <= ed[i + 1] + tol; } }
  for (size_t i = 0; i < c.size(); ++i) if (again[i] != c[i]) o.k = "changed";
  for (size_t i = 1; i < ed.size(); ++i) if (std::abs((double)(ed[i] - ed[i - 1]) * h.size() - ((double)ed.back() - ed.front())) > tol * (double)h.size()) o.k = "uneven";
  o.add((long)h.size()).add((long)sum).add(in);
}
static std::vector<std::unique_ptr<Any>> hs;
static Obs step(const J& e) {
  const std::string& op = e["op"].str();
  Obs o;
  if (op == "new") { hs.clear(); return o; }
  if (op == "hist") {
    int t = e["ty"].i();
    hs.emplace_back(t == 0 ? make<double, float>(e) : t == 1 ? make<float, float>(e) : make<int, int>(e));
    hs.back()->shown(o);
    return o;
  }
  if (op == "find") { int t = e["ty"].i(); if (t == 0) find<double>(e, o); else if (t == 1) find<float>(e, o); else find<int>(e, o); return o; }
  if (op == "rank") { if (e["ty"].i() == 0) rank<double>(e, o); else rank<float>(e, o); return o; }
  if (op == "auto") {
    bool s = e["kind"].i() == 1;
    if (e["ty"].i() == 0) { if (s) automatic<double, Binning::Sqrt<double>>(e, o); else automatic<double, Binning::Scott<double>>(e, o); }
    else { if (s) automatic<float, Binning::Sqrt<float>>(e, o); else automatic<float, Binning::Scott<float>>(e, o); }
    return o;
  }
  Any& h = *hs.at(e["g"].u() - 1);
  if (op == "cp") { auto* p = h.copy(e["how"].i()); hs.emplace_back(p); }
  else if (op == "clip") { h.clip(e["a"].l(), e["b"].l()); h.shown(o); }
  else if (op == "counts") h.shown(o);
  else if (op == "edges") h.edges(o);
  else if (op == "bins") h.bins(o);
  else if (op == "be") h.be(o, e["i"].u() - 1);
  else if (op == "allbe") for (size_t i = 0; i < h.size(); ++i) h.be(o, i);
  else if (op == "stats") h.stats(o);
  else _exit(70);
  return o;
}
int main(int c, char** v) { return run(c, v, step); }
