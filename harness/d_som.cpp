#include "vd.h"
#include "ElementsKernel/Exception.h"
#include "SOM/SOM.h"
#include "SOM/SOMProjector.h"
#include "SOM/SOMTrainer.h"
#include "SOM/UMatrix.h"
#include "SOM/InitFunc.h"
#include "SOM/serialize.h"
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <list>
using namespace vd;
using namespace Euclid::SOM;
double other_unit();
static const double W = 256, S = 1000;

template <std::size_t ND> struct L1 : Distance::Interface<ND> {
  using Distance::Interface<ND>::distance;
  double distance(const std::array<double, ND>& a, const std::array<double, ND>& b) const override {
    double r = 0;
    for (size_t i = 0; i < ND; ++i) r += std::fabs(a[i] - b[i]);
    return r;
  }
};
// other metrics, with names alike
template <std::size_t ND> struct L9 : L1<ND> {};
namespace Euclid { namespace SOM { namespace Distance { template <std::size_t ND> struct Q2 : L2<ND> {}; } } }
template <typename D> struct Near;
template <std::size_t ND> struct Near<L1<ND>> { using type = L9<ND>; };
template <std::size_t ND> struct Near<Distance::L2<ND>> { using type = Distance::Q2<ND>; };
template <std::size_t ND> std::array<double, ND> arr(const J& j) { std::array<double, ND> r; for (size_t i = 0; i < ND; ++i) r[i] = j[i].d() / W; return r; }
// an input of the user, of which the weights are asked
template <std::size_t ND> struct In { int id; std::array<double, ND> w, u; };
template <std::size_t ND> std::vector<In<ND>> ins(const J& e) {
  std::vector<In<ND>> r;
  int n = 0;
  for (auto& x : e["in"].a) { In<ND> i; i.id = ++n; i.w = arr<ND>(x); if (e.has("u") && e["u"].size()) i.u = arr<ND>(e["u"][n - 1]); r.push_back(i); }
  return r;
}
static NeighborhoodFunc::Signature nb(const J& e, size_t x, size_t y) {
  if (e["nk"].i() == 0) return NeighborhoodFunc::linearUnitDisk(e["nr"].d() / 4);
  if (e["nk"].i() == 2) return NeighborhoodFunc::kohonen(x, y, e["nr"].d() / 4);
  return [](std::pair<size_t, size_t> b, std::pair<size_t, size_t> c, size_t, size_t) {
    long m = std::max(std::labs((long)b.first - (long)c.first), std::labs((long)b.second - (long)c.second));
    return m == 0 ? 1. : m == 1 ? .5 : 0.;
  };
}
static LearningRestraintFunc::Signature learn(const J& e) {
  if (e["lk"].i() == 0) return LearningRestraintFunc::linear();
  if (e["lk"].i() == 2) return LearningRestraintFunc::exponentialDecay(e["lr"].d() / 4);
  bool skip = e["lk"].i() == 3;
  return [skip](size_t i, size_t) { return skip && i % 2 ? 0. : .5; };
}

static int exported = 0;
struct Cell { std::vector<int> v{-7}; };
struct Any {
  virtual ~Any() {}
  virtual void weights(Obs&) = 0;
  virtual Obs step(const std::string& op, const J& e) = 0;
  virtual Any* extra(const J& e) = 0;      // a map made out of this one
};
template <std::size_t ND, typename DF, typename OtherDF> struct M : Any {
  using T = SOM<ND, DF>;
  std::unique_ptr<T> s;
  M(std::unique_ptr<T> x) : s(std::move(x)) {}
  void weights(Obs& o) override { for (auto& c : *s) for (double w : c) o.addn(w * W); }
  template <typename V> void train(T& som, const J& e, V& in) {
    auto wf = [](const In<ND>& i) { return i.w; };
    SOMTrainer tr(nb(e, som.getSize().first, som.getSize().second), learn(e));
    using I = typename V::iterator;
    size_t n = e["T"].u();
    if (e["pol"].i() == 0) { if (e["n"].i() == 0) tr.train(som, n, in.begin(), in.end(), wf); else tr.train(som, n, in.begin(), in.end(), wf, SamplingPolicy::FullSet<I>{}); }
    else if (e["pol"].i() == 1) tr.train(som, n, in.begin(), in.end(), wf, SamplingPolicy::jackknifeFactory(in.begin(), e["n"].u()));
    else tr.train(som, n, in.begin(), in.end(), wf, SamplingPolicy::bootstrapFactory(in.begin()));
  }
  void trainIn(T& som, const J& e) {
    auto in = ins<ND>(e);
    if (in.size() % 2) { std::list<In<ND>> l(in.begin(), in.end()); train(som, e, l); } else train(som, e, in);
  }
  Obs step(const std::string& op, const J& e) override {
    Obs o;
    const T& cs = *s;
    if (op == "set") { (*s)(e["x"].u(), e["y"].u()) = arr<ND>(e["v"]); return o; }
    if (op == "get") { for (double w : (e["c"].i() ? cs(e["x"].u(), e["y"].u()) : (*s)(e["x"].u(), e["y"].u()))) o.addn(w * W); return o; }
    if (op == "size") { o.add((long)s->getSize().first).add((long)s->getSize().second); return o; }
    if (op == "all") {
      auto put = [&](size_t x, size_t y, const std::array<double, ND>& c) { o.add((long)x).add((long)y); for (double w : c) o.addn(w * W); };
      if (e["c"].i() == 0) for (auto i = s->begin(); i != s->end(); ++i) put(i.template axisValue<0>(), i.template axisValue<1>(), *i);
      else if (e["c"].i() == 1) for (auto i = cs.begin(); i != cs.end(); ++i) put(i.template axisValue<0>(), i.template axisValue<1>(), *i);
      else for (auto i = s->cbegin(); i != s->cend(); ++i) put(i.template axisValue<0>(), i.template axisValue<1>(), *i);
      return o;
    }
    if (op == "bmu") {
      std::tuple<size_t, size_t, double> r;
      bool f = e["how"].i();
      In<ND> in;
      in.w = arr<ND>(e["v"]);
      auto wf = [](const In<ND>& i) { return i.w; };
      auto uf = [](const In<ND>& i) { return i.u; };
      if (e["u"].size() == 0) r = f ? cs.findBMU(in, wf) : cs.findBMU(in.w);
      else { in.u = arr<ND>(e["u"]); r = f ? cs.findBMU(in, wf, uf) : cs.findBMU(in.w, in.u); }
      o.add((long)std::get<0>(r)).add((long)std::get<1>(r)).add(rnd(std::get<2>(r), S));
      return o;
    }
    if (op == "train") { trainIn(*s, e); weights(o); return o; }
    if (op == "soft") {
      T t(s->getSize().first, s->getSize().second);
      auto i = s->begin();
      for (auto& c : t) { c = *i; ++i; }
      trainIn(t, e);
      for (auto& c : t) for (double w : c) o.add(rnd(w, W));
      return o;
    }
    if (op == "project") {
      auto in = ins<ND>(e);
      auto wf = [](const In<ND>& i) { return i.w; };
      auto uf = [](const In<ND>& i) { return i.u; };
      auto add = [](Cell& c, const In<ND>& i) { c.v.push_back(i.id); };
      Cell init;
      init.v[0] = -8;
      int mark = e["u"].size() ? -8 : -7;      // the overload without uncertainties is ambiguous with an initial value
      auto p = e["u"].size() ? SOMProjector::project<Cell>(cs, in.begin(), in.end(), wf, uf, add, init)
                             : SOMProjector::project<Cell>(cs, in.begin(), in.end(), wf, add);
      std::vector<long> at(in.size(), 0);
      long n = 0, started = 0, order = 1;
      for (size_t y = 0; y < s->getSize().second; ++y)
        for (size_t x = 0; x < s->getSize().first; ++x) {
          ++n;
          auto& c = p(x, y).v;
          started += !c.empty() && c[0] == mark;
          for (size_t i = 1; i < c.size(); ++i) { at[c[i] - 1] = at[c[i] - 1] ? -1 : n; if (i > 1 && c[i] <= c[i - 1]) order = 0; }
        }
      for (long a : at) o.add(a);
      o.add(started).add(order);
      return o;
    }
    if (op == "umat") {
      UMatrix u = e["how"].i() == 0 ? computeUMatrix(cs, UMatrixType::MIN) : e["how"].i() == 1 ? computeUMatrix(cs, UMatrixType::MAX) : computeUMatrix(cs);
      for (double v : u) o.add(rnd(v, S));
      return o;
    }
    _exit(70);
  }
  Any* extra(const J& e) override {
    if (e["op"].str() == "mv") {
      if (e["how"].i() == 0) return new M(std::unique_ptr<T>(new T(std::move(*s))));
      std::unique_ptr<T> t(new T(3, 1));
      *t = std::move(*s);
      return new M(std::move(t));
    }
    if (e["how"].i() == 2) {
      std::string f = "som" + std::to_string(++exported);
      somFitsExport(f, *s);
      if (e["bad"].i() == 1) { somFitsImport<ND, OtherDF>(f); return nullptr; }
      if (e["bad"].i() == 3) { somFitsImport<ND, typename Near<DF>::type>(f); return nullptr; }
      if (e["bad"].i() == 2) { somFitsImport<ND + 1, Distance::L2<ND + 1>>(f); return nullptr; }
      return new M(std::unique_ptr<T>(new T(somFitsImport<ND, DF>(f))));
    }
    std::stringstream st;
    bool text = e["how"].i();
    if (text) somExport<boost::archive::text_oarchive>(st, *s); else somBinaryExport(st, *s);
    using NearDF = typename Near<DF>::type;
    if (e["bad"].i() == 3) { if (text) somImport<boost::archive::text_iarchive, ND, NearDF>(st); else somBinaryImport<ND, NearDF>(st); return nullptr; }
    if (e["bad"].i()) { if (text) somImport<boost::archive::text_iarchive, ND, OtherDF>(st); else somBinaryImport<ND, OtherDF>(st); return nullptr; }
    return text ? new M(std::unique_ptr<T>(new T(somImport<boost::archive::text_iarchive, ND, DF>(st)))) : new M(std::unique_ptr<T>(new T(somBinaryImport<ND, DF>(st))));
  }
};
template <std::size_t ND, typename DF, typename O> Any* make(const J& e) {
  using T = SOM<ND, DF>;
  size_t x = e["x"].u(), y = e["y"].u();
  if (e["init"].size() == 0) return new M<ND, DF, O>(std::unique_ptr<T>(new T(x, y)));
  auto v = e["init"].dbls();
  size_t n = 0;
  return new M<ND, DF, O>(std::unique_ptr<T>(new T(x, y, [v, &n]() { return v.at(n++) / W; })));
}
template <std::size_t ND> Any* makeD(const J& e) { return e["f"].i() ? make<ND, L1<ND>, Distance::L2<ND>>(e) : make<ND, Distance::L2<ND>, L1<ND>>(e); }
static std::vector<std::unique_ptr<Any>> ms;
template <typename P> void passes(const P& p, std::vector<int>& v, const J& e, Obs& o) {
  for (int r = 0; r < e["rep"].i(); ++r) {
    size_t n = 0;
    for (auto it = p.start(v.begin(), v.end()); it != v.end() && n < 50; it = p.next(it), ++n) o.add(*it);
    o.add(0);
  }
}
static Obs step(const J& e) {
  const std::string& op = e["op"].str();
  Obs o;
  if (op == "new") { ms.clear(); return o; }
  if (op == "som") {
    int d = e["d"].i();
    ms.emplace_back(d == 1 ? makeD<1>(e) : d == 2 ? makeD<2>(e) : makeD<3>(e));
    ms.back()->weights(o);
    return o;
  }
  if (op == "nbh") {
    auto f = e["k"].i() == 0 ? NeighborhoodFunc::linearUnitDisk(e["r"].d() / 4) : e["r"].i() == 4 && e["x"].i() % 2 ? NeighborhoodFunc::kohonen(e["x"].u(), e["y"].u()) : NeighborhoodFunc::kohonen(e["x"].u(), e["y"].u(), e["r"].d() / 4);
    for (auto& q : e["qs"].a) o.add(rnd(f({q[0].u(), q[1].u()}, {q[2].u(), q[3].u()}, q[4].u(), q[5].u()), S));
    return o;
  }
  if (op == "lrn") {
    auto f = e["k"].i() == 0 ? LearningRestraintFunc::linear() : LearningRestraintFunc::exponentialDecay(e["r"].d() / 4);
    for (auto& q : e["qs"].a) o.add(rnd(f(q[0].u(), q[1].u()), S));
    return o;
  }
  if (op == "samp") {
    std::vector<int> v;
    for (int i = 1; i <= e["m"].i(); ++i) v.push_back(i);
    using I = std::vector<int>::iterator;
    if (e["pol"].i() == 0) passes(SamplingPolicy::FullSet<I>{}, v, e, o);
    else if (e["pol"].i() == 1) passes(SamplingPolicy::Jackknife<I>{e["n"].u()}, v, e, o);
    else passes(SamplingPolicy::Bootstrap<I>{}, v, e, o);
    return o;
  }
  if (op == "rand") {
    // lo, hi in thousandths; the normal distribution stays within 10 standard deviations
    double lo = e["lo"].d() / S, hi = e["hi"].d() / S;
    auto f = e["k"].i() == 0 ? InitFunc::uniformRandom(lo, hi) : InitFunc::normalDistribution((hi - lo) / 20, (hi + lo) / 2);
    for (int i = 0; i < e["m"].i(); ++i) o.add(rnd(f(), S));
    return o;
  }
  Any& m = *ms.at(e["g"].u() - 1);
  if (op == "ser" || op == "mv") { Any* p = m.extra(e); if (p) ms.emplace_back(p); return o; }
  return m.step(op, e);
}
int main(int c, char** v) { if (other_unit() != 3) return 71; return run(c, v, step); }
