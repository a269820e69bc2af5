#include "vd.h"
#include "ElementsKernel/Exception.h"
#include "MathUtils/PDF/Cumulative.h"
#include "MathUtils/PDF/NdSampler.h"
#include <cassert>
#include <numeric>
#include "MathUtils/PDF/NdSamplerFromGrid.h"
#include "MathUtils/PDF/PdfModeExtraction.h"
#include "MathUtils/helpers/InverseCumulative.h"
#include "XYDataset/XYDataset.h"
using namespace vd;
using namespace Euclid::MathUtils;
using DS = Euclid::XYDataset::XYDataset;
static const double S = 1000, Q = 100;
static std::vector<std::unique_ptr<Cumulative>> cs;

struct Gen {        // always the same number
  using result_type = uint64_t;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~0ull; }
  uint64_t v;
  uint64_t operator()() { return v; }
};
template <typename T> long out(const T& x) { return num(x); }
template <> long out<double>(const double& x) { return rnd(x, Q); }
template <> long out<std::string>(const std::string& x) { return atol(x.c_str()); }
template <typename T> T in(long x) { return T(x); }
template <> std::string in<std::string>(long x) { return std::to_string(x); }
template <typename T> std::vector<T> axis(const J& j) { std::vector<T> r; for (int x : j.ints()) r.push_back(in<T>(x)); return r; }
template <typename A, typename B, typename S> void drawn(const S& s, const J& e, Obs& o) {
  Gen g{(uint64_t)e["k"].l() << 58};
  size_t n = e["draws"].u();
  if (e["how"].i() % 2) {
    std::vector<std::tuple<A, B>> r(n);
    s.draw(n, g, r);
    for (auto& t : r) o.add(out(std::get<0>(t))).add(out(std::get<1>(t)));
  } else {
    for (auto& t : s.draw(n, g)) o.add(out(std::get<0>(t))).add(out(std::get<1>(t)));
  }
}
template <typename A, typename B> void sample(const J& e, Obs& o) {
  namespace GC = Euclid::GridContainer;
  auto vals = e["vals"].dbls();
  if (e["how"].i() < 2) {
    std::vector<size_t> sh = e["sh"].sizes();
    drawn<A, B>(NdSampler<A, B>(std::make_tuple(axis<A>(e["k1"]), axis<B>(e["k2"])), Euclid::NdArray::NdArray<double>(sh, vals)), e, o);
  } else if (e["how"].i() < 4) {          // from a grid with both axes
    GC::GridContainer<std::vector<double>, A, B> g(GC::GridAxis<A>("a", axis<A>(e["k1"])), GC::GridAxis<B>("b", axis<B>(e["k2"])));
    for (size_t j = 0; j < e["k2"].a.size(); ++j) for (size_t i = 0; i < e["k1"].a.size(); ++i) g.at(i, j) = vals[j * e["k1"].a.size() + i];
    drawn<A, B>(*createSamplerFromGrid(g), e, o);
  } else {                                // the first axis is in the cells of the grid
    GC::GridContainer<std::vector<std::vector<double>>, B> g(GC::GridAxis<B>("b", axis<B>(e["k2"])));
    size_t n1 = e["k1"].a.size();
    for (size_t j = 0; j < e["k2"].a.size(); ++j) g(j) = std::vector<double>(vals.begin() + j * n1, vals.begin() + (j + 1) * n1);
    if (e["how"].i() < 6) drawn<A, B>(*createSamplerFromGrid(g, axis<A>(e["k1"])), e, o);
    else drawn<size_t, B>(*createSamplerFromGrid(g), e, o);
  }
}

static Obs step(const J& e) {
  const std::string& op = e["op"].str();
  Obs o;
  if (op == "new") { cs.clear(); return o; }
  if (op == "cum") {
    auto x = e["x"].dbls(), y = e["y"].dbls();
    bool pdf = e["pdf"].i(), ds = e["ds"].i() && x.size() == y.size();
    if (ds) cs.emplace_back(new Cumulative(pdf ? Cumulative::fromPdf(DS::factory(x, y)) : Cumulative(DS::factory(x, y))));
    else cs.emplace_back(new Cumulative(pdf ? Cumulative::fromPdf(x, y) : Cumulative(x, y)));
    return o;
  }
  if (op == "icc") {
    auto   x = e["x"].dbls();
    double p = e["k"].d() / 16 + e["eps"].i() * 1e-11;
    if (e["fl"].i()) {
      InverseCumulative<float> c(std::vector<float>(x.begin(), x.end()), e["p"].dbls());
      return o.add(rnd(c(p), Q));
    }
    InverseCumulative<double> c(x, e["p"].dbls());
    return o.add(rnd(c(p), Q));
  }
  if (op == "icd") {
    double p = e["k"].d() / 16;
    if (e["fl"].i()) { InverseCumulative<std::string> c(axis<std::string>(e["x"]), e["p"].dbls()); return o.add(out(c(p))); }
    InverseCumulative<int> c(e["x"].ints(), e["p"].dbls());
    return o.add(out(c(p)));
  }
  if (op == "nds") {
    switch (e["t"].i()) {
    case 0: sample<int, int>(e, o); break;
    case 1: sample<double, int>(e, o); break;
    case 2: sample<int, double>(e, o); break;
    case 3: sample<std::string, std::string>(e, o); break;
    case 4: sample<double, std::string>(e, o); break;
    }
    return o;
  }
  if (op == "modes") {
    auto   x = e["x"].dbls(), y = e["y"].dbls();
    double k = e["k"].d() / 8;
    size_t n = e["n"].u();
    std::vector<ModeInfo> m;
    if (e["ds"].i()) m = e["kind"].i() ? extractNBigestModes(DS::factory(x, y), k, n) : extractNHighestModes(DS::factory(x, y), k, n);
    else m = e["kind"].i() ? extractNBigestModes(x, y, k, n) : extractNHighestModes(x, y, k, n);
    for (auto& i : m) o.addn(i.getHighestSamplePosition()).addn(2 * i.getModeArea()).add(rnd(i.getMeanPosition(), S)).add(rnd(i.getInterpolatedMaxPosition(), S));
    return o;
  }
  Cumulative& c = *cs.at(e["g"].u() - 1);
  if (op == "cp") {
    std::vector<double> one{1.}, two{2.};
    switch (e["how"].i()) {
    case 0: cs.emplace_back(new Cumulative(c)); break;
    case 1: { std::unique_ptr<Cumulative> n(new Cumulative(one, two)); *n = c; cs.push_back(std::move(n)); break; }
    case 2: { Cumulative t(c); cs.emplace_back(new Cumulative(std::move(t))); break; }
    default: { Cumulative t(c); std::unique_ptr<Cumulative> n(new Cumulative(one, two)); *n = std::move(t); cs.push_back(std::move(n)); }
    }
    return o;
  }
  if (op == "norm") { c.normalize(); return o; }
  if (op == "fv") return o.addn(2 * c.findValue(e["k"].d() / 16, e["pos"].i() == 0 ? Cumulative::begin : e["pos"].i() == 1 ? Cumulative::middle : Cumulative::end));
  if (op == "ci") { auto p = c.findCenteredInterval(e["k"].d() / 16); return o.addn(p.first).addn(p.second); }
  if (op == "mi") { auto p = c.findMinInterval(e["k"].d() / 16); return o.addn(p.first).addn(p.second); }
  fprintf(stderr, "unknown op %s\n", op.c_str());
  _exit(70);
}
int main(int argc, char** argv) { return run(argc, argv, step); }
