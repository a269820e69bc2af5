#include "vd.h"
#include "ElementsKernel/Exception.h"
#include "MathUtils/function/Differentiable.h"
#include "MathUtils/function/FunctionAdapter.h"
#include "MathUtils/function/Piecewise.h"
#include "MathUtils/function/Polynomial.h"
#include "MathUtils/function/function_tools.h"
#include "MathUtils/helpers/Solvers.h"
#include "MathUtils/interpolation/interpolation.h"
#include "MathUtils/numericalDifferentiation/FiniteDifference.h"
#include "MathUtils/numericalIntegration/AdaptativeIntegration.h"
#include "MathUtils/numericalIntegration/SimpsonsRule.h"
#include "XYDataset/XYDataset.h"
using namespace vd;
using namespace Euclid::MathUtils;
static const double S = 1000;
static std::vector<std::unique_ptr<Function>> fs;

static std::unique_ptr<Function> interp(const J& e, InterpolationType t, bool dataset) {
  auto x = e["x"].dbls(), y = e["y"].dbls();
  bool ext = e["ext"].i();
  if (dataset && x.size() == y.size()) return interpolate(Euclid::XYDataset::XYDataset::factory(x, y), t, ext);
  return interpolate(x, y, t, ext);
}

static Obs step(const J& e) {
  const std::string& op = e["op"].str();
  Obs o;
  auto F = [&](const char* k) -> Function& { return *fs.at(e[k].u() - 1); };
  if (op == "new") { fs.clear(); return o; }
  if (op == "poly") {
    std::unique_ptr<Polynomial> p(new Polynomial(e["c"].dbls()));
    o.all(p->getCoefficients());
    fs.push_back(std::move(p));
    return o;
  }
  if (op == "ad") {
    auto c = e["c"].dbls();
    fs.emplace_back(new FunctionAdapter([c](double x) { double r = 0; for (size_t i = c.size(); i-- > 0;) r = r * x + c[i]; return r; }));
    return o;
  }
  if (op == "pw") {
    std::unique_ptr<Piecewise> p;
    if (e["sh"].i()) {
      std::vector<std::shared_ptr<Function>> v;
      for (auto i : e["f"].sizes()) v.emplace_back(fs.at(i - 1)->clone().release());
      p.reset(new Piecewise(e["k"].dbls(), v));
    } else {
      std::vector<std::unique_ptr<Function>> v;
      for (auto i : e["f"].sizes()) v.emplace_back(fs.at(i - 1)->clone());
      p.reset(new Piecewise(e["k"].dbls(), std::move(v)));
    }
    o.all(p->getKnots());
    fs.push_back(std::move(p));
    return o;
  }
  if (op == "lin") { fs.push_back(interp(e, InterpolationType::LINEAR, e["ds"].i())); return o; }
  if (op == "mul") { fs.push_back(multiply(F("a"), F("b"))); return o; }
  if (op == "cl") { fs.push_back(F("a").clone()); return o; }
  if (op == "der") {
    auto d = dynamic_cast<Differentiable&>(F("a")).derivative();
    fs.push_back(d->clone());
    o.all(dynamic_cast<Polynomial&>(*d).getCoefficients());
    return o;
  }
  if (op == "ev") return o.add(rnd(F("a")(e["q"].d() / 2), S));
  if (op == "prim") {
    auto g = dynamic_cast<Differentiable&>(F("a")).indefiniteIntegral();
    return o.add(rnd((*g)(e["q"].d() / 2) - (*g)(e["p"].d() / 2), S));
  }
  if (op == "int") return o.add(rnd(integrate(F("a"), e["p"].d() / 2, e["q"].d() / 2), S));
  if (op == "num")
    return o.add(rnd(integrate(F("a"), e["p"].d() / 2, e["q"].d() / 2, std::unique_ptr<NumericalIntegrationScheme>(new AdaptativeIntegration<SimpsonsRule>(1e-6, e["order"].i()))), S));
  if (op == "simpson") {
    SimpsonsRule r;
    double a = e["p"].d() / 2, b = e["q"].d() / 2;
    int n = e["order"].i();
    if (!e["rec"].i()) return o.add(rnd(r(F("a"), a, b, n), S));
    double prev = n > 3 ? r(F("a"), a, b, n - 1) : 0.;
    return o.add(rnd(r(F("a"), a, b, prev, n), S));
  }
  if (op == "diff") return o.add(rnd(e["n"].i() == 1 ? derivative(F("a"), e["q"].d() / 2) : derivative2nd(F("a"), e["q"].d() / 2), S));
  if (op == "linv") {
    if (e["how"].i() == 2) {
      for (auto q : e["qs"].dbls()) o.add(rnd(simple_interpolation(q / 2, e["x"].dbls(), e["y"].dbls(), e["ext"].i()), S));
    } else {
      auto f = interp(e, InterpolationType::LINEAR, e["how"].i() == 1);
      auto g = f->clone();
      f.reset();
      for (auto q : e["qs"].dbls()) o.add(rnd((*g)(q / 2), S));
    }
    return o;
  }
  if (op == "spl") {
    auto f = interp(e, InterpolationType::CUBIC_SPLINE, e["how"].i() == 1);
    auto x = e["x"].dbls(), y = e["y"].dbls();
    std::vector<double> k;
    for (auto v : x) if (k.empty() || k.back() != v) k.push_back(v);
    auto five = [&](double a, double b) { for (int i = 0; i < 5; ++i) o.add(rnd((*f)(i == 4 ? b : a + (b - a) * i / 4), S)); };
    if (k.size() == 1) { for (double d : {-1., 0., .5}) o.add(rnd((*f)(k[0] + d), S)); return o; }
    for (size_t i = 0; i + 1 < k.size(); ++i) five(k[i], k[i + 1]);
    double a = k[1] - k[0], n = k.size(), b = k[n - 1] - k[n - 2];
    five(k[0] - a / 2, k[0] + a / 2);
    five(k[n - 1] - b / 2, k[n - 1] + b / 2);
    return o;
  }
  if (op == "sq") {
    auto r = solveSquare(e["a"].d(), e["b"].d(), e["c"].d(), e["y"].d());
    auto f = [](double v) { return std::isnan(v) ? NAN_ : std::fabs(v - std::round(v)) < 1e-6 ? rnd(v) : FRAC; };
    return o.add(f(r.first)).add(f(r.second));
  }
  fprintf(stderr, "unknown op %s\n", op.c_str());
  _exit(70);
}
int main(int argc, char** argv) { return run(argc, argv, step); }
