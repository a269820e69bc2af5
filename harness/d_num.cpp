// P31: cosmological distances, quadratures, finite differences, quadratic equations
#include "vd.h"
#include "ElementsKernel/Exception.h"
#include "MathUtils/function/FunctionAdapter.h"
#include "MathUtils/function/Polynomial.h"
#include "MathUtils/function/function_tools.h"
#include "MathUtils/helpers/Solvers.h"
#include "MathUtils/numericalDifferentiation/FiniteDifference.h"
#include "MathUtils/numericalIntegration/AdaptativeIntegration.h"
#include "MathUtils/numericalIntegration/SimpsonsRule.h"
#include "PhysicsUtils/CosmologicalDistances.h"
#include "PhysicsUtils/CosmologicalParameters.h"
using namespace vd;
using namespace Euclid::MathUtils;
using namespace Euclid::PhysicsUtils;
static Obs step(const J& e) {
  const std::string& op = e["op"].str();
  Obs o;
  if (op == "new") return o;
  if (op == "cosmo") {
    CosmologicalParameters p(e["m"].d() / 100, e["l"].d() / 100, e["h"].d());
    CosmologicalDistances c;
    double D = c.hubbleDistance(p), S = 100000;
    o.add(rnd(p.getOmegaM(), 100)).add(rnd(p.getOmegaLambda(), 100)).add(rnd(p.getOmegaK(), 100)).add(rnd(p.getHubbleConstant(), 1)).add(rnd(D / 1000, 1));
    for (auto& q : e["zs"].a) {
      double z = q.d() / e["zd"].d(), U = z == 0 ? 1 : S / D;
      o.add(rnd(c.hubbleParameter(z, p), S)).add(rnd(c.comovingDistance(z, p) / D, S)).add(rnd(c.transverseComovingDistance(z, p) / D, S));
      o.add(rnd(c.luminousDistance(z, p), U)).add(rnd(10 * std::pow(10, c.distanceModulus(z, p) / 5), U));
      o.add(rnd(c.dimensionlessComovingVolumeElement(z, p), S)).add(rnd(c.comovingDistance(z, p, 1e-3) / D, S));
    }
    return o;
  }
  if (op == "simp") {
    // a function known at the nodes, and nowhere else
    auto f = e["fv"].dbls();
    double a = e["a"].d() / 4, h = e["w"].d() / 4, b = a + h * (f.size() - 1);
    bool off = false;
    FunctionAdapter fn([&](double x) { double i = (x - a) / h; long n = std::lround(i); if (n < 0 || n >= (long)f.size() || std::fabs(i - n) > 1e-6) { off = true; return 0.; } return f[n]; });
    SimpsonsRule rule;
    int order = e["order"].i();
    double r = e["rec"].i() ? rule(fn, a, b, order > 3 ? rule(fn, a, b, order - 1) : 0., order) : rule(fn, a, b, order);
    if (off) o.k = "off"; else o.add(rnd(r, 96));
    return o;
  }
  if (op == "adapt") {
    Polynomial f(e["c"].dbls());
    std::unique_ptr<NumericalIntegrationScheme> s(new AdaptativeIntegration<SimpsonsRule>(1 / e["prec"].d(), e["first"].i()));
    double r = e["how"].i() ? integrate(FunctionAdapter([&](double x) { return f(x); }), e["a"].d() / 2, e["b"].d() / 2, std::move(s)) : (*s)(f, e["a"].d() / 2, e["b"].d() / 2);
    return o.add(rnd(r, 3840)), o;
  }
  if (op == "sq") {
    // a (x - p/2) (x - q/2) + y, or b (x - p/2) + y
    double a = e["a"].d(), p = e["p"].d() / 2, q = e["q"].d() / 2, y = e["y"].d(), b = a != 0 ? -a * (p + q) : e["b"].d(), c = a != 0 ? a * p * q + y : -b * p + y;
    auto r = solveSquare(a, b, c, y);
    return o.add(rnd(r.first, 2)).add(rnd(r.second, 2)), o;
  }
  if (op == "der") {
    Polynomial f(e["c"].dbls());
    return o.add(rnd(e["n"].i() == 1 ? derivative(f, e["x"].d() / 2) : derivative2nd(f, e["x"].d() / 2), 64)), o;
  }
  _exit(70);
}
int main(int c, char** v) { return run(c, v, step); }
