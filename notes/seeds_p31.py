T = "Table/src/lib/"
def d(pid, id, needs, breaks, edits, demo, srcs=[], flags=""):
    return dict(id=id, property=pid, needs=needs, breaks=breaks, edits=edits, srcs=srcs, demo=demo, flags=flags)
CD = "PhysicsUtils/src/lib/CosmologicalDistances.cpp"
CS = [CD, "PhysicsUtils/src/lib/CosmologicalParameters.cpp", "MathUtils/src/lib/numericalIntegration/SimpsonsRule.cpp", "MathUtils/src/lib/function/FunctionAdapter.cpp", "MathUtils/src/lib/function/Piecewise.cpp",
      "MathUtils/src/lib/function/function_tools.cpp", "MathUtils/src/lib/function/multiplication.cpp", "MathUtils/src/lib/function/Polynomial.cpp", "MathUtils/src/lib/function/Differentiable.cpp"]
CH = """
#include "PhysicsUtils/CosmologicalDistances.h"
#include "PhysicsUtils/CosmologicalParameters.h"
#include <cmath>
using namespace Euclid::PhysicsUtils;
"""
SEEDS = [
 d("P31", "cosmo-nearly-flat", "a cosmology whose curvature density is small, but not zero", "the transverse distance ignores the curvature",
   [(CD, "  if (Elements::isEqual(0., parameters.getOmegaK())) {\n    return comoving;", "  if (std::abs(parameters.getOmegaK()) < 0.05) {\n    return comoving;")], CH + """
int main() { CosmologicalParameters p(0.3, 0.66, 70); CosmologicalDistances c; double d = c.comovingDistance(2, p), t = c.transverseComovingDistance(2, p); return t / d > 1.001 ? 0 : 1; }
""", CS),
 d("P31", "cosmo-volume-comoving", "the volume element in a curved cosmology", "the volume element uses the distance along the line of sight",
   [(CD, "  double D_M = transverseComovingDistance(z, parameters);", "  double D_M = comovingDistance(z, parameters);")], CH + """
int main() { CosmologicalParameters p(0., 0., 70); CosmologicalDistances c; double v = c.dimensionlessComovingVolumeElement(1, p); return std::abs(v - 0.75 * 0.75 / 2) < 1e-4 ? 0 : 1; }
""", CS),
 d("P31", "solve-order-negative", "a quadratic equation with a negative leading coefficient", "the larger solution comes first",
   [("MathUtils/src/lib/helpers/Solvers.cpp", "    return std::make_pair(-sr - b / (2 * a), sr - b / (2 * a));", "    sr *= 2 * std::abs(a);\n    return std::make_pair((-sr - b) / (2 * a), (sr - b) / (2 * a));")], """
#include <utility>
#include "MathUtils/helpers/Solvers.h"
int main() { auto r = Euclid::MathUtils::solveSquare(-1, 3, -2, 0); return r.first == 1 && r.second == 2 ? 0 : 1; }
""", ["MathUtils/src/lib/helpers/Solvers.cpp"]),
 d("P31", "simpson-recursion-near-end", "the recursive rule on a function whose values near both ends differ", "the node correction four steps before the end is taken two steps before it",
   [("MathUtils/src/lib/numericalIntegration/SimpsonsRule.cpp", "function(max - 4. * h)) / 24.;", "function(max - 2. * h)) / 24.;")], """
#include "MathUtils/numericalIntegration/SimpsonsRule.h"
#include "MathUtils/function/FunctionAdapter.h"
#include <cmath>
using namespace Euclid::MathUtils;
int main() { SimpsonsRule s; FunctionAdapter f([](double x) { return x * x * x; }); double p = s(f, 0, 4, 3); return std::abs(s(f, 0, 4, p, 4) - 64) < 1e-6 ? 0 : 1; }
""", CS[2:]),
]
