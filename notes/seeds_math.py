M = "MathUtils/src/lib/"
MS = [M + f + ".cpp" for f in ("PDF/Cumulative", "PDF/PdfModeExtraction", "function/Differentiable", "function/FunctionAdapter", "function/Piecewise", "function/Polynomial",
      "function/function_tools", "function/multiplication", "interpolation/interpolation", "interpolation/linear", "interpolation/spline", "helpers/Solvers",
      "numericalDifferentiation/FiniteDifference", "numericalIntegration/SimpsonsRule")] + ["XYDataset/src/lib/XYDataset.cpp", "NdArray/src/Operations.cpp"]
H = """
#include "ElementsKernel/Exception.h"
#include "MathUtils/PDF/Cumulative.h"
#include "MathUtils/PDF/PdfModeExtraction.h"
#include "MathUtils/function/Piecewise.h"
#include "MathUtils/function/Polynomial.h"
#include "MathUtils/function/function_tools.h"
#include "MathUtils/interpolation/interpolation.h"
#include "MathUtils/interpolation/GridInterpolation.h"
#include "MathUtils/numericalIntegration/SimpsonsRule.h"
#include <cmath>
using namespace Euclid::MathUtils;
static bool near(double a, double b) { return std::abs(a - b) < 1e-6; }
static std::unique_ptr<Function> poly(std::vector<double> c) { return std::unique_ptr<Function>(new Polynomial(c)); }
"""
def d(pid, id, needs, breaks, edits, demo):
    return dict(id=id, property=pid, needs=needs, breaks=breaks, edits=edits, srcs=MS, demo=H + demo)
SEEDS = [
 d("P24", "fn-pw-integral-from-knot", "an integral that starts exactly at an inner knot", "the piece left of the lower bound is skipped together with the one that starts there",
   [(M + "function/Piecewise.cpp", "  auto   knotIter = std::upper_bound(m_knots.begin(), m_knots.end(), min);\n  if (knotIter != m_knots.begin()) {", "  auto   knotIter = std::lower_bound(m_knots.begin(), m_knots.end(), min);\n  if (knotIter != m_knots.begin() && *knotIter != min) {"),
    (M + "function/Piecewise.cpp", "    if (max <= *prevKnotIter) {", "    if (max < *knotIter && min == *prevKnotIter && prevKnotIter != m_knots.begin()) {")], """
int main() { std::vector<std::unique_ptr<Function>> f; f.push_back(poly({1})); f.push_back(poly({2})); f.push_back(poly({4}));
  Piecewise p({0, 1, 2, 3}, std::move(f)); return near(p.integrate(1, 1.5), 1) ? 0 : 1; }
"""),
 d("P24", "fn-poly-cached-derivative", "the derivative or integral of a polynomial without coefficients or of a copy", "integration of the constant term of a polynomial whose first coefficient is zero starts one power too low",
   [(M + "function/Polynomial.cpp", "      indefIntegCoef.push_back(m_coef[i] / (i + 1));", "      if (i > 0 || m_coef[i] != 0. || m_coef.size() < 3)\n        indefIntegCoef.push_back(m_coef[i] / (i + 1));")], """
int main() { auto p = poly({0, 0, 3}); return near(integrate(*p, 0, 2), 8) ? 0 : 1; }
"""),
 d("P24", "fn-spline-uneven", "a cubic spline over knots that are not evenly spaced", "the second derivatives are computed as if the spacing was constant",
   [(M + "interpolation/spline.cpp", "    double g = 2. * (x[i + 1] - x[i - 1]) - h[i - 1] * mu[i - 1];", "    double g = 4. * h[i] - h[i - 1] * mu[i - 1];")], """
int main() { auto f = interpolate({0, 1, 3}, {0, 1, 0}, InterpolationType::CUBIC_SPLINE);
  double e = 1e-4; double d2l = ((*f)(1) - 2 * (*f)(1 - e) + (*f)(1 - 2 * e)) / e / e, d1l = ((*f)(1) - (*f)(1 - e)) / e, d1r = ((*f)(1 + e) - (*f)(1)) / e; (void)d2l;
  return std::abs(d1l - d1r) < 1e-2 ? 0 : 1; }
"""),
 d("P24", "fn-simple-single", "simple interpolation with one knot, no extrapolation, exactly at the knot... and a query below the first of several", "values just below the first knot are extrapolated although that was not asked for",
   [(M + "interpolation/interpolation.cpp", "    if (!extrapolate && x < xp.front())\n      return 0.;", "    if (!extrapolate && x < xp.front() - (xp[1] - xp[0]))\n      return 0.;")], """
int main() { return near(simple_interpolation(0.5, {1, 2}, {5, 6}, false), 0) ? 0 : 1; }
"""),
 d("P24", "fn-simpson-recursive", "the recursive form of Simpson's rule on a function that is not even", "the correction of the recursion takes one point from the wrong end",
   [(M + "numericalIntegration/SimpsonsRule.cpp", "  partial_sum += (function(min + 4. * h) + function(max - 4. * h)) / 24.;", "  partial_sum += (function(max - 4. * h) + function(max - 4. * h)) / 24.;")], """
int main() { Polynomial p({1, 2, 3}); double s4 = SimpsonsRule{}(p, 0, 2, 4); return near(SimpsonsRule{}(p, 0, 2, s4, 5), 14) ? 0 : 1; }
"""),
 d("P26", "cum-tray-end", "findValue at the end of a flat stretch that reaches the last sample", "the end of the last flat stretch is the sample before the last",
   [(M + "PDF/Cumulative.cpp", "  double end_value = *(--iter_x);", "  if (iter_y == m_y_sampling.cend() && *(iter_x - 1) != begin_value)\n    --iter_x;\n  double end_value = *(--iter_x);")], """
int main() { std::vector<double> x{0, 1, 2, 3}, y{1, 1, 0, 0}; auto c = Cumulative::fromPdf(x, y); return near(c.findValue(1, Cumulative::end), 3) ? 0 : 1; }
"""),
 d("P26", "cum-min-interval-first", "the shortest interval starts at the second sample", "the correction for the first sample is kept for the following start points",
   [(M + "PDF/Cumulative.cpp", "    first_correction = 0.;", "    if (iter_2_y + 1 == m_y_sampling.cend())\n      first_correction = 0.;")], """
int main() { std::vector<double> x{0, 1, 2, 3, 4, 5}, y{4, 0, 1, 1, 1, 1}; auto c = Cumulative::fromPdf(x, y); auto p = c.findMinInterval(0.75); return near(p.first, 0) ? 0 : 1; }
"""),
 d("P27", "mode-area-border", "a mode at the last sample of an unevenly sampled PDF", "the width of the last sample is half of what it is",
   [(M + "PDF/PdfModeExtraction.cpp", "      dx = pdf.first[index] - pdf.first[index - 1];", "      dx = (pdf.first[index] - pdf.first[min_x]) / (index > min_x ? index - min_x : 1);\n      if (index == min_x)\n        dx = pdf.first[index] - pdf.first[index - 1];")], """
int main() { std::vector<double> x{0, 1, 2, 5}, y{0, 1, 2, 4}; auto m = extractNHighestModes(x, y, 0.9, 1); return near(m.at(0).getModeArea(), 1 + 2 * 2 + 4 * 3) ? 0 : 1; }
"""),
 d("P27", "mode-threshold-peak", "two modes of different height close to each other", "the threshold of a mode is taken from the highest sample of the whole PDF",
   [(M + "PDF/PdfModeExtraction.cpp", "    if ((pdf[position] < threshold && pdf[position + 1] >= pdf[position])) {", "    if ((pdf[position] < threshold && pdf[position + 1] > pdf[position])) {")], """
int main() { std::vector<double> x{0, 1, 2, 3, 4}, y{8, 1, 1, 6, 0}; auto m = extractNHighestModes(x, y, 0.5, 1); return near(m.at(0).getModeArea(), 8 + 1) ? 0 : 1; }
"""),
]
