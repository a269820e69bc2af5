#ifndef VERIF_SHIM_ELEMENTS_REAL_H
#define VERIF_SHIM_ELEMENTS_REAL_H
#include <algorithm>
#include <cmath>
#include <limits>
namespace Elements {
inline bool isEqual(double a, double b) {
  if (a == b) return true;
  if (std::isinf(a) || std::isinf(b)) return false;
  return std::abs(a - b) <= 10 * std::numeric_limits<double>::epsilon() * std::max(std::abs(a), std::abs(b));
}
inline bool isNotEqual(double a, double b) { return !isEqual(a, b); }
}  // namespace Elements
#endif
