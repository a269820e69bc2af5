G = "GridContainer/GridContainer/"
H = """
#include "ElementsKernel/Exception.h"
#include "GridContainer/GridContainer.h"
#include "GridContainer/serialize.h"
#include "XYDataset/QualifiedName.h"
#include "XYDataset/serialize.h"
#include <sstream>
using namespace Euclid::GridContainer;
using QN = Euclid::XYDataset::QualifiedName;
"""
def d(pid, id, needs, breaks, edits, demo, srcs=["XYDataset/src/lib/QualifiedName.cpp"]):
    return dict(id=id, property=pid, needs=needs, breaks=breaks, edits=edits, srcs=srcs, demo=H + demo)
SEEDS = [
 d("P11", "grid-factor-single-knot", "a grid with at least three axes where an inner axis has a single knot", "the step of the axis after an axis with one knot ignores the axes before it, so that cells coincide",
   [(G + "_impl/GridConstructionHelper.h", "    return std::get<I>(axes).size() * getAxisIndexFactor(axes, TemplateLoopCounter<I - 1>{});",
     "    size_t size = std::get<I>(axes).size();\n    size_t rest = getAxisIndexFactor(axes, TemplateLoopCounter<I - 1>{});\n    return size == 1 && I > 1 ? rest / std::get<(I > 0 ? I - 1 : 0)>(axes).size() : size * rest;")], """
int main() { GridContainer<std::vector<int>, int, int, int, int> g(GridAxis<int>("a", {1, 2}), GridAxis<int>("b", {1, 2, 3}), GridAxis<int>("c", {1}), GridAxis<int>("d", {1, 2}));
  return g.size() == 12 ? 0 : 1; }
"""),
 d("P12", "grid-slice-knot", "a slice of an axis by index on an axis whose knots are not sorted", "the knot of a fixed axis is looked up by the order of its value",
   [(G + "_impl/GridConstructionHelper.h", "new_axis{old_axis.name(), {old_axis[index]}};", "new_axis{old_axis.name(), {*std::lower_bound(old_axis.begin(), old_axis.end(), old_axis[index])}};"),
    (G + "_impl/GridConstructionHelper.h", "#include <map>", "#include <algorithm>\n#include <map>")], """
int main() { GridContainer<std::vector<int>, int, int> g(GridAxis<int>("a", {3, 9, 5}), GridAxis<int>("b", {1, 2}));
  auto s = g.fixAxisByIndex<0>(2); return s.getAxis<0>()[0] == 5 ? 0 : 1; }
"""),
 d("P12", "grid-slice-iter-fixed", "iterating a slice with two or more fixed axes", "only the first fixed axis of a slice restricts its iterators when the other one is fixed to its last-but-one position or later",
   [(G + "_impl/GridConstructionHelper.h", "    if (fix_pair != fix_indices.end()) {", "    if (fix_pair != fix_indices.end() && (fix_indices.begin() == fix_pair || fix_pair->second < 3)) {")], """
int main() { GridContainer<std::vector<int>, int, int> g(GridAxis<int>("a", {1, 2, 3, 4}), GridAxis<int>("b", {1, 2, 3, 4, 5}));
  int n = 0; for (auto& x : g) x = n++;
  auto s = g.fixAxisByIndex<0>(1); auto t = s.fixAxisByIndex<1>(4);
  int c = 0, last = -1; for (auto i = t.begin(); i != t.end() && c < 100; ++i) { ++c; last = *i; }
  return c == 1 && last == 17 ? 0 : 1; }
"""),
 d("P13", "grid-cell-pointer", "cells without default constructor, of a grid with more than one cell", "the cells that need construction are all read into the first cell",
   [(G + "serialization/GridContainer.h", "    cell = *deleter;", "    *grid.begin() = cell = *deleter;")], """
struct ND { int v; explicit ND(int x) : v(x) {} };
struct MgrN { typedef ND data_type; typedef std::vector<ND>::iterator iterator; std::vector<ND> d; explicit MgrN(size_t n) : d(n, ND(0)) {}
  size_t size() const { return d.size(); } iterator begin() { return d.begin(); } iterator end() { return d.end(); } ND& operator[](size_t i) { return d[i]; } };
namespace Euclid { namespace GridContainer {
template <> struct GridCellManagerTraits<MgrN> { typedef ND data_type; typedef std::vector<ND>::iterator iterator;
  static std::unique_ptr<MgrN> factory(size_t n) { return std::unique_ptr<MgrN>(new MgrN(n)); } static size_t size(const MgrN& m) { return m.size(); }
  static iterator begin(MgrN& m) { return m.begin(); } static iterator end(MgrN& m) { return m.end(); } static const bool enable_boost_serialize = true; };
} }
namespace boost { namespace serialization {
template <typename A> void serialize(A&, ND&, const unsigned int) {}
template <typename A> void save_construct_data(A& ar, const ND* t, const unsigned int) { int v = t->v; ar << v; }
template <typename A> void load_construct_data(A& ar, ND* t, const unsigned int) { int v; ar >> v; ::new (t) ND(v); }
} }
int main() { using Gr = GridContainer<MgrN, int>; Gr g(GridAxis<int>("a", {1, 2})); g(0) = ND(5); g(1) = ND(7);
  std::stringstream s; gridBinaryExport(s, g); auto r = gridBinaryImport<Gr>(s); return r(0).v == 5 && r(1).v == 7 ? 0 : 1; }
"""),
 d("P13", "grid-name-groups", "an axis of qualified names with more than one group", "only the innermost group of a qualified name is stored",
   [("XYDataset/XYDataset/serialize.h", "  std::vector<std::string> groups = t->groups();", "  std::vector<std::string> groups{t->groups().end() - (t->groups().empty() ? 0 : 1), t->groups().end()};")], """
int main() { GridContainer<std::vector<int>, QN> g(GridAxis<QN>("a", {QN{"a/b/c"}, QN{"d"}}));
  std::stringstream s; gridBinaryExport(s, g); auto r = gridBinaryImport<GridContainer<std::vector<int>, QN>>(s); return r.getAxis<0>()[0].qualifiedName() == "a/b/c" ? 0 : 1; }
"""),
]
