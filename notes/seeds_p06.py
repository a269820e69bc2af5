def d(pid, id, needs, breaks, edits, demo, srcs=[], flags=""):
    return dict(id=id, property=pid, needs=needs, breaks=breaks, edits=edits, srcs=srcs, demo=demo, flags=flags)
N = "NdArray/NdArray/NdArray.h"
H = "#include <string>\n#include <vector>\n#include <map>\n#include <set>\n#include <thread>\n#include <mutex>\n#include <algorithm>\n"
SEEDS = [
 d("P06", "nd-assign-keeps-attrs", "assigning an array without attribute names to one that has them", "the target keeps its old attribute names, with the shape of the source",
   [(N, "  NdArray& operator=(const NdArray&) = default;", """  NdArray& operator=(const NdArray& other) {
    m_offset      = other.m_offset;
    m_shape       = other.m_shape;
    m_stride_size = other.m_stride_size;
    m_size        = other.m_size;
    m_container   = other.m_container;
    if (!other.m_attr_names.empty()) {
      m_attr_names = other.m_attr_names;
    }
    return *this;
  }""")], H + """
#include "NdArray/NdArray.h"
using Euclid::NdArray::NdArray;
int main() { std::vector<std::string> n{"a", "b"}; NdArray<int> x({3}, n), y(std::vector<size_t>{4, 2}); x = y; return x.attributes().empty() ? 0 : 1; }
"""),
 d("P06", "nd-copy-single-shares", "copying an array, or a slice, of one single element", "the copy shares its element with the original",
   [(N, "    return self_type{this};", "    return m_size == 1 ? *this : self_type{this};")], H + """
#include "NdArray/NdArray.h"
using Euclid::NdArray::NdArray;
int main() { NdArray<int> x({1, 1}, std::vector<int>{7}); auto y = x.copy(); y.at(0, 0) = 9; return x.at(0, 0) == 7 ? 0 : 1; }
"""),
 d("P08", "nd-resize-pointer-shrink", "concatenating onto an array whose container was moved by the resize", "the data pointer is refreshed only when the capacity guess says so",
   [(N, "      resizeImpl<T>(shape);\n      m_data_ptr = m_container.data();", "      auto old_size = m_container.size();\n      resizeImpl<T>(shape);\n      if (m_container.size() > 2 * old_size || old_size < 64) {\n        m_data_ptr = m_container.data();\n      }")], H + """
#include "NdArray/NdArray.h"
using Euclid::NdArray::NdArray;
int main() {
  std::vector<int> d(100), e(10); for (int i = 0; i < 100; ++i) d[i] = i;
  NdArray<int> x({100}, d), y({10}, e); auto before = x.copy(); x.concatenate(y);
  NdArray<int> spare({100}, std::vector<int>(100, -1)); 
  for (int i = 0; i < 100; ++i) if (x.at(i) != i) return 1;
  std::vector<std::vector<int>> junk; for (int k = 0; k < 50; ++k) junk.emplace_back(100, -5);
  for (int i = 0; i < 100; ++i) if (x.at(i) != i) return 1;
  return 0; }
""", flags="-fsanitize=address"),
 d("P10", "kd-coord-float", "a query point whose coordinates do not fit a float", "the query point moves",
   [("KdTree/KdTree/KdTree.h", "    double coord[N];", "    float coord[N];")], H + """
#include <array>
#include "KdTree/KdTree.h"
struct Pt { double c[2]; };
namespace KdTree { template <> struct KdTreeTraits<Pt> { static double getCoord(const Pt& t, size_t i) { return t.c[i]; } }; }
int main() { std::vector<Pt> v{{{16777217, 1}}}; ::KdTree::KdTree<Pt> t(v); ::KdTree::KdTree<Pt>::Coord q; q.coord[0] = 16777217; q.coord[1] = 1;
  return t.findPointsWithinRadius(q, 0.5).size() == 1 ? 0 : 1; }
"""),
 d("P15", "wildcard-ignores-case", "two options that differ in case only", "the instances of the other option are found too",
   [("Configuration/src/lib/ProgramOptionsHelper.cpp", "boost::starts_with(pair.first, prefix)", "boost::istarts_with(pair.first, prefix)")], H + """
#include <boost/program_options.hpp>
#include "Configuration/ProgramOptionsHelper.h"
int main() { std::map<std::string, boost::program_options::variable_value> o; o["grid-A"]; o["Grid-B"];
  return Euclid::Configuration::ProgramOptionsHelper::findWildcardNames({"grid"}, o) == std::set<std::string>{"A"} ? 0 : 1; }
""", srcs=["Configuration/src/lib/ProgramOptionsHelper.cpp"]),
 d("P15", "wildcard-first-dash", "an option name that contains a dash", "the instance name starts at the first dash",
   [("Configuration/src/lib/ProgramOptionsHelper.cpp", "result.insert(pair.first.substr(prefix.size()))", "result.insert(pair.first.substr(pair.first.find('-', prefix.find('-')) + 1))")], H + """
#include <boost/program_options.hpp>
#include "Configuration/ProgramOptionsHelper.h"
int main() { std::map<std::string, boost::program_options::variable_value> o; o["sed-grid-A"];
  return Euclid::Configuration::ProgramOptionsHelper::findWildcardNames({"sed-grid"}, o) == std::set<std::string>{"A"} ? 0 : 1; }
""", srcs=["Configuration/src/lib/ProgramOptionsHelper.cpp"]),
 d("P15", "manager-id-race", "two threads that ask for an id in the same microsecond", "both get the same id",
   [("Configuration/src/lib/Utils.cpp", "    id = std::max(now, last + 1);\n  }", "    id = std::max(id, last);\n  }")], H + """
#include "Configuration/Utils.h"
int main() {
  for (int k = 0; k < 20; ++k) { std::vector<std::vector<long>> r(8); std::vector<std::thread> t;
    for (auto& v : r) t.emplace_back([&v] { for (int i = 0; i < 50000; ++i) v.push_back(Euclid::Configuration::getUniqueManagerId()); });
    for (auto& x : t) x.join();
    std::set<long> s; size_t n = 0; for (auto& v : r) for (auto x : v) { s.insert(x); ++n; }
    if (s.size() != n) return 1; }
  return 0; }
""", srcs=["Configuration/src/lib/Utils.cpp"]),
]
