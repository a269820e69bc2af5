HB = "Histogram/Histogram/Binning/"
HH = """
#include "Histogram/Histogram.h"
#include "Histogram/Binning/EdgeVector.h"
#include "Histogram/Binning/Sqrt.h"
#include "Histogram/Binning/Scott.h"
#include <cmath>
#include <vector>
namespace Hi = Euclid::Histogram;
"""
SH = """
#include <cstddef>
#include <functional>
#include <vector>
#include <array>
#include <cmath>
#include "SOM/SOM.h"
#include "SOM/SOMTrainer.h"
#include "SOM/SamplingPolicy.h"
#include "SOM/NeighborhoodFunc.h"
#include "SOM/LearningRestraintFunc.h"
using namespace Euclid::SOM;
"""
SS = ["SOM/src/lib/" + f + ".cpp" for f in ("ImplTools", "InitFunc", "LearningRestraintFunc", "NeihbourhoodFunc")]
NH = """
#include "ElementsKernel/Exception.h"
#include "NdArray/NdArray.h"
#include "NdArray/io/Npy.h"
#include "NdArray/io/NpyMmap.h"
#include <sstream>
#include <fstream>
using namespace Euclid::NdArray;
"""
def d(pid, id, needs, breaks, edits, demo, srcs=[], flags="-include algorithm"):
    return dict(id=id, property=pid, needs=needs, breaks=breaks, edits=edits, srcs=srcs, demo=demo, flags=flags)
C = "NdArray/NdArray/io/_impl/NpyCommon.h"
SEEDS = [
 d("P28", "hist-edge-tolerance", "a value less than 1e-6 below an edge given by the user", "the value is counted in the bin above it",
   [(HB + "EdgeVector.h", "{ return edge > value; }", "{ return edge - value > 1e-6; }")], HH + """
int main() { std::vector<double> v{1.9999999}; Hi::Histogram<double> h(v.begin(), v.end(), Hi::Binning::EdgeVector<double>(std::vector<double>{0., 1., 2., 3.}));
  auto c = h.getCounts(); return c[1] == 1 && c[2] == 0 ? 0 : 1; }
"""),
 d("P28", "hist-sqrt-rounded", "a number of values whose square root is nearer to the integer below", "one bin less than the square root of the number of values, rounded up",
   [(HB + "Sqrt.h", "std::ceil(std::sqrt(end - begin))", "std::round(std::sqrt(end - begin))")], HH + """
int main() { std::vector<double> v{1, 2, 3, 4, 5, 6}; Hi::Histogram<double> a(v.begin(), v.end(), Hi::Binning::Sqrt<double>());
  std::vector<double> w{1, 2, 3, 4, 5}; Hi::Histogram<double> b(w.begin(), w.end(), Hi::Binning::Sqrt<double>());
  return a.size() == 3 && b.size() == 3 ? 0 : 1; }
"""),
 d("P28", "hist-bin-edges-scott", "the edges of one bin of a histogram with automatic binning of integers with more than one bin", "the upper edge of a bin is the last value inside of it",
   [(HB + "Scott.h", "    return std::make_pair(i * m_step + m_start, (i + 1) * m_step + m_start);", "    VarType low = i * m_step + m_start;\n    return std::make_pair(low, std::is_integral<VarType>::value && i + 1 < m_nbins ? low + m_step - 1 : low + m_step);")], HH + """
int main() { std::vector<int> v; for (int i = 0; i < 60; ++i) v.push_back((i * 37) % 101); Hi::Histogram<int> h(v.begin(), v.end(), Hi::Binning::Scott<int>());
  auto e = h.getEdges(); if (h.size() < 2) return 2; for (size_t i = 0; i < h.size(); ++i) { auto p = h.getBinEdges(i); if (p.first != e[i] || p.second != e[i + 1]) return 1; } return 0; }
"""),
 d("P29", "som-jackknife-again", "a jackknife policy that is started a second time", "the sample of the first start is gone through again",
   [("SOM/SOM/SamplingPolicy.h", "    m_iter_list.clear();\n", "")], SH + """
int main() { std::vector<int> v{1, 2, 3, 4, 5, 6}; auto p = SamplingPolicy::jackknifeFactory(v.begin(), 2);
  for (int k = 0; k < 3; ++k) { int n = 0; for (auto i = p.start(v.begin(), v.end()); i != v.end(); i = p.next(i)) ++n; if (n != 2) return 1; } return 0; }
""", SS),
 d("P29", "som-kohonen-total", "the same neighbourhood function used for trainings of different length, or at the same iteration of both", "the sigma of the earlier training is used",
   [("SOM/src/lib/NeihbourhoodFunc.cpp", "sigma_buffer{0, 0, 0.};", "sigma_buffer{std::size_t(-1), 0, 0.};"),
    ("SOM/src/lib/NeihbourhoodFunc.cpp", "if (std::get<0>(sigma_buffer) != iteration || std::get<1>(sigma_buffer) != total_iterations) {", "if (std::get<0>(sigma_buffer) != iteration) {")], SH + """
int main() { auto f = NeighborhoodFunc::kohonen(6, 6, 5.), g = NeighborhoodFunc::kohonen(6, 6, 5.);
  f({1, 1}, {2, 2}, 3, 10); double a = f({1, 1}, {2, 2}, 3, 4), b = g({1, 1}, {2, 2}, 3, 4); return std::abs(a - b) < 1e-12 ? 0 : 1; }
""", SS),
 d("P29", "som-zero-rate-stops", "a learning rate that is zero in an iteration and not in a later one", "the training ends at the first iteration without learning",
   [("SOM/SOM/SOMTrainer.h", "        continue;", "        break;")], SH + """
int main() { Euclid::SOM::SOM<1> s(1, 1); std::vector<double> v{8.};
  SOMTrainer t([](std::pair<std::size_t, std::size_t>, std::pair<std::size_t, std::size_t>, std::size_t, std::size_t) { return 1.; }, [](std::size_t i, std::size_t) { return i == 0 ? 0. : .5; });
  t.train(s, 2, v.begin(), v.end(), [](double x) { return std::array<double, 1>{{x}}; }); return (*s.begin())[0] == 4. ? 0 : 1; }
""", SS),
 d("P29", "som-fits-type", "a map stored as FITS whose metric has a name that starts like that of the type it is read as", "maps with another metric are accepted when its name is a prefix",
   [("SOM/SOM/serialize.h", "  fits.pHDU().readKey(\"DISTFUNC\", dist_func_type);\n  if (dist_func_type != typeid(DistFunc).name()) {",
     "  fits.pHDU().readKey(\"DISTFUNC\", dist_func_type);\n  if (dist_func_type.compare(0, 2, typeid(DistFunc).name(), 2) != 0) {")], SH + """
#include "SOM/serialize.h"
int main() { Euclid::SOM::SOM<2, Distance::L2<2>> s(2, 3); somFitsExport("x", s); somFitsImport<2, Distance::L2<2>>("x");
  struct M1 : Distance::L2<2> {}; struct M2 : Distance::L2<2> {};
  Euclid::SOM::SOM<2, M1> t(2, 3); somFitsExport("y", t); try { somFitsImport<2, M2>("y"); return 1; } catch (...) { return 0; } }
""", SS),
 d("P09", "npy-mixed-types", "a file with named fields of different types and the same byte order", "fields of different types are read as if all were of the first one",
   [(C, "} else if (dtype != dtype_aux || big_endian != endian_aux) {", "} else if (dtype != dtype_aux && big_endian != endian_aux) {")], NH + """
int main() { std::string h = "{'descr': [('a', '<i4'), ('b', '<f4')], 'fortran_order': False, 'shape': (1,), }"; h.resize(117, ' '); h += char(10);
  std::string f = std::string("\\x93NUMPY\\x01", 7) + std::string(1, 0) + std::string(1, char(h.size())) + std::string(1, 0) + h + std::string(8, 'x');
  std::stringstream s(f); try { readNpy<int32_t>(s); return 1; } catch (const std::exception&) { return 0; } }
"""),
 d("P09", "npy-signed-header", "a version 1 file with a header longer than 32767 bytes", "the length of the header is read as signed, so that the file is rejected",
   [(C, "    little_uint16_t aux;", "    boost::endian::little_int16_t aux;")], NH + """
int main() { std::string h = "{'descr': '<i4', 'fortran_order': False, 'shape': (2,), }"; h.resize(40000 - 10 - 1, ' '); h += char(10);
  std::string f = std::string("\\x93NUMPY\\x01", 7) + std::string(1, 0) + std::string(1, char(h.size() & 255)) + std::string(1, char(h.size() >> 8)) + h + std::string(8, 'x');
  std::stringstream s(f); try { auto a = readNpy<int32_t>(s); return a.size() == 2 ? 0 : 1; } catch (const std::exception&) { return 1; } }
"""),
 d("P09", "npy-resize-max", "concatenating to a mapped array to a size within the header size above the reserved maximum", "the maximum size does not count the header, so that the array goes beyond the mapping",
   [(C, "    if (new_size > m_max_size) {", "    if (new_size - header_size > m_max_size) {")], NH + """
#include <unistd.h>
int main() { NdArray<double> a({4}); for (int i = 0; i < 4; ++i) a.at(i) = i; writeNpy(boost::filesystem::path("f.npy"), a);
  auto m = mmapNpy<double>("f.npy", boost::iostreams::mapped_file_base::readwrite, 4096);
  NdArray<double> b({505}); try { m.concatenate(b); _exit(1); } catch (const std::exception&) { _exit(0); } }
"""),
]
