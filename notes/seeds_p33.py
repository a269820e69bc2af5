def d(pid, id, needs, breaks, edits, demo, srcs=[], flags=""):
    return dict(id=id, property=pid, needs=needs, breaks=breaks, edits=edits, srcs=srcs, demo=demo, flags=flags)
H = "#include <algorithm>\n#include <string>\n#include <tuple>\n#include <utility>\n#include <vector>\n#include <functional>\n"
SU = "AlexandriaKernel/AlexandriaKernel/StringUtils.h"
SEEDS = [
 d("P33", "tovector-leading-blank", "a list that begins with a blank", "such a list of numbers is rejected",
   [(SU, "  boost::trim(str);", "  boost::trim_right(str);")], H + """
#include "AlexandriaKernel/StringUtils.h"
int main() { try { auto v = Euclid::stringToVector<int>(" 1, 2"); return v == std::vector<int>{1, 2} ? 0 : 1; } catch (...) { return 1; } }
"""),
 d("P33", "tovector-trailing-separators", "other separators than the default ones, one of them at the end of an element that is followed by two others", "separators that follow a different separator leave an empty element",
   [(SU, "boost::is_any_of(separators), boost::token_compress_on)", "boost::is_any_of(separators), separators.size() > 2 ? boost::token_compress_off : boost::token_compress_on)")], H + """
#include "AlexandriaKernel/StringUtils.h"
int main() { auto v = Euclid::stringToVector<std::string>("a;|b:c", ";:|"); return v == std::vector<std::string>{"a", "b", "c"} ? 0 : 1; }
"""),
 d("P33", "tuple-tail-moves-lvalue", "the tail of a tuple that is used afterwards", "taking the tail empties the tuple",
   [("AlexandriaKernel/AlexandriaKernel/Tuples.h", "    return std::tuple<Tn...>{std::get<1 + Is>(knots)...};", "    return std::tuple<Tn...>{std::move(std::get<1 + Is>(const_cast<std::tuple<T0, Tn...>&>(knots)))...};")], H + """
#include "AlexandriaKernel/Tuples.h"
int main() { const std::tuple<int, std::string> t(1, "a text longer than the small buffer"); auto r = Euclid::Tuple::Tail(t); return std::get<1>(t).size() == std::get<0>(r).size() ? 0 : 1; }
"""),
]
