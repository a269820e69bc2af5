
X = "XYDataset/src/lib/"
XS = [X + f + ".cpp" for f in ("AsciiParser", "CachedProvider", "FileSystemProvider", "QualifiedName", "StringFunctions", "XYDataset")]
TS = ["Table/src/lib/" + f + ".cpp" for f in ("AsciiReader", "AsciiReaderHelper", "ColumnInfo", "Row", "Table", "ReaderHelper", "ColumnDescription")]
H = """
#include <boost/filesystem.hpp>
#include <fstream>
#include <memory>
#include "XYDataset/AsciiParser.h"
#include "XYDataset/CachedProvider.h"
#include "XYDataset/FileSystemProvider.h"
#include "XYDataset/QualifiedName.h"
using namespace Euclid::XYDataset;
static void put(const char* f, const char* t) { boost::filesystem::create_directories(boost::filesystem::path(f).parent_path()); std::ofstream(f) << t; }
"""
SEEDS = [
  dict(id="xy-list-prefix", property="P22", needs="two groups of which one's name starts with the other's", breaks="listing a group also returns the datasets of groups whose name merely starts with it",
       edits=[(X + "FileSystemProvider.cpp", "    my_group.push_back('/');\n", "    my_group = my_group.substr(0, my_group.size());\n")],
       srcs=XS + TS, flags="-include boost/io/quoted.hpp", demo=H + """
int main() { put("r/A/a.dat", "1 2\\n"); put("r/AB/b.dat", "1 2\\n");
  FileSystemProvider p("r", std::unique_ptr<FileParser>(new AsciiParser()));
  return p.listContents("A").size() == 1 ? 0 : 1; }
"""),
  dict(id="xy-param-last", property="P22", needs="a file giving the same parameter more than once", breaks="only the last value of a repeated parameter is returned",
       edits=[(X + "AsciiParser.cpp", "      value += new_val;", "      value = new_val;")],
       srcs=XS + TS, flags="-include boost/io/quoted.hpp", demo=H + """
int main() { put("r/a.dat", "# U : x\\n# U : y\\n1 2\\n"); return AsciiParser().getParameter("r/a.dat", "U") == "x;y" ? 0 : 1; }
"""),
  dict(id="xy-group-prefix", property="P23", needs="a group with sub-groups compared to a name in a different group of the same depth", breaks="belongsInGroup ignores the outer groups",
       edits=[(X + "QualifiedName.cpp", "  bool group_check = std::equal(group.m_groups.begin(), group.m_groups.end(), this->m_groups.begin());", "  bool group_check = group.m_groups.empty() || group.m_groups.back() == this->m_groups[group.m_groups.size() - 1];")],
       srcs=[X + "QualifiedName.cpp"], demo=H + """
int main() { return QualifiedName("x/b/c/d").belongsInGroup(QualifiedName("a/b/c")) ? 1 : 0; }
"""),
  dict(id="xy-cache-null", property="P23", needs="a dataset that does not exist asked for twice", breaks="the absence of a dataset is not cached: the wrapped provider is asked every time",
       edits=[(X + "CachedProvider.cpp", "  auto i = m_dataset.find(qualified_name);\n  if (i == m_dataset.end()) {", "  auto i = m_dataset.find(qualified_name);\n  if (i == m_dataset.end() || !i->second) {")],
       srcs=XS + TS, flags="-include boost/io/quoted.hpp", demo=H + """
struct Spy : XYDatasetProvider { int n = 0;
  std::vector<QualifiedName> listContents(const std::string&) override { return {}; }
  std::unique_ptr<Euclid::XYDataset::XYDataset> getDataset(const QualifiedName&) override { ++n; return nullptr; }
  std::string getParameter(const QualifiedName&, const std::string&) override { return ""; } };
int main() { auto s = std::make_shared<Spy>(); CachedProvider c(s); c.getDataset(QualifiedName("a/b")); c.getDataset(QualifiedName("a/b")); return s->n == 1 ? 0 : 1; }
"""),
]
