def d(pid, id, needs, breaks, edits, demo, srcs=[], flags="-include boost/io/quoted.hpp"):
    return dict(id=id, property=pid, needs=needs, breaks=breaks, edits=edits, srcs=srcs, demo=demo, flags=flags)
T = "Table/src/lib/"
import glob, os
TS = [T + os.path.basename(f) for f in sorted(glob.glob("/repo/Table/src/lib/*.cpp"))] + ["NdArray/src/Operations.cpp"]
TS = [f for f in TS if os.path.exists("/repo/" + f)]
FH = """
#include <CCfits/CCfits>
#include "ElementsKernel/Exception.h"
#include "Table/Table.h"
#include "Table/FitsReader.h"
#include "Table/FitsWriter.h"
#include <iostream>
using namespace Euclid::Table;
using ND = Euclid::NdArray::NdArray<double>;
template <typename V> Table one(const std::string& n, std::vector<V> vs) {
  auto i = std::make_shared<ColumnInfo>(std::vector<ColumnInfo::info_type>{ColumnInfo::info_type(n, typeid(V))});
  std::vector<Row> r; for (auto& v : vs) r.push_back(Row({v}, i)); return Table(r); }
"""
SEEDS = [
 d("P30", "fits-hdu-index-last", "extending a table that is not in the last HDU of the file", "the rows are written to the last HDU instead",
   [(T + "FitsWriter.cpp", "  m_hdu_index    = table_hdu->index();", "  m_hdu_index    = static_cast<int>(fits->extension().size());")], FH + """
int main() { { FitsWriter w("x", true); w.setHduName("A"); w.addData(one<int32_t>("c", {1})); } { FitsWriter w("x"); w.setHduName("B"); w.addData(one<int32_t>("c", {2})); }
  { FitsWriter w("x"); w.setHduName("A"); w.addData(one<int32_t>("c", {3})); } return FitsReader("x", "A").read().size() == 2 && FitsReader("x", "B").read().size() == 1 ? 0 : 1; }
""", TS),
 d("P30", "fits-tdim-unit-axis", "arrays with an axis of size one that is not the first", "the axis is lost when the table is read back",
   [(T + "FitsWriterHelper.cpp", "    stream << shape[j] << \",\";", "    if (shape[j] > 1) {\n      stream << shape[j] << \",\";\n    }")], FH + """
int main() { { FitsWriter w("x", true); w.setHduName("A"); ND a({2, 1, 2}); for (int i = 0; i < 4; ++i) *(a.begin() + i) = i; w.addData(one<ND>("c", {a})); }
  auto t = FitsReader("x", "A").read(); return boost::get<ND>(t[0][0]).shape() == std::vector<size_t>{2, 1, 2} ? 0 : 1; }
""", TS),
 d("P30", "fits-ndarray-shape-mixed", "a table with arrays of the same size and different shapes", "the table is written and the arrays take the shape of the first one",
   [(T + "FitsWriterHelper.cpp", "    if (boost::get<NdArray<T>>(row[column_index]).shape() != shape) {", "    if (boost::get<NdArray<T>>(row[column_index]).size() != size) {")], FH + """
int main() { FitsWriter w("x", true); w.setHduName("A"); try { w.addData(one<ND>("c", {ND({2, 3}), ND({3, 2})})); return 1; } catch (const Elements::Exception&) { return 0; } }
""", TS),
 d("P30", "fits-desc-carried", "a table of other origin where only some columns have a description", "columns without description take that of the one before",
   [(T + "FitsReaderHelper.cpp", "  std::vector<std::string> descriptions{};\n  for (int i = 1; i <= table_hdu.numCols(); ++i) {\n    std::string desc;\n", "  std::vector<std::string> descriptions{};\n  std::string              desc;\n  for (int i = 1; i <= table_hdu.numCols(); ++i) {\n")], FH + """
int main() { { CCfits::FITS f("x", CCfits::Write); auto* t = f.addTable("A", 0, {"a", "b"}, {"J", "J"}, {"", ""}, CCfits::BinaryTbl); t->addKey("TDESC1", std::string("what"), ""); }
  FitsReader r("x", "A"); return r.getInfo().getDescription(1).description == "" && r.getInfo().getDescription(0).description == "what" ? 0 : 1; }
""", TS),
 d("P30", "fits-vector-k-width", "a binary table with a repeat count of one and a text before", "the width of a text column is that of its last row",
   [(T + "FitsWriterHelper.cpp", "size_t maxWidth(const Table& table, size_t column_index) {\n  size_t width = 0;\n  for (const auto& row : table) {\n    width = std::max(width, boost::lexical_cast<std::string>(row[column_index]).size());",
     "size_t maxWidth(const Table& table, size_t column_index) {\n  size_t width = 0;\n  for (const auto& row : table) {\n    width = boost::lexical_cast<std::string>(row[column_index]).size();")], FH + """
int main() { { FitsWriter w("x", true); w.setHduName("A"); w.addData(one<std::string>("c", {"abcd", "x"})); } auto t = FitsReader("x", "A").read(); return boost::get<std::string>(t[0][0]) == "abcd" ? 0 : 1; }
""", TS),
 d("P30", "fits-fix-names-late", "fixing column names after only rows were skipped or counted", "the names may be changed after the reading has started",
   [(T + "FitsReader.cpp", "  m_reading_started = true;\n\n  try {\n    ELEMENTS_UNUSED auto& temp = dynamic_cast<const CCfits::Table&>(m_hdu.get());", "  try {\n    ELEMENTS_UNUSED auto& temp = dynamic_cast<const CCfits::Table&>(m_hdu.get());"),
    (T + "FitsReader.cpp", "  m_current_row += rows;\n", "  m_current_row += rows;\n  m_reading_started = true;\n")], FH + """
int main() { { FitsWriter w("x", true); w.setHduName("A"); w.addData(one<int32_t>("c", {1, 2})); } FitsReader r("x", "A"); r.skip(1); try { r.fixColumnNames({"d"}); return 1; } catch (const Elements::Exception&) { return 0; } }
""", TS),
]
