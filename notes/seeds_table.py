T = "Table/src/lib/"
TS = [T + f + ".cpp" for f in ("AsciiReader", "AsciiReaderHelper", "AsciiWriter", "AsciiWriterHelper", "TableWriter", "ColumnInfo", "Row", "Table", "ReaderHelper", "ColumnDescription")]
FL = "-include boost/io/quoted.hpp"
H = """
#include <sstream>
#include <iostream>
#include "ElementsKernel/Exception.h"
#include "Table/AsciiReader.h"
#include "Table/AsciiWriter.h"
#include "Table/CastVisitor.h"
#include "Table/Table.h"
using namespace Euclid::Table;
namespace ET = Euclid::Table;
static std::shared_ptr<ColumnInfo> info(std::vector<ColumnDescription> v) { return std::make_shared<ColumnInfo>(v); }
"""
def d(pid, id, needs, breaks, edits, demo):
    return dict(id=id, property=pid, needs=needs, breaks=breaks, edits=edits, srcs=TS, flags=FL, demo=H + demo)
SEEDS = [
 d("P18", "tab-skip-indented", "skipping over a line that has only an indented comment", "such a line counts as a row when skipping",
   [(T + "AsciiReader.cpp", """void AsciiReader::skip(long rows) {
  readColumnInfo();
  auto& in = m_stream_holder->ref();

  while (in && rows != 0) {
    std::string line;
    getline(in, line);
    size_t comment_pos = line.find(m_comment);
    if (comment_pos != std::string::npos) {""", """void AsciiReader::skip(long rows) {
  readColumnInfo();
  auto& in = m_stream_holder->ref();

  while (in && rows != 0) {
    std::string line;
    getline(in, line);
    size_t comment_pos = line.find(m_comment);
    if (comment_pos == 0) {""")], """
int main() { std::stringstream s("1\\n  # note\\n2\\n3\\n"); AsciiReader r(s); r.skip(2); return r.rowsLeft() == 1 ? 0 : 1; }
"""),
 d("P18", "tab-left-blank", "a line of white space only among the rows", "rowsLeft counts lines of white space",
   [(T + "AsciiReaderHelper.cpp", "    boost::trim(line);\n    if (!line.empty()) {\n      ++count;\n    }", "    if (!line.empty()) {\n      ++count;\n    }")], """
int main() { std::stringstream s("1\\n  \\n2\\n"); AsciiReader r(s); return r.rowsLeft() == 2 ? 0 : 1; }
"""),
 d("P17", "tab-width-last", "a value of a later column that is longer in an earlier row than in the last one, and than the name", "columns are written without a separator",
   [(T + "AsciiWriterHelper.cpp", "      sizes[i] = std::max(sizes[i], boost::apply_visitor(ToStringVisitor{}, row[i]).size());",
     "      sizes[i] = std::max(quoted(column_info->getDescription(i).name).size(), boost::apply_visitor(ToStringVisitor{}, row[i]).size());")], """
int main() { auto f = info({{"a", typeid(int32_t)}, {"b", typeid(int32_t)}});
  std::stringstream s; { AsciiWriter w(s); w.addData(ET::Table({Row({1, 123456}, f), Row({2, 3}, f)})); }
  AsciiReader r(s); auto t = r.read(); return t.size() == 2 && boost::get<int32_t>(t[0][1]) == 123456 ? 0 : 1; }
"""),
 d("P17", "tab-quote-tab", "a text with a tab and no space", "text with tabs is written without quotes",
   [(T + "AsciiWriterHelper.cpp", '".*[\\\\s\\"].*"', '".*[ \\"].*"')], """
int main() { auto f = info({{"a", typeid(std::string)}, {"b", typeid(std::string)}});
  std::stringstream s; { AsciiWriter w(s); w.addData(ET::Table({Row({std::string("x"), std::string("y\\tz")}, f)})); }
  try { AsciiReader r(s); auto t = r.read(); return boost::get<std::string>(t[0][1]) == "y\\tz" ? 0 : 1; } catch (...) { return 1; } }
"""),
 d("P16", "tab-type-last", "a wrong type in the last of several cells", "the type of the last cell of a row is not checked",
   [(T + "Row.cpp", "  for (std::size_t i = 0; i < m_values.size(); ++i) {", "  for (std::size_t i = 0; i + 1 < m_values.size() || i == 0; ++i) {")], """
int main() { auto f = info({{"a", typeid(int32_t)}, {"b", typeid(int32_t)}});
  try { Row r({1, 2.5}, f); return 1; } catch (const Elements::Exception&) { return 0; } }
"""),
 d("P16", "tab-table-next", "a table whose last row has other columns than the first", "only neighbouring pairs of rows up to the last but one are compared",
   [("Table/src/lib/Table.cpp", "    if (*row.getColumnInfo() != *m_column_info) {", "    if (row.getColumnInfo()->size() != m_column_info->size()) {")], """
int main() { auto f = info({{"a", typeid(int32_t)}}), g = info({{"b", typeid(int32_t)}});
  try { ET::Table t({Row({1}, f), Row({2}, g)}); return 1; } catch (const Elements::Exception&) { return 0; } }
"""),
 d("P19", "cast-int-under", "the text of a number below the range of the type", "numbers below the range wrap around",
   [("Table/Table/CastVisitor.h", "    if (value > INT32_MAX || value < INT32_MIN) {", "    if (value > INT32_MAX) {")], """
int main() { ET::Row::cell_type c = std::string("-2147483649");
  try { boost::apply_visitor(CastVisitor<int32_t>{}, c); return 1; } catch (const Elements::Exception&) { return 0; } }
"""),
 d("P19", "cast-vec-long", "a vector of 64 bit integers cast to a vector of 32 bit integers", "64 bit integers are silently cut",
   [("Table/Table/CastVisitor.h", "    return (std::is_integral<From>::value && !std::is_same<From, int64_t>::value) ||", "    return std::is_integral<From>::value ||")], """
int main() { ET::Row::cell_type c = std::vector<int64_t>{1LL << 40};
  try { boost::apply_visitor(CastVisitor<std::vector<int32_t>>{}, c); return 1; } catch (const Elements::Exception&) { return 0; } }
"""),
]
