def d(pid, id, needs, breaks, edits, demo, srcs=[], flags="-include boost/io/quoted.hpp"):
    return dict(id=id, property=pid, needs=needs, breaks=breaks, edits=edits, srcs=srcs, demo=demo, flags=flags, shim=True)
C = "Configuration/src/lib/"
SRCS = ['Configuration/src/lib/CatalogConfig.cpp', 'Configuration/src/lib/ConfigManager.cpp', 'Configuration/src/lib/Configuration.cpp', 'Configuration/src/lib/PhotometricBandMappingConfig.cpp', 'Configuration/src/lib/PhotometryCatalogConfig.cpp', 'Configuration/src/lib/ProgramOptionsHelper.cpp', 'Configuration/src/lib/SpecZCatalogConfig.cpp', 'Configuration/src/lib/Utils.cpp', 'SourceCatalog/src/lib/Catalog.cpp', 'SourceCatalog/src/lib/CatalogFromTable.cpp', 'SourceCatalog/src/lib/FluxErrorPair.cpp', 'SourceCatalog/src/lib/Photometry.cpp', 'SourceCatalog/src/lib/PhotometryAttributeFromRow.cpp', 'SourceCatalog/src/lib/TableRowAttribute.cpp', 'SourceCatalog/src/lib/TableRowAttributeFromRow.cpp', 'Table/src/lib/AsciiReader.cpp', 'Table/src/lib/AsciiReaderHelper.cpp', 'Table/src/lib/AsciiWriter.cpp', 'Table/src/lib/AsciiWriterHelper.cpp', 'Table/src/lib/ColumnDescription.cpp', 'Table/src/lib/ColumnInfo.cpp', 'Table/src/lib/FitsReader.cpp', 'Table/src/lib/FitsReaderHelper.cpp', 'Table/src/lib/FitsWriter.cpp', 'Table/src/lib/FitsWriterHelper.cpp', 'Table/src/lib/ReaderHelper.cpp', 'Table/src/lib/Row.cpp', 'Table/src/lib/Table.cpp', 'Table/src/lib/TableWriter.cpp']
H = """
#include "Configuration/CatalogConfig.h"
#include "Configuration/ConfigManager.h"
#include "Configuration/PhotometricBandMappingConfig.h"
#include "Configuration/PhotometryCatalogConfig.h"
#include "Configuration/SpecZCatalogConfig.h"
#include "SourceCatalog/SourceAttributes/Photometry.h"
#include "SourceCatalog/SourceAttributes/SpectroscopicRedshift.h"
#include <fstream>
using namespace Euclid::Configuration;
using namespace Euclid::SourceCatalog;
namespace po = boost::program_options;
static void start(ConfigManager& m, const std::vector<std::string>& a) {
  auto d = m.closeRegistration();
  po::variables_map vm;
  po::store(po::command_line_parser(a).options(d).run(), vm);
  po::notify(vm);
  m.initialize(vm);
}
static void file(const char* n, const std::string& s) { std::ofstream f(n); f << s; }
"""
SEEDS = [
 d("P32", "speczconf-err-by-index", "the column of the redshift and the one of its error both given by index", "the error is taken from the redshift column",
   [(C + "SpecZCatalogConfig.cpp", """    std::size_t index = args.at(SPECZ_ERR_COLUMN_INDEX).as<int>();""", """    auto        given = args.find(SPECZ_COLUMN_INDEX) != args.end() ? args.find(SPECZ_COLUMN_INDEX) : args.find(SPECZ_ERR_COLUMN_INDEX);
    std::size_t index = given->second.as<int>();""")], H + """
int main() {
  file("c", "# ID Z E\\n1 0.5 0.25\\n"); 
  file("c", "# Column: ID long\\n# Column: Z double\\n# Column: E double\\n1 0.5 0.25\\n");
  auto& m = ConfigManager::getInstance(1);
  m.registerConfiguration<SpecZCatalogConfig>();
  start(m, {"--input-catalog-file=c", "--input-catalog-format=ASCII", "--spec-z-column-index=2", "--spec-z-err-column-index=3"});
  auto cat = m.getConfiguration<CatalogConfig>().readAsCatalog();
  auto z = cat.begin()->getAttribute<SpectroscopicRedshift>();
  return z->getValue() == 0.5 && z->getError() == 0.25 ? 0 : 1;
}
""", SRCS),
 d("P32", "bandconf-excluded-thresholds", "a filter excluded that is not the last of the mapping, with thresholds that differ", "the thresholds of the excluded filters stay in the list",
   [(C + "PhotometricBandMappingConfig.cpp", """  for (auto& pair : all_threshold_mapping) {
    if (exclude_filters.count(pair.first) == 0) {""", """  for (auto& pair : all_threshold_mapping) {
    if (exclude_filters.size() != 1 || exclude_filters.count(pair.first) == 0) {""")], H + """
int main() {
  file("c", "# Column: ID long\\n# Column: a double\\n# Column: b double\\n1 0.5 0.25\\n");
  file("filter_mapping.txt", "V a b 2\\nB a b 4\\nG a b 8\\n");
  auto& m = ConfigManager::getInstance(1);
  m.registerConfiguration<PhotometryCatalogConfig>();
  start(m, {"--input-catalog-file=c", "--input-catalog-format=ASCII", "--exclude-filter=V", "--exclude-filter=B"});
  auto& t = m.getConfiguration<PhotometricBandMappingConfig>().getUpperLimitThresholdMapping();
  return t.size() == 1 && t[0].first == "G" && t[0].second == 8 ? 0 : 1;
}
""", SRCS),
 d("P32", "bandconf-threshold-int", "a mapping with a threshold that is not an integer", "the thresholds are cut to integers",
   [(C + "PhotometricBandMappingConfig.cpp", "      float n = std::stof(match_res.str(4));", "      float n = std::stoi(match_res.str(4));")], H + """
int main() {
  file("filter_mapping.txt", "V a b 2.5\\n");
  auto& m = ConfigManager::getInstance(1);
  m.registerConfiguration<PhotometricBandMappingConfig>();
  start(m, {});
  return m.getConfiguration<PhotometricBandMappingConfig>().getUpperLimitThresholdMapping()[0].second == 2.5f ? 0 : 1;
}
""", SRCS),
 d("P32", "catconf-simple-anywhere", "an ASCII catalog with the FITS signature in a comment of its first line", "such a catalog is taken for a FITS file",
   [(C + "CatalogConfig.cpp", """first_header_str.compare(0, 9, "SIMPLE  =") == 0""", """first_header_str.find("SIMPLE  =") != std::string::npos""")], H + """
int main() {
  file("c", "# made from SIMPLE  =   T\\n# Column: ID long\\n# Column: a double\\n1 0.5\\n" + std::string(80, '#') + "\\n");
  auto& m = ConfigManager::getInstance(1);
  m.registerConfiguration<CatalogConfig>();
  try { start(m, {"--input-catalog-file=c"}); } catch (...) { return 1; }
  return m.getConfiguration<CatalogConfig>().readAsCatalog().size() == 1 ? 0 : 1;
}
""", SRCS),
 d("P32", "catconf-last-index", "the id column is the last one, given by index", "the index of the last column is refused",
   [(C + "CatalogConfig.cpp", "    if (index > column_info.size()) {", "    if (index >= column_info.size() && index > 1) {")], H + """
int main() {
  file("c", "# Column: a long\\n# Column: b long\\n1 5\\n");
  auto& m = ConfigManager::getInstance(1);
  m.registerConfiguration<CatalogConfig>();
  try { start(m, {"--input-catalog-file=c", "--input-catalog-format=ASCII", "--source-id-column-index=2"}); } catch (...) { return 1; }
  return m.getConfiguration<CatalogConfig>().getIdColumn() == "b" ? 0 : 1;
}
""", SRCS),
 d("P32", "photconf-threshold-flag-default", "upper limits enabled without the flag for the threshold", "the flag in use is the one of missing photometry",
   [(C + "PhotometryCatalogConfig.cpp", "    missing_photo_flag           = args.at(MISSING_PHOTOMETRY_FLAG).as<double>();", "    missing_photo_flag = args.at(MISSING_PHOTOMETRY_FLAG).as<double>();\n    if (args.find(UPPER_LIMIT_USE_THRESHOLD_FLAG) == args.end() || args.at(UPPER_LIMIT_USE_THRESHOLD_FLAG).defaulted()) {\n      upper_limit_threshold_flag = args.at(MISSING_PHOTOMETRY_FLAG).as<double>();\n    }")], H + """
int main() {
  file("c", "# Column: ID long\\n# Column: a double\\n# Column: b double\\n1 6 -99\\n");
  file("filter_mapping.txt", "V a b 2\\n");
  auto& m = ConfigManager::getInstance(1);
  m.registerConfiguration<PhotometryCatalogConfig>();
  start(m, {"--input-catalog-file=c", "--input-catalog-format=ASCII", "--enable-upper-limit=YES", "--missing-photometry-flag=-1"});
  auto cat = m.getConfiguration<CatalogConfig>().readAsCatalog();
  return cat.begin()->getAttribute<Photometry>()->find("V")->error == 3 ? 0 : 1;
}
""", SRCS),
]
