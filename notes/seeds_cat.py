C = "SourceCatalog/src/lib/"
CS = [C + f + ".cpp" for f in ("Catalog", "CatalogFromTable", "Photometry", "FluxErrorPair", "PhotometryAttributeFromRow", "TableRowAttribute", "TableRowAttributeFromRow")]
TS = ["Table/src/lib/" + f + ".cpp" for f in ("ColumnInfo", "Row", "Table", "ColumnDescription")]
H = """
#include "ElementsKernel/Exception.h"
#include "SourceCatalog/CatalogFromTable.h"
#include "SourceCatalog/PhotometryParsingException.h"
#include "SourceCatalog/SourceAttributes/PhotometryAttributeFromRow.h"
#include "SourceCatalog/SourceAttributes/SpectroscopicRedshiftAttributeFromRow.h"
#include "Table/Table.h"
#include <cmath>
using namespace Euclid::SourceCatalog;
namespace ET = Euclid::Table;
static std::unique_ptr<FluxErrorPair> phot(bool miss, double flag, bool up, double uflag, std::vector<double> v, std::vector<float> n = {3, 2}, std::vector<bool> mag = {false, false}) {
  auto f = std::make_shared<ET::ColumnInfo>(std::vector<ET::ColumnDescription>{{"f", typeid(double)}, {"e", typeid(double)}, {"f2", typeid(double)}, {"e2", typeid(double)}});
  PhotometryAttributeFromRow h(f, {{"V", {"f", "e"}}, {"B", {"f2", "e2"}}}, miss, flag, up, {{"V", n[0]}, {"B", n[1]}}, uflag, {{"V", mag[0]}, {"B", mag[1]}});
  auto a = h.createAttribute(ET::Row({v[0], v[1], v[2], v[3]}, f));
  return dynamic_cast<Photometry&>(*a).find("B");
}
"""
def d(pid, id, needs, breaks, edits, demo):
    return dict(id=id, property=pid, needs=needs, breaks=breaks, edits=edits, srcs=CS + TS, demo=H + demo)
SEEDS = [
 d("P21", "phot-threshold-first", "a flagged upper limit in a filter that follows one with missing photometry", "the thresholds get out of step with the filters after missing photometry",
   [(C + "PhotometryAttributeFromRow.cpp", "    photometry_vector.push_back(FluxErrorPair{flux, error, missing_data, upper_limit});\n    ++n_threshod_iter;", "    photometry_vector.push_back(FluxErrorPair{flux, error, missing_data, upper_limit});\n    if (!missing_data) ++n_threshod_iter;")], """
int main() { auto p = phot(true, -99, true, -99, {-99, 1, 8, -99}); return p->error == 4 && p->upper_limit_flag ? 0 : 1; }
"""),
 d("P21", "phot-mag-flag", "magnitudes, and an upper limit with the flag as error", "the flag is scaled with the flux when converting from magnitudes",
   [(C + "PhotometryAttributeFromRow.cpp", "    bool is_flag =  Elements::isEqual(mag_err, m_n_upper_limit_flag);", "    bool is_flag =  Elements::isEqual(mag_err, m_n_upper_limit_flag) && !m_upper_limit_enabled;")], """
int main() { auto p = phot(true, -99, true, -99, {1, 1, 20, -99}, {3, 2}, {false, true}); return std::abs(p->error * 2 / p->flux - 1) < 1e-6 ? 0 : 1; }
"""),
 d("P21", "phot-nan-only-flag", "a flux that is not a number with missing photometry enabled", "not-a-number fluxes are no longer taken as missing",
   [(C + "PhotometryAttributeFromRow.cpp", "      missing_data = Elements::isEqual(flux, m_missing_photometry_flag) || std::isnan(flux);", "      missing_data = Elements::isEqual(flux, m_missing_photometry_flag) || (std::isnan(flux) && std::isnan(error));")], """
int main() { auto p = phot(true, -99, false, -99, {1, 1, std::nan(""), 1}); return p->missing_photometry_flag ? 0 : 1; }
"""),
 d("P20", "cat-dup-last", "a table with the same id twice", "a repeated id replaces the earlier source in lookups instead of being rejected",
   [(C + "Catalog.cpp", "    if (!it.second) {", "    if (!it.second && it.first->second + 1 == index) {")], """
int main() { try { Catalog c({Source(Source::id_type(int64_t(1)), {}), Source(Source::id_type(int64_t(2)), {}), Source(Source::id_type(int64_t(1)), {})}); return 1; } catch (const Elements::Exception&) { return 0; } }
"""),
 d("P20", "cat-z-error", "a redshift whose error column comes before its value column", "value and error of the redshift are exchanged when the error column comes first",
   [("SourceCatalog/SourceCatalog/SourceAttributes/SpectroscopicRedshiftAttributeFromRow.h", "    m_error_column_index = *(specz_error_column_index_ptr);", "    m_error_column_index = std::max(*(specz_value_column_index_ptr), *(specz_error_column_index_ptr));")], """
int main() { auto f = std::make_shared<ET::ColumnInfo>(std::vector<ET::ColumnDescription>{{"e", typeid(double)}, {"z", typeid(double)}});
  SpectroscopicRedshiftAttributeFromRow h(f, "z", "e"); auto a = h.createAttribute(ET::Row({0.5, 2.0}, f));
  auto& z = dynamic_cast<SpectroscopicRedshift&>(*a); return z.getValue() == 2.0 && z.getError() == 0.5 ? 0 : 1; }
"""),
]
