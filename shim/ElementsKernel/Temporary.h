#ifndef VERIF_SHIM_ELEMENTS_TEMPORARY_H
#define VERIF_SHIM_ELEMENTS_TEMPORARY_H
#include <boost/filesystem.hpp>
namespace Elements {
class TempPath {
public:
  TempPath() : m_p(boost::filesystem::temp_directory_path() / boost::filesystem::unique_path()) {}
  ~TempPath() { boost::system::error_code ec; boost::filesystem::remove_all(m_p, ec); }
  boost::filesystem::path path() const { return m_p; }
protected:
  boost::filesystem::path m_p;
};
using TempFile = TempPath;
class TempDir : public TempPath { public: TempDir() { boost::filesystem::create_directory(m_p); } };
}
#endif
