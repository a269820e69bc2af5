#ifndef VERIF_SHIM_ELEMENTS_LOGGING_H
#define VERIF_SHIM_ELEMENTS_LOGGING_H
#include <sstream>
#include <string>
namespace Elements {
class Logging {
  struct Sink {
    template <typename T>
    Sink& operator<<(const T&) { return *this; }
    Sink& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
  };

public:
  static Logging getLogger(const std::string& = "") { return Logging(); }
  Sink debug() const { return {}; }
  Sink info() const { return {}; }
  Sink warn() const { return {}; }
  Sink error() const { return {}; }
  Sink fatal() const { return {}; }
  void debug(const std::string&) const {}
  void info(const std::string&) const {}
  void warn(const std::string&) const {}
  void error(const std::string&) const {}
  void fatal(const std::string&) const {}
};
}  // namespace Elements
#endif
