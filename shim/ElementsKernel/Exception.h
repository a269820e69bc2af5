// Minimal stand-in for Elements' ElementsKernel/Exception.h (Elements is not installed here).
#ifndef VERIF_SHIM_ELEMENTS_EXCEPTION_H
#define VERIF_SHIM_ELEMENTS_EXCEPTION_H
#include <exception>
#include <sstream>
#include <string>
#include <utility>
namespace Elements {
class Exception : public std::exception {
public:
  Exception() = default;
  explicit Exception(const std::string& msg) : m_msg(msg) {}
  explicit Exception(const char* msg) : m_msg(msg) {}
  template <typename... A>
  explicit Exception(const char* msg, const A&...) : m_msg(msg) {}
  template <typename... A>
  explicit Exception(const std::string& msg, const A&...) : m_msg(msg) {}
  virtual ~Exception() = default;
  const char* what() const noexcept override { return m_msg.c_str(); }
  int         exitCode() const noexcept { return 1; }
  void        appendMessage(const std::string& m) { m_msg += m; }

protected:
  std::string m_msg;
};
template <typename E, typename T>
auto operator<<(E&& e, const T& v) -> typename std::enable_if<
    std::is_base_of<Exception, typename std::remove_reference<E>::type>::value, E&&>::type {
  std::stringstream s;
  s << v;
  e.appendMessage(s.str());
  return std::forward<E>(e);
}
}  // namespace Elements
#endif
