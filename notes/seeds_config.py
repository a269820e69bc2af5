
C = "Configuration/src/lib/"
CS = [C + f + ".cpp" for f in ("ConfigManager", "Configuration", "ProgramOptionsHelper", "Utils")]
H = """
#include "Configuration/ConfigManager.h"
#include "Configuration/Configuration.h"
#include "Configuration/ProgramOptionsHelper.h"
#include <vector>
using namespace Euclid::Configuration;
namespace po = boost::program_options;
static std::vector<char> calls;
#define CFG(X) struct X : Configuration { X(long i) : Configuration(i) {} void initialize(const UserValues&) override { calls.push_back(#X[0]); } };
CFG(A) CFG(B) CFG(D)
"""
SEEDS = [
  dict(id="cfg-dep-order", property="P14", needs="a dependency added with registerDependency whose configuration is initialised after the dependent one by default", breaks="the dependencies added with registerDependency between registered configurations are dropped for those that come later in the map",
       edits=[(C + "ConfigManager.cpp", "    m_dependency_map[pair.first].insert(pair.second->getDependencies().begin(), pair.second->getDependencies().end());", "    m_dependency_map[pair.first] = pair.second->getDependencies();")],
       srcs=CS, demo=H + """
int main() { auto& m = ConfigManager::getInstance(1); m.registerConfiguration<A>(); m.registerConfiguration<B>(); m.registerDependency<A, B>(); m.closeRegistration(); m.initialize({});
  return calls == std::vector<char>{'B', 'A'} ? 0 : 1; }
"""),
  dict(id="cfg-unreg-dep", property="P14", needs="an unregistered configuration among several dependencies added to one configuration", breaks="when one of several added dependencies is not registered the others are dropped too",
       edits=[(C + "ConfigManager.cpp", "    for (auto& to_remove : unregistered_values) {\n", "    for (auto& to_remove : unregistered_values) {\n      pair.second.erase(pair.second.begin(), pair.second.find(to_remove));\n")],
       srcs=CS, demo=H + """
int main() { auto& m = ConfigManager::getInstance(1); m.registerConfiguration<A>(); m.registerConfiguration<B>(); m.registerDependency<A, B>(); m.registerDependency<A, D>(); m.closeRegistration(); m.initialize({});
  return calls == std::vector<char>{'B', 'A'} ? 0 : 1; }
"""),
  dict(id="cfg-post-early", property="P14", needs="a postInitialize that looks at another configuration", breaks="a configuration is post-initialised before all the others are initialised",
       edits=[(C + "ConfigManager.cpp", "    recursiveInitialization(m_config_dictionary, m_dependency_map, user_values, pair.first);\n  }\n  for (auto& pair : m_config_dictionary) {\n", "    recursiveInitialization(m_config_dictionary, m_dependency_map, user_values, pair.first);\n")],
       srcs=CS, demo=H + """
struct P : Configuration { P(long i) : Configuration(i) {} void postInitialize(const UserValues&) override { calls.push_back('p'); } };
struct Q : Configuration { Q(long i) : Configuration(i) {} void initialize(const UserValues&) override { calls.push_back('i'); } };
int main() { auto& m = ConfigManager::getInstance(1); m.registerConfiguration<P>(); m.registerConfiguration<Q>(); m.closeRegistration(); m.initialize({});
  return calls == std::vector<char>{'i', 'p'} ? 0 : 1; }
"""),
]
