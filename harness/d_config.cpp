#include "vd.h"
#include "ElementsKernel/Exception.h"
#include "Configuration/ConfigManager.h"
#include "Configuration/Configuration.h"
#include "Configuration/ProgramOptionsHelper.h"
#include "Configuration/Utils.h"
#include <algorithm>
#include <typeindex>
using namespace vd;
using namespace Euclid::Configuration;
namespace po = boost::program_options;
static const int N = 8;
struct Boom {};
static bool decl[N][N];
static std::vector<std::pair<int, int>> extra[2];
static bool known[2][N];
static int boom = -1, fi = -1, fp = -1, cur = 0, tag = 0;
static std::vector<int> made;
static std::vector<long> hooks;
static bool badargs = false;
static void* where[2][N];
template <int I> struct C : Configuration {
  template <int K> void dec(std::integral_constant<int, K>) { if (decl[I][K]) this->template declareDependency<C<K>>(); dec(std::integral_constant<int, K + 1>()); }
  void dec(std::integral_constant<int, N>) {}
  C(long id) : Configuration(id) {
    if (boom == I) throw Boom();
    dec(std::integral_constant<int, 0>());
    made.push_back(I);
    where[cur][I] = this;
  }
  static po::option_description opt(const std::string& s) { return po::option_description(s.c_str(), po::value<int>(), "text"); }
  std::map<std::string, OptionDescriptionList> getProgramOptions() override {
    return {{I % 2 ? "g1" : "g0", {opt("o" + std::to_string(I))}}, {"all", {opt("a" + std::to_string(I))}}};
  }
  template <int K> int least(int p, std::integral_constant<int, K>) {
    int s = 9;
    bool dep = decl[I][K];
    for (auto& x : extra[cur]) dep = dep || (x.first == I && x.second == K);
    // after initialisation every configuration can be reached; before, the dependencies
    if (known[cur][K] && (p == 2 || dep)) {
      const C<I>& me = *this;
      s = std::min((int)this->template getDependency<C<K>>().getCurrentState(), (int)me.template getDependency<C<K>>().getCurrentState());
    }
    return std::min(s, least(p, std::integral_constant<int, K + 1>()));
  }
  int least(int, std::integral_constant<int, N>) { return 9; }
  void hook(int p, const UserValues& a) {
    auto it = a.find("tag");
    if (a.size() != 1 || it == a.end() || it->second.as<int>() != tag) badargs = true;
    for (long x : {(long)I, (long)p, (long)this->getCurrentState(), (long)(p ? least(p, std::integral_constant<int, 0>()) : 9)}) hooks.push_back(x);
    if (fi == I && fp == p) throw Boom();
  }
  void preInitialize(const UserValues& a) override { hook(0, a); }
  void initialize(const UserValues& a) override { hook(1, a); }
  void postInitialize(const UserValues& a) override { hook(2, a); }
};
template <template <int> class F, int K = 0> struct Sw { template <typename... A> static void go(int i, A&&... a) { if (i == K) F<K>::go(a...); else Sw<F, K + 1>::go(i, a...); } };
template <template <int> class F> struct Sw<F, N> { template <typename... A> static void go(int, A&&...) { _exit(70); } };
template <int I> struct Reg { static void go(ConfigManager& m) { m.registerConfiguration<C<I>>(); } };
template <int I> struct Get { static void go(ConfigManager& m, Obs& o) {
  auto& c = m.getConfiguration<C<I>>();
  o.add(I); o.add((long)c.getCurrentState()); o.add(where[cur][I] == &c);
} };
template <int I> struct Dep { template <int K> struct To { static void go(ConfigManager& m) { m.registerDependency<C<I>, C<K>>(); } };
  static void go(ConfigManager& m, int j) { Sw<To>::go(j, m); } };
static long ids[2];
static std::vector<std::string> chars(const J& j) { std::vector<std::string> r; for (auto& x : j.a) { std::string s; for (auto& c : x.a) s += c.str(); r.push_back(s); } return r; }
static std::string chars1(const J& j) { std::string s; for (auto& c : j.a) s += c.str(); return s; }
static Obs step(const J& e) {
  const std::string& op = e["op"].str();
  Obs o;
  cur = e["m"].i();
  if (op == "new") {
    memset(decl, 0, sizeof decl); memset(known, 0, sizeof known); memset(where, 0, sizeof where);
    for (auto& p : e["decl"].a) decl[p[0].i()][p[1].i()] = true;
    for (int k = 0; k < 2; ++k) { extra[k].clear(); ids[k] = getUniqueManagerId(); }
    if (ids[0] == ids[1]) o.k = "same id";
    return o;
  }
  if (op == "wild") {
    po::variables_map vm;
    std::map<std::string, po::variable_value> m;
    for (auto& s : chars(e["opts"])) m[s] = po::variable_value();
    for (auto& s : ProgramOptionsHelper::findWildcardNames(chars(e["names"]), m)) o.adds(s);
    return o;
  }
  if (op == "wc") { o.adds(ProgramOptionsHelper::wildcard(chars1(e["name"]), chars1(e["inst"]))); o.adds(ProgramOptionsHelper::wildcard(chars1(e["name"]))); return o; }
  ConfigManager& m = ConfigManager::getInstance(ids[cur]);
  if (op == "register") {
    made.clear();
    boom = e["boom"].i() ? e["i"].i() : -1;
    try { Sw<Reg>::go(e["i"].i(), m); } catch (const Boom&) { boom = -1; for (int i : made) known[cur][i] = true; return made.empty() ? Obs("throw") : Obs("partial"); }
    boom = -1;
    std::sort(made.begin(), made.end());
    for (int i : made) { known[cur][i] = true; o.add(i); }
    return o;
  }
  if (op == "depend") { Sw<Dep>::go(e["i"].i(), m, e["j"].i()); extra[cur].emplace_back(e["i"].i(), e["j"].i()); return o; }
  if (op == "close") {
    auto d = m.closeRegistration();
    // groups are only visible in the printed description
    std::stringstream ss; ss << d;
    std::map<std::string, std::vector<std::string>> g;
    std::string line, now;
    std::vector<std::string> order;
    while (std::getline(ss, line)) {
      if (line.empty()) continue;
      if (line[0] != ' ') { now = line.substr(0, line.find(':')); order.push_back(now); }
      else if (line.compare(0, 4, "  --") == 0) g[now].push_back(line.substr(4, line.find(' ', 4) - 4));
    }
    std::sort(order.begin(), order.end());
    size_t n = 0;
    for (auto& x : order) { o.adds(x); std::sort(g[x].begin(), g[x].end()); for (auto& y : g[x]) { o.adds(y); ++n; if (!d.find_nothrow(y, false)) o.k = "missing"; } }
    if (n != d.options().size()) o.k = "count";
    return o;
  }
  if (op == "init") {
    hooks.clear(); badargs = false; ++tag;
    fi = e["fi"].i(); fp = e["fp"].i();
    std::map<std::string, po::variable_value> a;
    a["tag"] = po::variable_value(tag, false);
    try { m.initialize(a); } catch (const Boom&) { o.k = "fail"; }
    fi = fp = -1;
    if (badargs) o.k = "args";
    for (long x : hooks) o.add(x);
    return o;
  }
  if (op == "get") { Sw<Get>::go(e["i"].i(), m, o); return o; }
  _exit(70);
}
int main(int c, char** v) { return run(c, v, step); }
