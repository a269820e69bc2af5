#include "vd.h"
#include "ElementsKernel/Exception.h"
#include <algorithm>
#include <cmath>
#include <string>
#include <vector>
#include <functional>
#include "AlexandriaKernel/InstOrRefHolder.h"
#include "AlexandriaKernel/StringUtils.h"
#include "AlexandriaKernel/Tuples.h"
using namespace vd;
static long alive = 0;
struct Base {
  long x;
  explicit Base(long v) : x(v) { ++alive; }
  Base(const Base&) = delete;
  virtual ~Base() { --alive; x = -777; }
  virtual long says() const { return x; }
};
struct Derived : Base {
  std::vector<long> pad;
  Derived(long a, long b) : Base(a + b), pad(3, a) {}
  long says() const override { return x + 1000 + (long)pad.size() - 3; }
};
typedef Euclid::InstOrRefHolder<Base> Holder;
static std::vector<std::unique_ptr<Base>> own;      // objects of the user
static std::vector<Base*> obj;                      // all of them
static std::vector<std::unique_ptr<Holder>> hs;
static std::string text(const J& j) { std::string s; for (auto& c : j.a) s += c.str(); return s; }
static std::string dec(double x) { char t[64]; snprintf(t, sizeof t, "%.12g", x == 0 ? 0. : x); return t; }
template <typename T, typename F> static Obs vec(const J& e, F show) {
  std::string t = text(e["t"]), sp = text(e["seps"]), kept = t;
  std::vector<T> v = sp == ", " ? Euclid::stringToVector<T>(t) : Euclid::stringToVector<T>(t, sp);
  Obs o;
  if (t != kept) o.k = "changed";
  for (auto& x : v) o.adds(show(x));
  return o;
}
template <typename... T> static std::string show(const std::tuple<T...>&, std::integral_constant<size_t, sizeof...(T)>, Obs&) { return ""; }
template <typename T> static std::string one(const T& x) { return std::to_string(x); }
static std::string one(const std::string& x) { return x; }
static std::string one(const std::unique_ptr<std::string>& x) { return x ? *x : "gone"; }
template <size_t I, typename... T> static std::enable_if_t<I == sizeof...(T)> all(const std::tuple<T...>&, Obs&) {}
template <size_t I, typename... T> static std::enable_if_t<(I < sizeof...(T))> all(const std::tuple<T...>& t, Obs& o) { o.adds(one(std::get<I>(t))); all<I + 1>(t, o); }
static Obs step(const J& e) {
  const std::string& op = e["op"].str();
  Obs o;
  if (op == "new") { hs.clear(); own.clear(); obj.clear(); if (alive) o.k = "leak"; alive = 0; return o; }
  if (op == "tovec") {
    const std::string& ty = e["ty"].str();
    if (ty == "int") return vec<int>(e, [](int x) { return std::to_string(x); });
    if (ty == "long") return vec<int64_t>(e, [](int64_t x) { return std::to_string(x); });
    if (ty == "double") return vec<double>(e, dec);
    return vec<std::string>(e, [](const std::string& s) { return s; });
  }
  if (op == "tail") {
    auto x = e["x"].strs();
    auto I = [&](size_t i) { return atoi(x[i].c_str()); };
    bool mv = e["mv"].i();
    if (x.size() == 1) { std::tuple<std::string> t(x[0]); if (mv) all<0>(Euclid::Tuple::Tail(std::move(t)), o); else all<0>(Euclid::Tuple::Tail(t), o); }
    else if (x.size() == 2) { std::tuple<int, std::string> t(I(0), x[1]); if (mv) all<0>(Euclid::Tuple::Tail(std::move(t)), o); else { all<0>(Euclid::Tuple::Tail(t), o); if (std::get<1>(t) != x[1] || std::get<0>(t) != I(0)) o.k = "changed"; } }
    else if (x.size() == 3 && mv) {
      typedef std::unique_ptr<std::string> P;
      std::tuple<P, P, std::string> t(P(new std::string(x[0])), P(new std::string(x[1])), x[2]);
      auto r = Euclid::Tuple::Tail(std::move(t));
      all<0>(r, o);
    } else if (x.size() == 3) { std::tuple<std::string, int, std::string> t(x[0], I(1), x[2]); const auto& c = t; all<0>(Euclid::Tuple::Tail(c), o); if (std::get<2>(t) != x[2]) o.k = "changed"; }
    else { std::tuple<int, int, std::string, int> t(I(0), I(1), x[2], I(3)); const auto& c = t; auto r = Euclid::Tuple::Tail(c); all<0>(r, o); }
    return o;
  }
  if (op == "obj") { own.emplace_back(e["kind"].str() == "derived" ? new Derived(e["x"].l() - 5, 5) : new Base(e["x"].l())); obj.push_back(own.back().get()); return o.add(alive); }
  if (op == "inst") {
    if (e["kind"].str() == "derived") hs.push_back(Holder::create<Derived>(e["x"].l() - 5, 5L)); else hs.push_back(Holder::create(e["x"].l()));
    obj.push_back(&hs.back()->ref());
    return o.add(alive);
  }
  if (op == "hold") { hs.push_back(Holder::create(*obj.at(e["o"].u() - 1))); return o.add(alive); }
  if (op == "get") { Base& b = hs.at(e["h"].u() - 1)->ref(); o.add(b.says()); size_t k = 0; while (k < obj.size() && obj[k] != &b) ++k; return o.add((long)k + 1); }
  if (op == "set") { hs.at(e["h"].u() - 1)->ref().x = e["x"].l(); return o; }
  if (op == "oset") { obj.at(e["o"].u() - 1)->x = e["x"].l(); return o; }
  if (op == "oget") return o.add(obj.at(e["o"].u() - 1)->says());
  if (op == "drop") {
    auto& h = hs.at(e["h"].u() - 1);
    h.reset();
    return o.add(alive);
  }
  return Obs("unknown op");
}
int main(int argc, char** argv) { return run(argc, argv, step); }
