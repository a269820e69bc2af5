#include "vd.h"
#include "ElementsKernel/Exception.h"
#include "MathUtils/interpolation/GridInterpolation.h"
#include "MathUtils/interpolation/interpolation.h"
#include "NdArray/NdArray.h"
using namespace vd;
using namespace Euclid::MathUtils;
static const double S = 1000;
using Nd = Euclid::NdArray::NdArray<double>;
enum class Letter { A = 1000 };

template <typename T> struct A { static T to(double half) { return (T)(half / 2); } };
template <> struct A<std::string> { static std::string to(double half) { return "v" + std::to_string((long)(half)); } };
template <> struct A<Letter> { static Letter to(double half) { return (Letter)(long)half; } };
template <typename T> std::vector<T> axis(const J& k) { std::vector<T> r; for (auto x : k.dbls()) r.push_back(A<T>::to(2 * x)); return r; }

struct F {
  virtual ~F() {}
  virtual double at(const std::vector<double>& q) = 0;
  virtual F* copy() = 0;
};
template <typename... T> struct FG : F {
  InterpN<T...> f;
  FG(const InterpN<T...>& o) : f(o) {}
  FG(const std::tuple<std::vector<T>...>& g, const Nd& v, bool ext) : f(g, v, ext) {}
  template <size_t... I> double call(const std::vector<double>& q, std::index_sequence<I...>) { return f(A<T>::to(q[I])...); }
  double at(const std::vector<double>& q) override { return call(q, std::index_sequence_for<T...>()); }
  F* copy() override { return new FG(f); }
};
template <size_t N> struct FN : F {
  std::unique_ptr<NAryFunction<N>> f;
  explicit FN(std::unique_ptr<NAryFunction<N>> g) : f(std::move(g)) {}
  template <size_t... I> double call(const std::vector<double>& q, std::index_sequence<I...>) { return (*f)(q[I] / 2 ...); }
  double at(const std::vector<double>& q) override { return call(q, std::make_index_sequence<N>()); }
  F* copy() override { return new FN(f->clone()); }
};
template <typename... T, size_t... I> F* makeG(const J& e, const Nd& v, std::index_sequence<I...>) {
  return new FG<T...>(std::tuple<std::vector<T>...>{axis<T>(e["kn"][I])...}, v, e["ext"].i());
}
template <typename... T> F* make(const J& e, const Nd& v) { return makeG<T...>(e, v, std::index_sequence_for<T...>()); }
template <size_t N> F* makeN(const J& e, const Nd& v) {
  Coordinates<N> c;
  for (size_t i = 0; i < N; ++i) c[i] = axis<double>(e["kn"][i]);
  return new FN<N>(interpn<N>(c, v, e["cubic"].i() ? InterpolationType::CUBIC_SPLINE : InterpolationType::LINEAR, e["ext"].i()));
}
static std::vector<std::unique_ptr<F>> fs;
static Obs step(const J& e) {
  const std::string& op = e["op"].str();
  Obs o;
  if (op == "new") { fs.clear(); return o; }
  if (op == "grid") {
    Nd v(e["sh"].sizes(), e["vals"].dbls());
    F* f = nullptr;
    switch (e["t"].i()) {
    case 1: f = make<double>(e, v); break;
    case 2: f = make<double, double>(e, v); break;
    case 3: f = make<double, double, double>(e, v); break;
    case 4: f = make<int>(e, v); break;
    case 5: f = make<double, std::string>(e, v); break;
    case 6: f = make<Letter, double>(e, v); break;
    case 7: f = make<std::string, double, int>(e, v); break;
    case 8: f = make<float, Letter, double>(e, v); break;
    case 9: f = make<float, double>(e, v); break;
    case 10: f = make<double, double, int, double>(e, v); break;
    case 11: f = makeN<1>(e, v); break;
    case 12: f = makeN<2>(e, v); break;
    case 13: f = makeN<3>(e, v); break;
    case 14: f = makeN<4>(e, v); break;
    default: _exit(70);
    }
    fs.emplace_back(f);
    return o;
  }
  auto& f = fs.at(e["g"].u() - 1);
  if (op == "cp") {
    fs.emplace_back(f->copy());
    fs[e["g"].u() - 1].reset(fs.back()->copy());      // the original goes, a copy of the copy takes its place
    return o;
  }
  if (op == "at") { for (auto& q : e["qs"].a) o.add(rnd(f->at(q.dbls()), S)); return o; }
  fprintf(stderr, "unknown op %s\n", op.c_str());
  _exit(70);
}
int main(int argc, char** argv) { return run(argc, argv, step); }
