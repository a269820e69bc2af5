#include "vd.h"
#include <array>
#include "KdTree/KdTree.h"
#include <algorithm>
using namespace vd;
struct Pt { double c[4]; int id; };
namespace KdTree {
template <> struct KdTreeTraits<Pt> { static double getCoord(const Pt& p, size_t i) { return p.c[i]; } };
}
struct Any { virtual std::vector<Pt> find(const std::vector<double>&, double) = 0; virtual ~Any() {} };
template <size_t N, size_t S> struct One : Any {
  KdTree::KdTree<Pt, N, S> t;
  One(const std::vector<Pt>& v) : t(v) {}
  std::vector<Pt> find(const std::vector<double>& c, double r) override {
    typename KdTree::KdTree<Pt, N, S>::Coord q;
    for (size_t i = 0; i < N; ++i) q.coord[i] = c[i];
    return t.findPointsWithinRadius(q, r);
  }
};
template <size_t N> std::unique_ptr<Any> mk(size_t s, const std::vector<Pt>& v) {
  if (s == 4) return std::unique_ptr<Any>(new One<N, 4>(v));
  if (s == 5) return std::unique_ptr<Any>(new One<N, 5>(v));
  if (s == 9) return std::unique_ptr<Any>(new One<N, 9>(v));
  return std::unique_ptr<Any>(new One<N, 100>(v));
}
static std::unique_ptr<Any> T;
static double scale = 1, off = 0;
static Obs step(const J& e) {
  const std::string& op = e["op"].str();
  Obs o;
  if (op == "new") { T.reset(); return o; }
  if (op == "build") {
    scale = std::ldexp(1., e["exp"].i());
    off = e["off"].i() ? std::ldexp(1., e["off"].i()) : 0;   // a translation, exact in double
    std::vector<Pt> v;
    int id = 0;
    for (auto& p : e["pts"].a) { Pt q{}; q.id = ++id; for (size_t i = 0; i < p.size(); ++i) q.c[i] = (p[i].d() + off) * scale; v.push_back(q); }
    size_t n = e["n"].u(), s = e["s"].u();
    T = n == 1 ? mk<1>(s, v) : n == 2 ? mk<2>(s, v) : n == 3 ? mk<3>(s, v) : mk<4>(s, v);
    return o;
  }
  if (op == "query") {
    auto c = e["c"].dbls();
    for (auto& x : c) x = (x + off) * scale;
    std::vector<long> ids;
    for (auto& p : T->find(c, e["r"].d() * scale)) ids.push_back(p.id);
    std::sort(ids.begin(), ids.end());
    for (auto i : ids) o.add(i);
    return o;
  }
  _exit(70);
}
int main(int c, char** v) { return run(c, v, step); }
