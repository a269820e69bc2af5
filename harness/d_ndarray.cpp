#include "vd.h"
#include "NdArray/NdArray.h"
#include "NdArray/Operations.h"
#include <algorithm>
#include <list>
using namespace vd;
#ifndef ELT
#define ELT int
#endif
using E = ELT;
using Arr = Euclid::NdArray::NdArray<E>;

static std::vector<std::unique_ptr<Arr>> H;
static Arr& A(const J& e, const char* k = "h") { return *H.at(e[k].u() - 1); }
static void push(Arr a) { H.emplace_back(new Arr(a)); }

static void each(const std::vector<size_t>& sh, const std::function<void(const std::vector<size_t>&)>& f) {
  size_t n = 1;
  for (auto s : sh) n *= s;
  std::vector<size_t> c(sh.size(), 0);
  for (size_t k = 0; k < n; ++k) {
    f(c);
    for (size_t i = sh.size(); i-- > 0;) {
      if (++c[i] < sh[i]) break;
      c[i] = 0;
    }
  }
}
static void dump(Obs& o, const Arr& a) {
  auto sh = a.shape();
  o.add(sh.size()).all(sh).add(a.size());
  for (auto it = a.begin(); it != a.end(); ++it) o.add(*it);
}
static void atall(Obs& o, const Arr& a) {
  each(a.shape(), [&](const std::vector<size_t>& c) { o.add(a.at(c)); });
}
template <typename Arr2> static E variadic(Arr2& a, const std::vector<size_t>& c) {
  switch (c.size()) {
  case 1: return a.at(c[0]);
  case 2: return a.at(c[0], c[1]);
  case 3: return a.at(c[0], c[1], c[2]);
  default: return a.at(c);
  }
}
static Obs opres(const Arr& a) { Obs o; dump(o, a); return o; }

static Obs step(const J& e) {
  const std::string& op = e["op"].str();
  Obs                o;
  if (op == "new") { H.clear(); return o; }
  if (op == "mk") {
    auto sh = e["shape"].sizes();
    auto at = e["attrs"].strs();
    auto how = e["how"].str();
    auto d0 = e["data"].ints(); std::vector<E> d(d0.begin(), d0.end());
    if (at.empty()) {
      if (how == "zero") push(Arr(sh));
      else if (how == "iter") { std::list<E> l(d.begin(), d.end()); push(Arr(sh, l.begin(), l.end())); }
      else if (how == "move") { std::vector<E> m(d); push(Arr(sh, std::move(m))); }
      else push(Arr(sh, d));
    } else {
      if (how == "zero") push(Arr(sh, at));
      else if (how == "iter") push(Arr(sh, at, d.begin(), d.end()));
      else push(Arr(sh, at, d));
    }
    return o;
  }
  if (op == "dup") { push(Arr(A(e))); return o; }
  if (op == "assign") { A(e) = A(e, "g"); return o; }
  if (op == "copy") { const Arr& a = A(e); Arr c = a.copy(); push(c); return o; }
  if (op == "reshape") {
    auto sh = e["shape"].sizes();
    Arr& a = A(e);
    Arr* r;
    if (sh.size() == 1) r = &a.reshape(sh[0]);
    else if (sh.size() == 2) r = &a.reshape(sh[0], sh[1]);
    else r = &a.reshape(sh);
    if (r != &a) o.k = "notself";
    return o;
  }
  if (op == "slice") { if (e["i"].u() % 2) { const Arr& a = A(e); push(a.slice(e["i"].u())); } else push(A(e).slice(e["i"].u())); return o; }
  if (op == "rslice") { if (e["i"].u() % 2) { const Arr& a = A(e); push(a.rslice(e["i"].u())); } else push(A(e).rslice(e["i"].u())); return o; }
  if (op == "get") {
    auto c = e["c"].sizes();
    Arr& a = A(e); const Arr& ca = a;
    E v = a.at(c);
    if (ca.at(c) != v || (c.size() && (variadic(a, c) != v || variadic(ca, c) != v))) o.k = "inconsistent";
    return o.add(v);
  }
  if (op == "set") { A(e).at(e["c"].sizes()) = e["v"].i(); return o; }
  if (op == "getattr") {
    auto c = e["c"].sizes();
    Arr& a = A(e); const Arr& ca = a;
    E v = a.at(c, e["a"].str());
    if (ca.at(c, e["a"].str()) != v) o.k = "inconsistent";
    if (c.size() == 1 && a.at(c[0], e["a"].str()) != v) o.k = "inconsistent";
    return o.add(v);
  }
  if (op == "setattr") { A(e).at(e["c"].sizes(), e["a"].str()) = e["v"].i(); return o; }
  if (op == "fill") { int k = e["v"].i(); for (auto& x : A(e)) x = k++; return o; }
  if (op == "dump") { Arr& a = A(e); dump(o, a); for (auto& s : a.attributes()) o.adds(s); return o; }
  if (op == "atall") { atall(o, A(e)); return o; }
  if (op == "dumpall") {
    for (auto& h : H) { dump(o, *h); atall(o, *h); for (auto& s : h->attributes()) o.adds(s); }
    return o;
  }
  if (op == "eq") { const Arr &a = A(e), &b = A(e, "g"); return o.add(a == b).add(a != b); }
  if (op == "iter") {
    Arr& a = A(e);
    size_t i = e["i"].u(), j = e["j"].u(), n = a.size();
    if (i >= n || j >= n) return Obs("none");
    auto b = a.begin(), en = a.end();
    auto pi = b; for (size_t k = 0; k < i; ++k) ++pi;
    o.add(*(b + i)).add(b[i]).add(*pi);
    auto r = en; r -= i + 1; auto r2 = en - (i + 1);
    if (*r != *r2) o.k = "inconsistent";
    o.add(*r);
    auto x = b + i, y = b + j;
    o.add(x - y).add(x < y).add(x > y).add(x == y);
    if ((x != y) == (x == y)) o.k = "inconsistent";
    auto q = b; o.add(*q++); if (n == 1) q = b; o.add(*q);
    auto z = b; z += j; const auto cz = z; o.add(*cz);
    Arr::const_iterator ci(b); ci += j; if (*ci != *z || cz[0] != *z) o.k = "inconsistent";
    if ((size_t)(en - b) != n) o.k = "inconsistent";
    return o;
  }
  if (op == "str") { std::ostringstream s; s << A(e); return o.adds(s.str()); }
  if (op == "concat") { Arr& r = A(e).concatenate(A(e, "g")); if (&r != &A(e)) o.k = "notself"; return o; }
  if (op == "sum") return o.add(Euclid::NdArray::sum(A(e)));
  if (op == "sumaxis") return opres(Euclid::NdArray::sum(A(e), e["axis"].i()));
  if (op == "trapz") {
    // integrate in double and double the result
    Arr& a = A(e);
    std::vector<double> v;
    each(a.shape(), [&](const std::vector<size_t>& c) { v.push_back(a.at(c)); });
    Euclid::NdArray::NdArray<double> d(a.shape(), v);
    auto k = e["knots"].dbls();
    auto r = Euclid::NdArray::trapz(d, k.begin(), k.end(), e["axis"].i());
    auto sh = r.shape();
    o.add(sh.size()).all(sh).add(r.size());
    for (auto it = r.begin(); it != r.end(); ++it) o.addn(2 * *it);
    return o;
  }
  if (op == "argmax") { if (A(e).size() == 0) return Obs("none"); return o.all(Euclid::NdArray::argmax(A(e))); }
  if (op == "argmin") { if (A(e).size() == 0) return Obs("none"); return o.all(Euclid::NdArray::argmin(A(e))); }
  if (op == "unravel") return o.all(Euclid::NdArray::unravel_index(e["i"].u(), e["shape"].sizes()));
  fprintf(stderr, "unknown op %s\n", op.c_str());
  _exit(70);
}
int main(int c, char** v) { return run(c, v, step); }
