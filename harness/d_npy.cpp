#include "vd.h"
#include "ElementsKernel/Exception.h"
#include "NdArray/NdArray.h"
#include "NdArray/io/Npy.h"
#include "NdArray/io/NpyMmap.h"
#include <boost/filesystem.hpp>
#include <numeric>
using namespace vd;
using namespace Euclid::NdArray;
namespace fs = boost::filesystem;
static std::string dir;
static int gen = 0;
static fs::path file(int i) { return fs::path(dir) / ("g" + std::to_string(gen) + "_" + std::to_string(i) + ".npy"); }

struct Any {
  virtual ~Any() {}
  virtual void all(Obs&) = 0;
  virtual void write(int f, bool stream) = 0;
  virtual void set(size_t i, double v) = 0;
  virtual void cat(Any&) = 0;
  virtual Any* copy() = 0;
};
static std::vector<size_t> unravel(size_t i, const std::vector<size_t>& sh) { std::vector<size_t> c(sh.size()); for (size_t k = sh.size(); k-- > 0;) { c[k] = i % sh[k]; i /= sh[k]; } return c; }
static size_t count(const std::vector<size_t>& sh) { size_t n = 1; for (auto s : sh) n *= s; return n; }
template <typename T> struct A : Any {
  std::unique_ptr<NdArray<T>> a;
  A(NdArray<T>&& x) : a(new NdArray<T>(std::move(x))) {}
  void all(Obs& o) override {
    const NdArray<T>& c = *a;
    auto sh = c.shape();
    o.add((long)sh.size());
    for (auto s : sh) o.add((long)s);
    for (size_t i = 0; i < count(sh); ++i) o.addn((double)c.at(unravel(i, sh)));
    o.s = c.attributes();
  }
  void write(int f, bool stream) override {
    if (!stream) { writeNpy(file(f), *a); return; }
    std::stringstream s;
    writeNpy(s, *a);
    std::ofstream out(file(f).native(), std::ios::binary);
    out << s.str();
  }
  void set(size_t i, double v) override { a->at(unravel(i, a->shape())) = (T)v; }
  void cat(Any& b) override { a->concatenate(*dynamic_cast<A<T>&>(b).a); }
  Any* copy() override { return new A(a->copy()); }
};
template <typename T> std::vector<T> conv(const J& j) { std::vector<T> r; for (auto& x : j.a) r.push_back((T)x.d()); return r; }
template <typename T> Any* make(const J& e, Obs& o) {
  const std::string& op = e["op"].str();
  if (op == "arr") return e["at"].size() ? new A<T>(NdArray<T>(e["sh"].sizes(), e["at"].strs(), conv<T>(e["d"]))) : new A<T>(NdArray<T>(e["sh"].sizes(), conv<T>(e["d"])));
  int f = e["f"].i();
  std::unique_ptr<Any> r;
  if (op == "rd") {
    if (e["how"].i()) { std::ifstream in(file(f).native(), std::ios::binary); r.reset(new A<T>(readNpy<T>(in))); }
    else r.reset(new A<T>(readNpy<T>(file(f))));
    r->all(o);
  } else if (op == "mk") {
    size_t m = e["max"].u();
    auto sh = e["sh"].sizes();
    r.reset(new A<T>(e["at"].size() ? m ? createMmapNpy<T>(file(f), sh, e["at"].strs(), m) : createMmapNpy<T>(file(f), sh, e["at"].strs()) : m ? createMmapNpy<T>(file(f), sh, m) : createMmapNpy<T>(file(f), sh)));
    o.add((long)fs::file_size(file(f)));
  } else {
    using B = boost::iostreams::mapped_file_base;
    const std::string& m = e["mode"].str();
    if (m == "rw" && e["max"].u() == 0) r.reset(new A<T>(mmapNpy<T>(file(f))));
    else r.reset(new A<T>(mmapNpy<T>(file(f), m == "rw" ? B::readwrite : m == "ro" ? B::readonly : B::priv, e["max"].u())));
    r->all(o);
  }
  return r.release();
}
static Any* makeT(const J& e, Obs& o) {
  switch (e["t"].i()) {
  case 1: return make<int8_t>(e, o);
  case 2: return make<int16_t>(e, o);
  case 3: return make<int32_t>(e, o);
  case 4: return make<int64_t>(e, o);
  case 5: return make<uint8_t>(e, o);
  case 6: return make<uint16_t>(e, o);
  case 7: return make<uint32_t>(e, o);
  case 8: return make<uint64_t>(e, o);
  case 9: return make<float>(e, o);
  default: return make<double>(e, o);
  }
}
template <typename T> void bytes(std::string& s, double v) { T x = (T)v; s.append(reinterpret_cast<char*>(&x), sizeof x); }
// a file as numpy writes it, or a damaged one
static void raw(const J& e) {
  static const char* names[] = {"|i1", "<i2", "<i4", "<i8", "|u1", "<u2", "<u4", "<u8", "<f4", "<f8"};
  int bad = e["bad"].i(), t = e["t"].i(), ver = e["ver"].i();
  std::string ty = names[t - 1];
  if (bad == 1) ty[0] = '>';
  std::string h = "{'descr': ";
  if (e["at"].size()) {
    h += "[";
    for (size_t i = 0; i < e["at"].size(); ++i) h += std::string(i ? ", " : "") + "('" + e["at"][i].str() + "', '" + (bad == 5 && i == 1 ? (t == 3 ? "<f4" : "<i4") : ty) + "')";
    h += "]";
  } else h += "'" + ty + "'";
  h += std::string(", 'fortran_order': ") + (bad == 2 ? "True" : "False") + ", 'shape': (";
  for (size_t i = 0; i < e["sh"].size(); ++i) h += (i ? ", " : "") + std::to_string(e["sh"][i].l());
  if (e["sh"].size() == 1) h += ",";
  h += "), }";
  h += std::string(e["pad"].u(), ' ');
  size_t pre = ver == 1 ? 10 : 12, hl = (pre + h.size() + 1 + 63) / 64 * 64 - pre;
  h += std::string(hl - h.size() - 1, ' ') + "\n";
  std::string s = bad == 3 ? "\x93NUMPX" : "\x93NUMPY";
  s += (char)ver;
  s += '\0';
  for (int i = 0; i < (ver == 1 ? 2 : 4); ++i) s += (char)((hl >> (8 * i)) & 255);
  s += h;
  for (auto& x : e["d"].a) switch (t) {
    case 1: bytes<int8_t>(s, x.d()); break;
    case 2: bytes<int16_t>(s, x.d()); break;
    case 3: bytes<int32_t>(s, x.d()); break;
    case 4: bytes<int64_t>(s, x.d()); break;
    case 5: bytes<uint8_t>(s, x.d()); break;
    case 6: bytes<uint16_t>(s, x.d()); break;
    case 7: bytes<uint32_t>(s, x.d()); break;
    case 8: bytes<uint64_t>(s, x.d()); break;
    case 9: bytes<float>(s, x.d()); break;
    default: bytes<double>(s, x.d());
    }
  if (bad == 4) s.resize(s.size() - std::min<size_t>(s.size(), e["cut"].u()));
  std::ofstream(file(e["f"].i()).native(), std::ios::binary) << s;
}
// what numpy sees in a header: a strict reading of the format
static Obs header(int f) {
  Obs o;
  std::ifstream in(file(f).native(), std::ios::binary);
  std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  if (s.size() < 12 || s.compare(0, 6, "\x93NUMPY") || s[7] != 0 || s[6] < 1 || s[6] > 3) return "magic";
  size_t pre = s[6] == 1 ? 10 : 12, hl = 0;
  for (size_t i = 0; i < pre - 8; ++i) hl |= (size_t)(unsigned char)s[8 + i] << (8 * i);
  if (pre + hl > s.size()) return "length";
  std::string h = s.substr(pre, hl);
  o.add((pre + hl) % 64 == 0).add(!h.empty() && h.back() == '\n');
  // a tiny reader of Python literals: {'key': value, ...}
  size_t p = 0;
  auto ws = [&] { while (p < h.size() && (h[p] == ' ' || h[p] == '\n')) ++p; };
  auto eat = [&](char c) { ws(); if (p < h.size() && h[p] == c) { ++p; return true; } return false; };
  auto str = [&](std::string& r) { ws(); if (p >= h.size() || h[p] != '\'') return false; size_t q = h.find('\'', p + 1); if (q == std::string::npos) return false; r = h.substr(p + 1, q - p - 1); p = q + 1; return true; };
  auto type = [&](const std::string& d) { std::string t = d; if (!t.empty() && std::string("<|=").find(t[0]) != std::string::npos) t.erase(0, 1); else t = "?" + t; if (t == "b") t = "i1"; if (t == "B") t = "u1"; return t; };
  long fortran = -1;
  std::vector<long> shape;
  std::vector<std::string> descr;
  int seen = 0;
  if (!eat('{')) return "dict";
  while (!eat('}')) {
    std::string k, v;
    if (!str(k) || !eat(':')) return "key";
    ws();
    if (k == "descr") {
      seen |= 1;
      if (eat('[')) {
        while (!eat(']')) { std::string n, t; if (!eat('(') || !str(n) || !eat(',') || !str(t) || !eat(')')) return "field"; eat(','); descr.push_back(n); descr.push_back(type(t)); }
      } else { if (!str(v)) return "descr"; descr.push_back(type(v)); }
    } else if (k == "fortran_order") {
      seen |= 2;
      if (h.compare(p, 5, "False") == 0) { fortran = 0; p += 5; } else if (h.compare(p, 4, "True") == 0) { fortran = 1; p += 4; } else return "order";
    } else if (k == "shape") {
      seen |= 4;
      if (!eat('(')) return "shape";
      while (!eat(')')) { ws(); size_t q = p; while (q < h.size() && isdigit(h[q])) ++q; if (q == p) return "number"; shape.push_back(std::stol(h.substr(p, q - p))); p = q; bool c = eat(','); ws(); if (!c && (p >= h.size() || h[p] != ')')) return "tuple"; if (!c && shape.size() == 1) return "not a tuple"; }
    } else return "unknown key";
    eat(',');
  }
  ws();
  if (p != h.size() || seen != 7) return "rest";
  o.add(fortran).add((long)shape.size());
  for (long x : shape) o.add(x);
  o.s = descr;
  return o;
}
static std::vector<std::unique_ptr<Any>> as;
static Obs step(const J& e) {
  const std::string& op = e["op"].str();
  Obs o;
  if (op == "new") { as.clear(); for (int i = 1; i <= 3; ++i) fs::remove(file(i)); ++gen; return o; }
  if (op == "raw") { raw(e); return o; }
  if (op == "hdr") return header(e["f"].i());
  if (op == "arr" || op == "rd" || op == "mk" || op == "mm") { Any* p = makeT(e, o); as.emplace_back(p); return o; }
  if (op == "big") {
    auto sh = e["sh"].sizes();
    { auto a = createMmapNpy<int8_t>(file(3), sh); a.at(sh[0] - 1, sh[1] - 1) = (int8_t)e["v"].i(); }
    { auto a = mmapNpy<int8_t>(file(3)); o.add((long)a.shape()[0]).add((long)a.shape()[1]).add(a.at(sh[0] - 1, sh[1] - 1)); }
    fs::remove(file(3));
    return o;
  }
  auto& a = as.at(e["a"].u() - 1);
  if (op == "wr") { a->write(e["f"].i(), e["how"].i()); o.add((long)fs::file_size(file(e["f"].i()))); }
  else if (op == "set") a->set(e["i"].u() - 1, e["v"].d());
  else if (op == "cat") a->cat(*as.at(e["b"].u() - 1));
  else if (op == "all") a->all(o);
  else if (op == "cp") { Any* p = a->copy(); as.emplace_back(p); }
  else if (op == "cl") a.reset();
  else _exit(70);
  return o;
}
int main(int c, char** v) { const char* d = getenv("VD_SCRATCH"); if (!d) return 70; dir = d; return run(c, v, step); }
