#include "vd.h"
#include "ElementsKernel/Exception.h"
#include "GridContainer/GridContainer.h"
#include "GridContainer/GridContainerToTable.h"
#include "GridContainer/GridIndexHelper.h"
#include "GridContainer/serialize.h"
#include "XYDataset/QualifiedName.h"
#include "XYDataset/serialize.h"
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <deque>
// cells without default constructor
struct ND {
  int v;
  explicit ND(long x) : v((int)x) {}
  explicit operator double() const { return v; }
};
struct MgrN {
  typedef ND data_type;
  typedef std::vector<ND>::iterator iterator;
  std::vector<ND> d;
  explicit MgrN(size_t n) : d(n, ND(0)) {}
  size_t size() const { return d.size(); }
  iterator begin() { return d.begin(); }
  iterator end() { return d.end(); }
  ND& operator[](size_t i) { return d[i]; }
};
namespace Euclid { namespace GridContainer {
template <> struct GridCellManagerTraits<MgrN> {
  typedef ND data_type;
  typedef std::vector<ND>::iterator iterator;
  static std::unique_ptr<MgrN> factory(size_t n) { return std::unique_ptr<MgrN>(new MgrN(n)); }
  static size_t size(const MgrN& m) { return m.size(); }
  static iterator begin(MgrN& m) { return m.begin(); }
  static iterator end(MgrN& m) { return m.end(); }
  static const bool enable_boost_serialize = true;
};
template <> struct GridCellToTable<ND> {
  static void addColumnDescriptions(const ND&, std::vector<Table::ColumnDescription>& columns) { columns.emplace_back("value", typeid(int32_t)); }
  static void addCells(const ND& c, std::vector<Table::Row::cell_type>& row) { row.emplace_back(int32_t(c.v)); }
};
} }
namespace boost { namespace serialization {
template <typename A> void serialize(A&, ND&, const unsigned int) {}
template <typename A> void save_construct_data(A& ar, const ND* t, const unsigned int) { int v = t->v; ar << v; }
template <typename A> void load_construct_data(A& ar, ND* t, const unsigned int) { int v; ar >> v; ::new (t) ND(v); }
} }
using namespace vd;
namespace GC = Euclid::GridContainer;
using QN = Euclid::XYDataset::QualifiedName;

// knots: integers of the specification as values of the axis type, in the same order
template <typename T> struct K;
template <> struct K<int> { static int to(long n) { return (int)n; } static long from(int x) { return x; } };
template <> struct K<double> { static double to(long n) { return n / 4.; } static long from(double x) { return num(x * 4); } };
static std::string padded(long n) { char b[32]; snprintf(b, sizeof b, "%06ld", n + 500000); return b; }
template <> struct K<std::string> { static std::string to(long n) { return "k " + padded(n); } static long from(const std::string& s) { return atol(s.c_str() + 2) - 500000; } };
template <> struct K<QN> {
  static QN   to(long n) { return QN((n % 3 == 0 ? "" : n % 3 == 1 ? "g/" : "g/h i/j/") + padded(n)); }
  static long from(const QN& q) { long n = atol(q.datasetName().c_str()) - 500000; return to(n).qualifiedName() == q.qualifiedName() ? n : FRAC; }
};
static bool odd = false;       // axis names that need care
static std::string axname(size_t i) { static const char* o[] = {" b  ", "", "x\ty \"z\" \xc3\xa9", "0"}; return odd ? o[i] : "axis " + std::to_string(i); }

struct It {
  virtual ~It() {}
  virtual void show(Obs&) = 0;
  virtual void next() = 0;
  virtual void fix(size_t ax, bool byValue, long x) = 0;
  virtual void fixall(It& o) = 0;
  virtual void write(long x) = 0;
  virtual It*  copy() = 0;
  virtual void assign(It& o) = 0;
  virtual bool eq(It& o, bool ne) = 0;
  virtual long idx(size_t ax) = 0;
  virtual void rest(Obs&) = 0;
};
struct Any {
  virtual ~Any() {}
  virtual size_t size() = 0;
  virtual size_t axes() = 0;
  virtual Any*   slice(size_t ax, bool byValue, long x, bool c) = 0;
  virtual void   showAxes(Obs&) = 0;
  virtual void   all(Obs&, int how) = 0;
  virtual long   at(const std::vector<size_t>& c, int how) = 0;
  virtual void   put(const std::vector<size_t>& c, long x, int how) = 0;
  virtual void   fill(long x) = 0;
  virtual void   inf(Obs&, const std::vector<long>&, bool tuple) = 0;
  virtual Any*   move() = 0;
  virtual It*    it(int how) = 0;
  virtual void   save(std::ostream&, bool text) = 0;
  virtual Any*   load(std::istream&, bool text) = 0;
  virtual void   saveF(const std::string& f, const std::string& n) = 0;
  virtual Any*   loadF(const std::string& f, int i) = 0;
  virtual int    axesN() = 0;
  virtual void   table(Obs&) = 0;
};
static const long LIMIT = 5000;

template <typename Mgr, typename... Ts> struct G : Any {
  using Grid = GC::GridContainer<Mgr, Ts...>;
  using Cell = typename Grid::cell_type;
  static constexpr size_t N = sizeof...(Ts);
  using Seq = std::index_sequence_for<Ts...>;
  template <size_t I> using T = typename std::tuple_element<I, std::tuple<Ts...>>::type;
  Grid g;
  G(Grid&& x) : g(std::move(x)) {}

  template <size_t I> static GC::GridAxis<T<I>> axis(const J& kn) {
    std::vector<T<I>> v;
    for (auto& x : kn[I].a) v.push_back(K<T<I>>::to(x.l()));
    return {axname(I), v};
  }
  template <size_t... Is> static Any* make(const J& kn, std::index_sequence<Is...>, bool tuple) {
    G* r = tuple ? new G(Grid(std::tuple<GC::GridAxis<Ts>...>(axis<Is>(kn)...))) : new G(Grid(axis<Is>(kn)...));
    long i = 0;
    for (auto it = r->g.begin(); it != r->g.end(); ++it) *it = (Cell)i++;
    return r;
  }
  template <size_t... Is, typename Gr> static auto& callIt(Gr& g, const std::vector<size_t>& c, int how, std::index_sequence<Is...>) { return how == 1 ? g(c[Is]...) : g.at(c[Is]...); }

  // runs f<I>() for a run-time I
  template <typename F, size_t I = 0> static typename std::enable_if<(I < sizeof...(Ts))>::type with(size_t i, F&& f) {
    if (i == I) f(std::integral_constant<size_t, I>{}); else with<F, I + 1>(i, std::forward<F>(f));
  }
  template <typename F, size_t I = 0> static typename std::enable_if<(I == sizeof...(Ts))>::type with(size_t, F&&) { _exit(70); }
  template <typename I> static void vals(Obs& o, I& it) { for (size_t a = 0; a < N; ++a) with(a, [&](auto i) { constexpr size_t A = decltype(i)::value; o.add(K<T<A>>::from(it.template axisValue<A>())); }); }

  template <typename I> struct GI : It {
    I    it, end;
    GI(I i, I e) : it(i), end(e) {}
    void show(Obs& o) override {
      if (it == end) { o.add(0); return; }
      o.add(1).addn((double)*it);
      vals(o, it);
    }
    void next() override { ++it; }
    void fix(size_t ax, bool v, long x) override {
      with(ax, [&](auto i) { constexpr size_t A = decltype(i)::value; if (v) it.template fixAxisByValue<A>(K<T<A>>::to(x)); else it.template fixAxisByIndex<A>(x); });
    }
    void fixall(It& o) override {
      using A = GI<typename Grid::iterator>;
      using B = GI<typename Grid::const_iterator>;
      if (auto* p = dynamic_cast<A*>(&o)) it.fixAllAxes(p->it); else it.fixAllAxes(dynamic_cast<B&>(o).it);
    }
    void store(Cell& c, long x) { c = (Cell)x; }
    void store(const Cell&, long) { _exit(70); }
    void write(long x) override { store(*it, x); }
    It*  copy() override { return new GI(*this); }
    void assign(It& o) override { it = dynamic_cast<GI&>(o).it; }
    bool eq(It& o, bool ne) override { auto& b = dynamic_cast<GI&>(o).it; return ne ? it != b : it == b; }
    long idx(size_t ax) override { long r = -1; with(ax, [&](auto i) { r = (long)it.template axisIndex<decltype(i)::value>(); }); return r; }
    void rest(Obs& o) override { I k(it); long n = 0; for (; k != end; ++k) { if (++n > LIMIT) throw std::runtime_error("runaway"); o.addn((double)*k); } }
  };

  size_t size() override { return g.size(); }
  size_t axes() override { return Grid::axisNumber(); }
  Any* slice(size_t ax, bool v, long x, bool c) override {
    Any* r = nullptr;
    with(ax, [&](auto i) {
      constexpr size_t A = decltype(i)::value;
      if (c) {   // the constant version gives a constant grid: only looked at through a reference
        const Grid& cg = g;
        auto&& s = v ? cg.template fixAxisByValue<A>(K<T<A>>::to(x)) : cg.template fixAxisByIndex<A>(x);
        (void)s.size();
      }
      r = new G(v ? g.template fixAxisByValue<A>(K<T<A>>::to(x)) : g.template fixAxisByIndex<A>(x));
    });
    return r;
  }
  void showAxes(Obs& o) override {
    for (size_t a = 0; a < N; ++a)
      with(a, [&](auto i) {
        constexpr size_t A = decltype(i)::value;
        auto& ax = g.template getAxis<A>();
        auto& ax2 = std::get<A>(g.getAxesTuple());
        if (!(ax == ax2) || ax.name() != axname(A) || ax2.name() != ax.name()) throw std::runtime_error("axes");
        o.add((long)ax.size());
        size_t n = 0;
        for (auto& x : ax) { o.add(K<T<A>>::from(x)); if (!(ax[n++] == x)) throw std::runtime_error("axis"); }
      });
    o.add((long)g.size());
  }
  template <typename I> void walk(Obs& o, I b, I e) { long n = 0; for (; b != e; ++b) { if (++n > LIMIT) throw std::runtime_error("runaway"); o.addn((double)*b); if ((double)*b.operator->() != (double)*b) throw std::runtime_error("arrow"); vals(o, b); } }
  void all(Obs& o, int how) override { const Grid& c = g; if (how == 0) walk(o, g.begin(), g.end()); else if (how == 1) walk(o, c.begin(), c.end()); else walk(o, g.cbegin(), g.cend()); }
  long at(const std::vector<size_t>& c, int how) override { const Grid& k = g; return num((double)(how & 2 ? callIt(k, c, how & 1, Seq{}) : callIt(g, c, how & 1, Seq{}))); }
  void put(const std::vector<size_t>& c, long x, int how) override { callIt(g, c, how & 1, Seq{}) = (Cell)x; }
  void fill(long x) override { for (auto& c : g) c = (Cell)x; }
  template <typename Tu, size_t... Is> static void tup(Obs& o, const Tu& t, std::index_sequence<Is...>) { long v[] = {(long)std::get<Is>(t)...}; for (long x : v) o.add(x); }
  template <size_t... Is> void infI(Obs& o, const std::vector<long>& c, bool tuple, std::index_sequence<Is...>) {
    if (tuple) tup(o, g.infimum(std::tuple<Ts...>(K<Ts>::to(c[Is])...)), Seq{}); else tup(o, g.infimum(K<Ts>::to(c[Is])...), Seq{});
  }
  void inf(Obs& o, const std::vector<long>& c, bool tuple) override { infI(o, c, tuple, Seq{}); }
  Any* move() override { return new G(std::move(g)); }
  It*  it(int how) override {
    const Grid& c = g;
    if (how == 0) return new GI<typename Grid::iterator>(g.begin(), g.end());
    if (how == 1) return new GI<typename Grid::const_iterator>(c.begin(), c.end());
    return new GI<typename Grid::const_iterator>(g.cbegin(), g.cend());
  }
  template <bool B> typename std::enable_if<B>::type saveI(std::ostream& s, bool text) { if (text) GC::gridExport<boost::archive::text_oarchive>(s, g); else GC::gridBinaryExport(s, g); }
  template <bool B> typename std::enable_if<!B>::type saveI(std::ostream&, bool) { _exit(70); }
  template <bool B> typename std::enable_if<B, Any*>::type loadI(std::istream& s, bool text) { return new G(text ? GC::gridImport<Grid, boost::archive::text_iarchive>(s) : GC::gridBinaryImport<Grid>(s)); }
  template <bool B> typename std::enable_if<!B, Any*>::type loadI(std::istream&, bool) { _exit(70); }
  void save(std::ostream& s, bool text) override { saveI<GC::GridCellManagerTraits<Mgr>::enable_boost_serialize>(s, text); }
  Any* load(std::istream& s, bool text) override { return loadI<GC::GridCellManagerTraits<Mgr>::enable_boost_serialize>(s, text); }
  template <bool B> typename std::enable_if<B>::type fitsOut(const std::string& f, const std::string& n) { GC::gridFitsExport(f, n, g); }
  template <bool B> typename std::enable_if<!B>::type fitsOut(const std::string&, const std::string&) { _exit(70); }
  template <bool B> typename std::enable_if<B, Any*>::type fitsIn(const std::string& f, int i) { return new G(GC::gridFitsImport<Grid>(f, i)); }
  template <bool B> typename std::enable_if<!B, Any*>::type fitsIn(const std::string&, int) { _exit(70); }
  static constexpr bool plain() { return std::is_same<Mgr, std::vector<double>>::value || std::is_same<Mgr, std::vector<int>>::value; }
  void saveF(const std::string& f, const std::string& n) override { fitsOut<plain()>(f, n); }
  Any* loadF(const std::string& f, int i) override { return fitsIn<plain()>(f, i); }
  int  axesN() override { return (int)Grid::axisNumber(); }
  struct Num : boost::static_visitor<long> {
    bool dbl;
    long operator()(double x) const { return dbl ? num(x * 4) : num(x); }
    long operator()(int32_t x) const { return x; }
    long operator()(const std::string& s) const { return s[0] == 'k' ? K<std::string>::from(s) : K<QN>::from(QN(s)); }
    template <typename X> long operator()(const X&) const { return FRAC; }
  };
  void table(Obs& o) override {
    auto t = GC::gridContainerToTable(g);
    auto ci = t.getColumnInfo();
    for (size_t i = 0; i < ci->size(); ++i) o.adds(ci->getDescription(i).name);
    o.add((long)t.size());
    for (auto& r : t) for (size_t i = 0; i < r.size(); ++i) { Num n; n.dbl = i + 1 < r.size(); o.add(boost::apply_visitor(n, r[i])); }
  }
};
// a cell manager that is not a vector
struct Mgr {
  typedef int data_type;
  typedef std::deque<int>::iterator iterator;
  std::deque<int> d;
  explicit Mgr(size_t n) : d(n) {}
  size_t size() const { return d.size(); }
  iterator begin() { return d.begin(); }
  iterator end() { return d.end(); }
  int& operator[](size_t i) { return d[i]; }
};
typedef std::vector<double> VD;
typedef std::vector<int>    VI;
static Any* make(const J& e) {
  const J& kn = e["kn"];
  bool tp = e["tp"].i() != 0;
  switch (e["t"].i()) {
  case 1: return G<VD, double>::make(kn, std::index_sequence_for<double>{}, tp);
  case 2: return G<VD, int, double>::make(kn, std::index_sequence_for<int, double>{}, tp);
  case 3: return G<VI, QN, int, double>::make(kn, std::index_sequence_for<QN, int, double>{}, tp);
  case 4: return G<VD, int, double, std::string, int>::make(kn, std::index_sequence_for<int, double, std::string, int>{}, tp);
  case 5: return G<Mgr, int, int>::make(kn, std::index_sequence_for<int, int>{}, tp);
  case 6: return G<Mgr, double, std::string, int>::make(kn, std::index_sequence_for<double, std::string, int>{}, tp);
  case 7: return G<MgrN, int, QN>::make(kn, std::index_sequence_for<int, QN>{}, tp);
  }
  _exit(70);
}
static std::vector<std::unique_ptr<Any>> H;
static std::vector<std::unique_ptr<It>>  I;
static Any& A(const J& e) { return *H.at(e["g"].u() - 1); }
static It&  B(const J& e, const char* k = "i") { return *I.at(e[k].u() - 1); }
static std::vector<long> longs(const J& j) { std::vector<long> r; for (auto& x : j.a) r.push_back(x.l()); return r; }
template <size_t... Is> static void help(Obs& o, const J& e, std::index_sequence<Is...>) {
  auto sh = e["sh"].sizes(), c = e["c"].sizes();
  auto ax = std::make_tuple(GC::GridAxis<int>("a" + std::to_string(Is), std::vector<int>(sh[Is]))...);
  auto h = GC::makeGridIndexHelper(ax);
  size_t p;
  try { p = h.totalIndexChecked(c[Is]...); } catch (Elements::Exception&) { o.add(0); return; }
  o.add(1).add((long)p).add((long)h.totalIndex(c[Is]...));
  for (size_t a = 0; a < sh.size(); ++a) o.add((long)h.axisIndex(a, p));
}
static Obs step(const J& e) {
  const std::string& op = e["op"].str();
  Obs o;
  if (op == "new") { I.clear(); H.clear(); odd = e["nm"].i() != 0; return o; }
  if (op == "grid") { H.emplace_back(make(e)); o.add((long)H.back()->size()).add((long)H.back()->axes()); return o; }
  if (op == "slice") { auto* p = A(e).slice(e["ax"].u() - 1, e["by"].str() == "v", e["x"].l(), e["c"].i()); H.emplace_back(p); o.add((long)p->size()); return o; }
  if (op == "axes") { A(e).showAxes(o); return o; }
  if (op == "all") { A(e).all(o, e["how"].i()); return o; }
  if (op == "at") { o.add(A(e).at(e["c"].sizes(), e["how"].i())); return o; }
  if (op == "put") { A(e).put(e["c"].sizes(), e["x"].l(), e["how"].i()); return o; }
  if (op == "fill") { A(e).fill(e["x"].l()); return o; }
  if (op == "inf") { A(e).inf(o, longs(e["c"]), e["tp"].i() != 0); return o; }
  if (op == "move") { H.emplace_back(A(e).move()); return o; }
  if (op == "it") { I.emplace_back(A(e).it(e["how"].i())); I.back()->show(o); return o; }
  if (op == "next") { B(e).next(); B(e).show(o); return o; }
  if (op == "fix") { B(e).fix(e["ax"].u() - 1, e["by"].str() == "v", e["x"].l()); B(e).show(o); return o; }
  if (op == "fixall") { B(e).fixall(B(e, "j")); B(e).show(o); return o; }
  if (op == "wr") { B(e).write(e["x"].l()); return o; }
  if (op == "cp") { I.emplace_back(B(e).copy()); I.back()->show(o); return o; }
  if (op == "asg") { B(e).assign(B(e, "j")); B(e).show(o); return o; }
  if (op == "eq") { o.add(B(e).eq(B(e, "j"), false)).add(B(e).eq(B(e, "j"), true)); return o; }
  if (op == "idx") { o.add(B(e).idx(e["ax"].u() - 1)); return o; }
  if (op == "rest") { B(e).rest(o); return o; }
  if (op == "arch") {
    std::stringstream s;
    bool text = e["text"].i() != 0;
    std::vector<Any*> src;
    for (auto g : e["gs"].sizes()) src.push_back(H.at(g - 1).get());
    if (e["text"].i() == 2) {     // FITS
      int n = 0, at = 1;
      CCfits::FITS::forget();
      for (auto* p : src) p->saveF("grid.fits", (n % 2 ? "X_" : "X") + std::to_string(n)), ++n;
      for (auto* p : src) { H.emplace_back(p->loadF("grid.fits", at)); at += 1 + p->axesN(); }
      o.add((long)src.size());
      return o;
    }
    for (auto* p : src) p->save(s, text);
    for (auto* p : src) H.emplace_back(p->load(s, text));
    o.add((long)src.size());
    return o;
  }
  if (op == "table") { A(e).table(o); return o; }
  if (op == "axeq") {
    auto a = longs(e["a"]), b = longs(e["b"]);
    GC::GridAxis<int> x("x", std::vector<int>(a.begin(), a.end()));
    if (e["t"].i()) { GC::GridAxis<double> y("y", std::vector<double>(b.begin(), b.end())); o.add(x == y).add(x != y); }
    else { GC::GridAxis<int> y("y", std::vector<int>(b.begin(), b.end())); o.add(x == y).add(x != y); }
    return o;
  }
  if (op == "help") {
    switch (e["sh"].size()) {
    case 1: help(o, e, std::make_index_sequence<1>{}); break;
    case 2: help(o, e, std::make_index_sequence<2>{}); break;
    case 3: help(o, e, std::make_index_sequence<3>{}); break;
    case 4: help(o, e, std::make_index_sequence<4>{}); break;
    }
    return o;
  }
  _exit(70);
}
int main(int c, char** v) { return run(c, v, step); }
