#include <memory>
#include <functional>
#include "vsrun.h"
#include "FilePool/FileHandler.h"
#include "FilePool/FileManager.h"
#include "FilePool/LRUFileManager.h"
#include "ElementsKernel/Exception.h"
#include <thread>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/resource.h>
using namespace vsr;
using namespace Euclid::FilePool;
using vd::J;

static std::string base;
static int nfd = 0, nopen = 0;
static std::vector<int> failAt;
static std::vector<std::shared_ptr<LRUFileManager>> mgrs;
static thread_local int curMgr = 0;

static int fileOf(const boost::filesystem::path& p) {   // f<k> is file k, whatever names it
  auto n = boost::filesystem::weakly_canonical(p).filename().native();
  return n.size() == 2 && n[0] == 'f' ? n[1] - '0' : 9;
}
struct OpenFault { };
template <int K> struct Fd {
  int id = -1;
  explicit Fd(int i) : id(i) {}
  Fd(Fd&& o) : id(o.id) { o.id = -1; }
  Fd& operator=(Fd&& o) { id = o.id; o.id = -1; return *this; }
  Fd(const Fd&) = delete;
};
namespace Euclid { namespace FilePool {
template <int K> struct OpenCloseTrait<Fd<K>> {
  static Fd<K> open(const boost::filesystem::path& p, bool write) {
    ++nopen;
    int key = curMgr * 10 + fileOf(p);
    for (int f : failAt) if (f == nopen) { vs::point(); ev("openfail", 0, key); throw OpenFault{}; }
    int id = ++nfd;
    ev("open", id, key, "", write, K);
    vs::point();
    return Fd<K>(id);
  }
  static void close(Fd<K>& fd) { vs::point(); ev("close", fd.id); vs::point(); fd.id = -1; }
};
}}

struct Acc {
  std::unique_ptr<FileAccessor<Fd<0>>> a;
  std::unique_ptr<FileAccessor<Fd<1>>> b;
  int op = 0;
};
struct Direct { FileManager::FileId id; std::unique_ptr<Fd<0>> fd; bool closeable; LRUFileManager* m; };
struct Thr {
  std::map<int, std::shared_ptr<FileHandler>> h;
  std::map<int, int> hk;
  std::map<int, Acc> acc;
};
static std::map<int, std::shared_ptr<Direct>> direct;
static std::map<void*, int> addr;
static int addrOf(void* p) { vs::Quiet q; auto i = addr.find(p); if (i == addr.end()) i = addr.emplace(p, (int)addr.size() + 1).first; return i->second; }

static boost::filesystem::path spell(int file, int how) {
  std::string f = "f" + std::to_string(file);
  switch (how) {
    case 0: return base + "/" + f;
    case 1: return "./" + f;
    case 2: return "d/../" + f;
    case 3: return "l" + std::to_string(file);
    case 4: return base + "/lb/./" + f;
    case 5: return "ld/../" + f;
    case 6: return f;
    case 7: return base + "//d/..//" + f;
    default: return "../" + boost::filesystem::path(base).filename().native() + "/" + f;
  }
}
static int nop = 0;
template <int K> static void get(Thr& me, const J& op, Acc& a, std::unique_ptr<FileAccessor<Fd<K>>>& out, int id) {
  int mode = op[3].i();
  try {
    auto& h = me.h.at(op[2].i());
    out = h->template getAccessor<Fd<K>>(static_cast<FileHandler::Mode>(mode));
    if (out) { a.op = id; ev("got", id, out->m_fd.id, "", out->isReadOnly()); vs::point(); }
    else ev("null", id);
  } catch (const OpenFault&) { ev("thr", id, 0, "open"); }
  catch (const Elements::Exception&) { ev("thr", id, 0, "limit"); }
  catch (...) { ev("thr", id, 0, "other"); }
}
static void ops(const J& prog) {
  Thr me;
  auto rel = [&](int slot) {
    auto i = me.acc.find(slot);
    if (i == me.acc.end()) return;
    if (i->second.a || i->second.b) {
      int id = i->second.op;
      vs::point();
      ev("rel", id);
      i->second.a.reset(); i->second.b.reset();
      ev("relret", id);
    }
    me.acc.erase(i);
  };
  auto drop = [&](int slot) {
    if (!me.h[slot]) return;
    int k = me.hk[slot];
    ev("drop", 0, k, "", addrOf(me.h[slot].get()));
    me.h[slot].reset();
    ev("dropret", 0, k);
  };
  for (auto& op : prog.a) {
    const std::string& k = op[0].str();
    if (k == "geth") {        // slot mgr file spelling
      int key = op[2].i() * 10 + op[3].i(), slot = op[1].i();
      drop(slot);
      ev("geth", 0, key);
      curMgr = op[2].i();
      std::shared_ptr<FileHandler> h;
      try { h = mgrs.at(op[2].i())->getFileHandler(spell(op[3].i(), op[4].i())); }
      catch (...) { ev("geththr", 0, key); continue; }
      me.h[slot] = h; me.hk[slot] = key;
      ev("gethret", 0, key, "", h ? addrOf(h.get()) : -1);
    } else if (k == "has") {  // mgr file spelling
      int key = op[1].i() * 10 + op[2].i();
      ev("has", 0, key);
      bool b = mgrs.at(op[1].i())->hasHandler(spell(op[2].i(), op[3].i()));
      ev("hasret", 0, key, "", b);
    } else if (k == "drop") drop(op[1].i());
    else if (k == "get") {    // aslot hslot mode type
      rel(op[1].i());
      if (!me.h[op[2].i()]) continue;
      int id = ++nop;
      Acc& a = me.acc[op[1].i()];
      curMgr = me.hk[op[2].i()] / 10;
      ev("req", id, me.hk[op[2].i()], "", op[3].i(), op[4].i());
      if (op[4].i() == 0) get<0>(me, op, a, a.a, id); else get<1>(me, op, a, a.b, id);
    } else if (k == "rel") rel(op[1].i());
    else if (k == "mkfile") { std::ofstream(base + "/f" + std::to_string(op[1].i())) << "x"; }
    else if (k == "nap") std::this_thread::sleep_for(std::chrono::milliseconds(1));
    else if (k == "dopen") {  // dslot mgr file write closeable
      int id = ++nop, m = op[2].i(), key = m * 10 + op[3].i(), slot = op[1].i();
      curMgr = m;
      ev("req", id, key, "d", op[4].i(), 0);
      auto d = std::make_shared<Direct>();
      d->closeable = op[5].i(); d->m = mgrs.at(m).get();
      std::weak_ptr<Direct> w = d;
      try {
        auto p = d->m->open<Fd<0>>(spell(op[3].i(), 0), op[4].i(), [w, slot](FileManager::FileId i) {
          auto q = w.lock();
          if (!q || !q->closeable || !q->fd || q->id != i) return false;
          q->m->close(i, *q->fd); q->fd.reset();
          return true; });
        d->id = p.first; d->fd.reset(new Fd<0>(std::move(p.second)));
        direct[slot] = d;
        ev("dgot", id, d->fd->id, "", d->closeable);
      } catch (const OpenFault&) { ev("thr", id, 0, "open"); }
      catch (const Elements::Exception&) { ev("thr", id, 0, "limit"); }
    } else if (k == "dclose" || k == "dused" || k == "dlock" || k == "dfree") {
      auto i = direct.find(op[1].i());
      if (i == direct.end() || !i->second->fd) continue;
      auto d = i->second;
      int fd = d->fd->id;
      if (k == "dused") { d->m->notifyUsed(d->id); ev("dused", fd); }
      else if (k == "dlock") { d->closeable = false; ev("dlock", fd); }
      else if (k == "dfree") { d->closeable = true; ev("dfree", fd); }
      else { ev("dclose", fd); d->m->close(d->id, *d->fd); d->fd.reset(); ev("dcloseret", fd); }
    } else if (k == "closeall") { ev("closeall", 0, op[1].i() * 10); mgrs.at(op[1].i())->closeAll(); ev("closeallret", 0, op[1].i() * 10); }
    else if (k == "used") {
      auto& m = *mgrs.at(op[1].i());
      unsigned u = m.getUsed(), v = m.getAvailable(), l = m.getLimit();
      ev("used", (long)u, op[1].i() * 10, "", (long)(int)v, (long)l);
    } else if (k == "par") {
      std::vector<std::thread> v;
      for (size_t i = 1; i < op.size(); ++i) { const J* p = &op[i]; v.emplace_back([p, i]() { vs::setName(10 + (int)i); ops(*p); }); }
      for (auto& x : v) x.join();
    } else if (k == "mgrdrop") {
      int m = op[1].i();
      ev("mgrdrop", 0, m * 10);
      mgrs.at(m).reset();
      ev("mgrdropret", 0, m * 10);
    } else _exit(70);
  }
  std::vector<int> s;
  for (auto& a : me.acc) s.push_back(a.first);
  for (int i : s) rel(i);
  s.clear();
  for (auto& h : me.h) s.push_back(h.first);
  for (int i : s) drop(i);
}
static long defaultLimit() { struct rlimit r; getrlimit(RLIMIT_NOFILE, &r); return r.rlim_cur > 100000 ? 100000 : (long)r.rlim_cur - 3; }
int main(int c, char** v) {
  { struct rlimit r; getrlimit(RLIMIT_NOFILE, &r); if (r.rlim_cur > 500) { r.rlim_cur = 500; setrlimit(RLIMIT_NOFILE, &r); } }   // a known default limit
  return vsr::main(c, v, [](const J& sc) {
    base = std::string(getenv("VD_SCRATCH")) + "/p" + std::to_string(getpid());
    if (mkdir(base.c_str(), 0700) || chdir(base.c_str())) _exit(70);
    mkdir("d", 0700);
    for (int i = 0; i < 3; ++i) {
      if (i < 2) std::ofstream("f" + std::to_string(i)) << "x";
      if (i < 2 && symlink(("f" + std::to_string(i)).c_str(), ("l" + std::to_string(i)).c_str())) _exit(70);
    }
    if (symlink("d", "ld") || symlink(".", "lb")) _exit(70);
    for (auto& f : sc["fail"].a) failAt.push_back(f.i());
    int m = 0;
    for (auto& l : sc["limits"].a) { ev("mgr", l.i() ? l.i() : defaultLimit(), 10 * m++); mgrs.push_back(std::make_shared<LRUFileManager>(l.i())); }
    ops(sc["prog"]);
    for (auto& d : direct) if (d.second->fd) { ev("dclose", d.second->fd->id); d.second->m->close(d.second->id, *d.second->fd); ev("dcloseret"); }
    ev("quiet");
    for (size_t i = 0; i < mgrs.size(); ++i) mgrs[i].reset();
    ev("fin");
    if (chdir("/")) _exit(70);
    boost::filesystem::remove_all(base);
  });
}
