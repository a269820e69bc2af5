#include "vsrun.h"
#include "AlexandriaKernel/ThreadPool.h"
#include <thread>
using namespace vsr;
using vd::J;
struct TaskError { int t; };
static std::unique_ptr<Euclid::ThreadPool> pool;
static int  ended = 0, submitted = 0;
static bool inDtor = false, dtorWaited = false;
static int  dtorThread = -1, workers = 0;
static std::map<int, J> kids;   // nested tasks

static int me() {
  if (vs::name() == -1) vs::setName(1000 + vs::tid());
  return vs::name();
}
static void submit(const J& op);
static void body(int t, int kind, const J& op) {
  me();
  ev("start", t);
  vs::point();
  if (kind & 2) { vs::point(); vs::point(); vs::point(); }
  if (kind & 4) submit(op[3]);
  if (kind & 8) { ev("queued"); size_t q = pool->queued(); ev("queuedret", 0, (long)q); }
  bool fail = kind & 1;
  ++ended;
  ev("end", t, fail);
  if (fail) throw TaskError{t};
}
static void submit(const J& op) {
  int t = op[1].i(), kind = op[2].i();
  ++submitted;
  ev("submit", t);
  try {
    J o = op;
    pool->submit([t, kind, o]() { body(t, kind, o); });
    ev("subret", t);
  } catch (const TaskError& e) {
    ev("subthrow", t, e.t);
  }
}
static void ops(const J& prog) {
  for (auto& op : prog.a) {
    const std::string& k = op[0].str();
    if (k == "submit") submit(op);
    else if (k == "block") {
      ev("block");
      try { pool->block(); ev("blockret"); }
      catch (const TaskError& e) { ev("blockthrow", e.t); }
      catch (...) { ev("blockthrow", -1); }
    } else if (k == "check") {
      ev("check");
      try { bool b = pool->checkForException(op[1].i()); ev("checkret", 0, b); }
      catch (const TaskError& e) { ev("checkthrow", e.t); }
      catch (...) { ev("checkthrow", -1); }
    }
    else if (k == "queued") { ev("queued"); size_t q = pool->queued(); ev("queuedret", 0, (long)q); }
    else if (k == "running") { ev("running"); size_t q = pool->running(); ev("runningret", 0, (long)std::min<size_t>(q, 1000000)); }
    else if (k == "active") { ev("active"); size_t q = pool->activeThreads(); ev("activeret", 0, (long)std::min<size_t>(q, 1000000)); }
    else if (k == "waitall") { while (ended < submitted) std::this_thread::sleep_for(std::chrono::milliseconds(1)); ev("allended"); }
    else if (k == "nap") std::this_thread::sleep_for(std::chrono::milliseconds(1));
    else if (k == "par") {   // run the given programs in parallel threads
      std::vector<std::thread> v;
      for (size_t i = 1; i < op.size(); ++i) { const J* p = &op[i]; v.emplace_back([p, i]() { vs::setName(10 + (int)i); ops(*p); }); }
      for (auto& x : v) x.join();
    } else _exit(70);
  }
}
int main(int c, char** v) {
  return vsr::main(c, v, [](const J& sc) {
    int n = sc["n"].i();
    vs::onWait = []() { if (inDtor && !dtorWaited && vs::name() == dtorThread) { dtorWaited = true; ev("dtorwait"); } };
    ev("new", 0, n);
    pool.reset(new Euclid::ThreadPool(n, 1));
    ops(sc["prog"]);
    dtorThread = vs::name();
    ev("dtor");
    inDtor = true;
    Euclid::ThreadPool* p = pool.get();
    p->~ThreadPool();
    inDtor = false;
    ev("dtorret");
    operator delete(pool.release());
    ev("fin");
  });
}
