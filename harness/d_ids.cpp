#include "vsrun.h"
#include "Configuration/Utils.h"
#include <dlfcn.h>
#include <thread>
#include <time.h>
using namespace vsr;
using vd::J;
static bool scripted = false;
static std::vector<long> steps;
static size_t at = 0;
static long now = 1600000000000000L;
extern "C" int clock_gettime(clockid_t c, struct timespec* t) noexcept {
  static int (*real)(clockid_t, struct timespec*) = (int (*)(clockid_t, struct timespec*))dlsym(RTLD_NEXT, "clock_gettime");
  if (!scripted) return real(c, t);
  vs::point();
  now += at < steps.size() ? steps[at++] : 1;
  t->tv_sec = now / 1000000; t->tv_nsec = now % 1000000 * 1000;
  return 0;
}
int main(int c, char** v) {
  return vsr::main(c, v, [](const J& sc) {
    for (auto& x : sc["clock"].a) steps.push_back(x.l());
    std::map<long, int> seen;
    ev("new");
    scripted = true;
    std::vector<std::thread> ts;
    int n = 0;
    for (auto& k : sc["threads"].a) {
      int m = k.i(), id = ++n;
      ts.emplace_back([m, id, &seen]() {
        vs::setName(id);
        for (int i = 0; i < m; ++i) {
          long x = Euclid::Configuration::getUniqueManagerId();
          vs::Quiet q;
          int d = seen.emplace(x, (int)seen.size()).first->second;
          ev("id", 0, d);
        }
      });
    }
    for (auto& t : ts) t.join();
    scripted = false;
    ev("fin");
  });
}
