// Controlled scheduler.  While active, every thread of the process runs under a
// token: exactly one thread runs at a time, and at every synchronisation call
// (mutex, rwlock, condition variable, thread creation/join, sleep, yield) -- and,
// for code compiled with -fsanitize=thread, at every shared memory access -- a
// seeded random choice decides who runs next.  Deadlocks and runs that never
// finish are therefore detected, and a run is a function of its seed.
#ifndef VERIF_VSCHED_H
#define VERIF_VSCHED_H
#include <cstdint>
#include <functional>
#include <string>
namespace vs {
struct Config {
  uint64_t seed = 1;
  int      mode = 0;        // 0 random walk, 1 PCT
  double   p = 0.3;         // probability of considering a switch at a point (random walk)
  double   pmem = 0.05;     // same, at a plain memory access
  int      depth = 3;       // PCT change points
  long     expect = 400;    // PCT: expected number of points
  long     max_steps = 400000;
  double   spurious = 0;    // probability that a condition variable wakes up for no reason
};
void begin(const Config& c);                       // the calling thread becomes controlled
void end();                                        // back to normal; all other controlled threads must be done
void point();                                      // explicit scheduling point
bool active();
int  tid();                                        // logical id of the calling thread (0 = the one that called begin)
void setName(int id);                              // give the calling thread an id of the driver's choice
int  name();
struct Quiet { bool was; Quiet(); ~Quiet(); };   // no scheduling points while alive
void log(const std::string& jsonLine);             // append an event
// called when the run cannot continue: kind is "deadlock" or "stuck"
extern std::function<void(const std::string& kind)> onFail;
// called (by the thread itself) before it blocks in sleep, a condition variable or a join
extern std::function<void()> onWait;
extern std::string trace;
uint64_t rnd();
long steps();
}  // namespace vs
#endif
