// Runs scenarios (one JSON line each) in forked children under the controlled
// scheduler and concatenates their event logs.
#ifndef VERIF_VSRUN_H
#define VERIF_VSRUN_H
#include "vd.h"
#include "vsched.h"
#include <csignal>
#include <sys/mman.h>
#include <sys/wait.h>
namespace vsr {
inline std::string evs(const char* op, int th, long t, long v, const std::string& s, long x = 0, long y = 0) {
  return std::string("{\"op\":\"") + op + "\",\"th\":" + std::to_string(th) + ",\"t\":" + std::to_string(t) + ",\"v\":" + std::to_string(v) +
         ",\"x\":" + std::to_string(x) + ",\"y\":" + std::to_string(y) + ",\"s\":" + vd::quote(s) + "}";
}
inline void ev(const char* op, long t = 0, long v = 0, const std::string& s = "", long x = 0, long y = 0) {
  vs::Quiet q;
  vs::log(evs(op, vs::name(), t, v, s, x, y));
}

// argv: input output current
inline int main(int argc, char** argv, const std::function<void(const vd::J&)>& f) {
  if (argc < 4) return 70;
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  std::string   line;
  long          no = 0;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    vd::J sc = vd::Parser(line).parse();
    int fd[2];
    if (pipe(fd)) return 70;
    pid_t pid = fork();
    if (pid < 0) return 70;
    if (pid == 0) {
      close(fd[0]);
      int  w = fd[1];
      auto flush = [w](const std::string& s) {
        const char* p = s.data();
        size_t      n = s.size();
        while (n) { ssize_t k = write(w, p, n); if (k <= 0) _exit(70); p += k; n -= k; }
      };
      alarm(40);
      vs::onFail = [&](const std::string& k) { vs::trace += evs(k.c_str(), -1, 0, 0, "") + "\n"; flush(vs::trace); _exit(71); };
      vs::Config c;
      c.seed = sc["seed"].u();
      c.mode = sc["mode"].i();
      c.p = sc["p"].d();
      c.pmem = sc["pmem"].d();
      c.depth = sc["depth"].i();
      c.expect = sc["expect"].l();
      if (sc.has("spurious")) c.spurious = sc["spurious"].d();
      try {
        vs::begin(c);
        vs::setName(0);
        f(sc);
        vs::end();
      } catch (...) {
        vs::trace += evs("escaped", -1, 0, 0, "") + "\n";
      }
      flush(vs::trace);
      _exit(0);
    }
    close(fd[1]);
    std::string tr;
    char        b[65536];
    ssize_t     k;
    while ((k = read(fd[0], b, sizeof b)) > 0) tr.append(b, k);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 70) return 70;
    out << "#" << no++ << "\n" << tr;
    bool failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (WIFSIGNALED(st)) out << evs(WTERMSIG(st) == SIGALRM ? "hang" : "crash", -1, 0, WTERMSIG(st), "") << "\n";
    else if (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 71) out << evs("crash", -1, 0, WEXITSTATUS(st), "") << "\n";
    if (failed) break;
  }
  out.flush();
  return out ? 0 : 70;
}
}  // namespace vsr
#endif
