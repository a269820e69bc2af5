LRU = "FilePool/src/lib/LRUFileManager.cpp"
FPS = ["FilePool/src/lib/FileHandler.cpp", "FilePool/src/lib/FileManager.cpp", LRU]
FPH = r'''
#include <memory>
#include <map>
#include <cstdio>
#include <fstream>
#include "FilePool/FileHandler.h"
#include "FilePool/FileManager.h"
#include "FilePool/LRUFileManager.h"
using namespace Euclid::FilePool;
struct Fd { int id; };
static std::map<int, std::string> openf; static int n = 0;
namespace Euclid { namespace FilePool { template <> struct OpenCloseTrait<Fd> {
  static Fd open(const boost::filesystem::path& p, bool) { openf[++n] = p.filename().native(); return Fd{n}; }
  static void close(Fd& f) { openf.erase(f.id); } }; } }
static bool has(const char* f) { for (auto& p : openf) if (p.second == f) return true; return false; }
'''
SEEDS = [
  dict(id="tp-wait-once", property="P02", needs="block() or the destructor called while a task runs longer than one polling interval",
       breaks="block() returns, and the pool is destroyed, while a task is still being executed",
       edits=[("AlexandriaKernel/src/lib/ThreadPool.cpp", "    while (!flag) {\n      std::this_thread", "    if (!flag) {\n      std::this_thread")],
       srcs=["AlexandriaKernel/src/lib/ThreadPool.cpp"], demo=r'''
#include "AlexandriaKernel/ThreadPool.h"
#include <atomic>
#include <thread>
int main() {
  std::atomic<int> done{0};
  Euclid::ThreadPool p(2, 5);
  for (int i = 0; i < 2; ++i) p.submit([&done]() { std::this_thread::sleep_for(std::chrono::milliseconds(400)); ++done; });
  p.block();
  int d = done;
  while (done < 2) std::this_thread::sleep_for(std::chrono::milliseconds(50));
  return d == 2 ? 0 : 1; }
'''),
  dict(id="fp-mru", property="P04", needs="a file reused after another one was opened, then the limit reached",
       breaks="the LRU manager closes the most recently used file instead of the least recently used one",
       edits=[(LRU, "  m_sorted_ids.emplace_back(std::move(ptr));\n  m_current_pos[id] = m_sorted_ids.end();\n  --m_current_pos[id];",
               "  m_sorted_ids.emplace_front(std::move(ptr));\n  m_current_pos[id] = m_sorted_ids.begin();")],
       srcs=FPS, flags="-include memory", demo=FPH + r'''
int main() {
  for (auto f : {"a", "b", "c"}) std::ofstream(f) << "x";
  auto m = std::make_shared<LRUFileManager>(2);
  auto a = m->getFileHandler("a"), b = m->getFileHandler("b"), c = m->getFileHandler("c");
  for (auto& h : {a, b, a}) h->getAccessor<Fd>(FileHandler::kRead);
  c->getAccessor<Fd>(FileHandler::kRead);
  return has("a") && !has("b") && has("c") ? 0 : 1; }
'''),
  dict(id="fp-close-leak", property="P04", needs="an idle descriptor evicted to make room (or closeAll)",
       breaks="a file whose idle descriptor is evicted is forgotten without being closed",
       edits=[("FilePool/src/lib/FileHandler.cpp", "  iter->second->close();\n", "")],
       srcs=FPS, flags="-include memory", demo=FPH + r'''
int main() {
  for (auto f : {"a", "b"}) std::ofstream(f) << "x";
  auto m = std::make_shared<LRUFileManager>(4);
  auto a = m->getFileHandler("a"), b = m->getFileHandler("b");
  a->getAccessor<Fd>(FileHandler::kRead); b->getAccessor<Fd>(FileHandler::kRead);
  m->closeAll();
  return openf.empty() ? 0 : 1; }
'''),
  dict(id="fp-has-unshared", property="P05", needs="a handler with a single reference",
       breaks="hasHandler() denies a handler that only one user holds",
       edits=[("FilePool/src/lib/FileManager.cpp", "  return iter != m_handlers.end();", "  return iter != m_handlers.end() && iter->second.use_count() > 1;")],
       srcs=FPS, flags="-include memory", demo=FPH + r'''
int main() {
  std::ofstream("a") << "x";
  auto m = std::make_shared<LRUFileManager>(4);
  auto a = m->getFileHandler("a");
  return m->hasHandler("a") ? 0 : 1; }
'''),
  dict(id="fp-stale-handler", property="P05", needs="a handler released and asked for again", 
       breaks="after a handler was released and re-created, a further request creates a second handler for the same file",
       edits=[("FilePool/src/lib/FileManager.cpp", "    m_handlers[canonical] = handler_ptr;", "    m_handlers.emplace(canonical, handler_ptr);"),
              ("FilePool/src/lib/FileManager.cpp", "            this_shared->m_handlers.erase(iter);", "            iter->second.reset();")],
       srcs=FPS, flags="-include memory", demo=FPH + r'''
int main() {
  std::ofstream("a") << "x";
  auto m = std::make_shared<LRUFileManager>(4);
  m->getFileHandler("a");
  auto a = m->getFileHandler("a"), b = m->getFileHandler("a");
  return a == b ? 0 : 1; }
'''),
  dict(id="nd-unravel-limit", property="P08", needs="an index beyond the array by less than its first dimension times its size",
       breaks="unravel_index accepts some indexes beyond the array",
       edits=[("NdArray/src/Operations.cpp", "  if (index > 0) {", "  if (index > shape.size()) {")],
       srcs=["NdArray/src/Operations.cpp"], demo=r'''
#include "NdArray/Operations.h"
#include <stdexcept>
int main() {
  for (std::size_t i = 24; i < 100; ++i)
    try { Euclid::NdArray::unravel_index(i, {2, 3, 4}); return 1; } catch (const std::out_of_range&) {}
  return 0; }
'''),
]
