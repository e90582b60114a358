// Helpers shared by the harnesses.
#ifndef VERIF_HCOMMON_H
#define VERIF_HCOMMON_H
#include "sim.h"
#include <sstream>
#include <memory>
#include <thread>
#include <new>
#include "util/logging.hpp"
#include "util/status.hpp"
#include "util/string_piece.h"

namespace sim { void schedFailCreate(int nth); }

namespace h {
using sim::u64; using sim::u32; using sim::i64;

inline std::string statusText(const jumanpp::Status& s) {
  std::stringstream ss;
  ss << s;
  return ss.str();
}
inline void quiet() { jumanpp::util::logging::CurrentLogLevel = jumanpp::util::logging::Level::None; }

// random scheduling configuration stored in the scenario
inline void genSched(sim::Scenario& s, sim::Rng& r, bool spurious) {
  s.p["strategy"] = (i64)r.pick<i64>({0, 0, 1, 1, 2, 3});
  s.p["sync"] = r.pick<i64>({10, 30, 50, 80});
  s.p["access_ppm"] = r.pick<i64>({0, 2000, 20000, 100000, 400000});
  s.p["pct_depth"] = r.range(1, 6);
  s.p["pct_len"] = r.pick<i64>({200, 1000, 5000, 50000});
  s.p["spurious_ppm"] = spurious && r.chance(1, 2) ? r.pick<i64>({1000, 20000, 200000}) : 0;
}
inline sim::SchedCfg schedCfg(const sim::Scenario& s) {
  sim::SchedCfg c;
  c.strategy = (int)s.get("strategy");
  c.syncNum = (u32)s.get("sync", 50);
  c.accessPpm = (u32)s.get("access_ppm", 20000);
  c.pctDepth = (int)s.get("pct_depth", 3);
  c.pctLen = (u64)s.get("pct_len", 20000);
  c.spuriousPpm = (u32)s.get("spurious_ppm", 0);
  return c;
}
inline void genHeap(sim::Scenario& s, sim::Rng& r) {
  s.p["fill"] = r.pick<i64>({0, 1, 2, 3});
  s.p["reuse"] = r.range(0, 2);
  s.p["pad"] = r.pick<i64>({0, 0, 16, 64, 4096});
}
inline void useHeap(const sim::Scenario& s) {
  sim::HeapCfg c;
  c.fill = (int)s.get("fill");
  c.fillSeed = s.seed + 7;
  c.reuse = (int)s.get("reuse");
  c.pad = (u64)s.get("pad");
  sim::heapConfigure(c);
  sim::pageShift((int)s.get("pages"));
}
inline void genPages(sim::Scenario& s, sim::Rng& r) { s.p["pages"] = r.chance(1, 2) ? r.range(4, 8) : 0; }
inline const char* schedKind(i64 s) {
  static const char* n[] = {"sched.random_walk", "sched.pct", "sched.few_preemptions", "sched.round_robin"};
  return n[s & 3];
}

// a thread owned by the harness; the std::thread object and closure live in the simulated heap
struct Thread {
  std::thread t;
  template <class F> explicit Thread(F f) : t(f) {}
  void join() { t.join(); }
};
}  // namespace h
#endif
