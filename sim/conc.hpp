// Concurrent runs: schedule planning and the watch over the configuration lock.
#pragma once
#include "world.hpp"

// dry runs of the processes alone, then random preemptions at their points
std::vector<Preempt> planPreempts(Ctx &c, const std::vector<RunSpec> &specs, int max, std::vector<ProcResult> *dry = nullptr);
struct LockWatch {           // who holds the lock file, and who changes files without holding it
  Ctx &c; str busy; std::map<int, str> who; u64 ino = 0; int owner = 0, prevPid = 0; std::vector<int> order; std::vector<str> bad; std::set<int> exempt;
  LockWatch(Ctx &c, const str &busy) : c(c), busy(busy) {}
  void settle();             // account for the effect of the last operation
  void start(); void stop();
};
