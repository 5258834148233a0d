// Shared parts of the profiles that run the tosser under faults and then let it recover.
#pragma once
#include "world.hpp"

struct FaultedWorld {
  Ctx &c; World &w; std::set<int> killed; bool anyKill = false, anyFault = false, unpackFault = false, errFault = false; std::vector<std::pair<Addr, WireMsg>> taken; std::set<std::pair<Addr, str>> takenFiles;
  FaultedWorld(World &w) : c(w.c), w(w) {}
  void removeStale();                                         // what the operator removes after a kill
  Outbound look(const str &when, bool afterKill);             // structure of the outbound at a moment when no program runs
  void take(const Addr &a);                                   // a mailer takes everything queued for a system
  FaultMenu menu();
  ProcResult faultedRun(const std::vector<str> &args, const str &crashTags);   // one run with planned faults, and the checks on how it ended
  void pending(Outbound &o, const str &tags);                 // nothing waits for packing any more
  bool rmFailed(const str &p) { for (auto &x : c.fired) if (x.find("(remove " + p) != str::npos) return true; return false; }
  void attached(Outbound &o, const std::vector<Attach> &a, const std::set<str> &excused);   // attached files are queued or sent
  // everything of 'must' was queued at least once, nothing but 'may' was
  void queue(Outbound &o, std::vector<QMsg> &must, std::vector<QMsg> &may, const std::set<str> &excused, const std::set<str> &skip, const str &tags);
};
