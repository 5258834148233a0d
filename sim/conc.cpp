#include "conc.hpp"
static str cls(const PointRec &r) { str key = ptName[r.type], k2; key += ' '; for (char c : r.path) key += isdigit((u8)c) || (c >= 'a' && c <= 'f') ? '#' : c; for (char c : key) if (!(c == '#' && !k2.empty() && k2.back() == '#')) k2 += c; return k2; }
std::vector<Preempt> planPreempts(Ctx &c, const std::vector<RunSpec> &specs, int max, std::vector<ProcResult> *dryOut) {
  auto &d = c.d; SPAN(d, "schedule"); std::vector<ProcResult> dr; std::vector<std::map<str, std::vector<int>>> g(specs.size());
  for (size_t i = 0; i < specs.size(); i++) { dr.push_back(c.dry(specs[i])); for (size_t j = 0; j < dr[i].rec.size(); j++) g[i][cls(dr[i].rec[j])].push_back(j); }
  std::vector<Preempt> out; int n = d.n(max + 1); if (specs.size() < 2) n = 0;
  for (int k = 0; k < n; k++) {
    SPAN(d, "preempt"); int i = d.n(specs.size()); if (dr[i].rec.empty()) continue; int pt; if (d.n(2)) { auto it = g[i].begin(); std::advance(it, d.n(g[i].size())); pt = it->second[d.n(it->second.size())]; } else pt = d.n(dr[i].rec.size());
    int to = d.n(specs.size() - 1); if (to >= i) to++; out.push_back({i, pt, to});
  }
  if (dryOut) *dryOut = dr; return out;
}
void LockWatch::settle() {
  auto n = c.sim.fs.lookup(busy); u64 now = n ? n->ino : 0; if (now == ino) return;
  if (ino && owner && prevPid != owner && !exempt.count(prevPid)) bad.push_back(sfmt("process %d (%s) removed or replaced the lock of process %d", prevPid, who[prevPid].c_str(), owner));
  ino = now; owner = now ? prevPid : 0; if (now) order.push_back(prevPid);
}
void LockWatch::start() {
  auto n = c.sim.fs.lookup(busy); ino = n ? n->ino : 0; owner = 0; prevPid = 0;
  c.sim.onPoint = [this](int pid, PT t, const str &path) {
    settle(); prevPid = pid;
    if (!who.count(pid) || exempt.count(pid) || path == busy || path.find(busy) != str::npos) return;
    if (((t == PT_REMOVE || t == PT_OPENU) && !gSim->fs.exists(path)) || (t == PT_MKDIR && gSim->fs.exists(path))) ;
    else if ((t == PT_OPENW || t == PT_WRITE || t == PT_RENAME || t == PT_REMOVE || t == PT_MKDIR || t == PT_TRUNC || t == PT_SYSTEM || t == PT_OPENU) && owner != pid && bad.size() < 3) bad.push_back(sfmt("process %d (%s) does \"%s %s\" while the lock is %s", pid, who[pid].c_str(), ptName[t], path.c_str(), owner ? sfmt("held by process %d (%s)", owner, who[owner].c_str()).c_str() : ino ? "held by another program" : "not held by anyone"));
  };
}
void LockWatch::stop() { settle(); c.sim.onPoint = nullptr; }
