#include "harness.hpp"
#include <cstring>
#include <cstdlib>

u32 Draw::n(u32 k) {
  if (k == 0) k = 1;
  if (pos > 3000000) throw Discard{"too many choices"};
  u32 v;
  if (replay) v = pos < ch.size() ? ch[pos] : 0;
  else { state = state + 0x9e3779b97f4a7c15ull; v = (u32)(mix64(state) >> 33) % k; }
  if (v >= k) v %= k;
  if (pos < ch.size()) ch[pos] = v; else ch.push_back(v);
  pos++; return v;
}
u32 Draw::small(u32 max) { if (max == 0) return 0; u32 m = n(8); if (m < 5) return n(std::min(max, 3u) + 1); if (m < 7) return n(std::min(max, 10u) + 1); return n(max + 1); }

const str *(*gKnownMatch)(const Violation &) = nullptr;
static bool hasTag(const std::vector<str> &t, const str &p) { if (p == "*") return true; for (auto &x : t) if (x == p || x == "*") return true; return false; }
void Ctx::fail(const str &tags, const str &cls, const str &msg) {
  Violation v; str t; for (char c : tags + ",") { if (c == ',' || c == ' ') { if (!t.empty()) v.tags.push_back(t); t.clear(); } else t += c; } v.cls = cls; v.msg = msg;
  if (hasTag(v.tags, prop)) throw v;
  if (gKnownMatch && gKnownMatch(v)) throw Foreign{v};
  if (!haveForeign) { haveForeign = true; foreign = v; } if (verbose) log.push_back("  (other property) " + cls + ": " + msg);
}
void Ctx::checkEnd(const ProcResult &r, const RunSpec &s, const str &tags) {
  for (auto &f : r.fired) fired.push_back(f);
  str cmd = s.prog; for (auto &a : s.args) cmd += " " + a;
  const char *w = nullptr;
  switch (r.how) { case H_SEGV: w = "crashed (memory fault)"; break; case H_ABORT: w = "aborted"; break; case H_HANG: w = "did not terminate"; break; case H_HEAP: w = "misused the heap or a file handle"; break; default: break; }
  if (w) fail(tags, str("abnormal-end:") + w, cmd + " " + w + ": " + r.note);
}
static void noteRun(Ctx &c, const RunSpec &s, const ProcResult &r) {
  if (!c.verbose) return; str cmd = s.prog.empty() ? "native actor" : s.prog; for (auto &a : s.args) cmd += " " + a;
  c.log.push_back(sfmt("t=%lld run %s -> %s status %d, %d points, %d allocations", (long long)c.sim.now(), cmd.c_str(), r.how == H_EXIT ? "exit" : r.how == H_KILLED ? "killed" : "abnormal", r.status, r.points, r.allocs));
  for (auto &f : r.fired) c.log.push_back("    fault: " + f);
}
ProcResult Ctx::run(const RunSpec &s, const str &tags) { auto r = sim.run(s); noteRun(*this, s, r); checkEnd(r, s, tags); return r; }
ProcResult Ctx::run(const str &prog, const std::vector<str> &args, const std::vector<Fault> &f, const str &tags) { RunSpec s; s.prog = prog; s.args = args; s.faults = f; return run(s, tags); }
std::vector<ProcResult> Ctx::runAll(const std::vector<RunSpec> &s, const str &tags) { auto r = sim.runAll(s); for (size_t i = 0; i < r.size(); i++) noteRun(*this, s[i], r[i]); for (size_t i = 0; i < r.size(); i++) checkEnd(r[i], s[i], tags); return r; }
ProcResult Ctx::dry(const RunSpec &s) {
  auto sn = sim.snap(); bool v = sim.verbose; sim.verbose = false; sim.record = true; auto op = sim.onPoint; sim.onPoint = nullptr; u64 th = sim.traceHash; size_t nl = sim.syslog.size();
  RunSpec t = s; t.faults.clear(); auto r = sim.run(t); sim.record = false; sim.verbose = v; sim.onPoint = op; sim.restore(sn); sim.traceHash = th; sim.syslog.resize(nl); gStats.dryruns++; return r;
}
std::vector<Fault> Ctx::planFaults(const ProcResult &dr, const FaultMenu &m) {
  std::vector<Fault> out; SPAN(d, "faults"); sim.allowFault = m.allow;
  int k = 1 + (m.maxFaults > 1 ? (int)d.small(m.maxFaults - 1) : 0);
  for (int i = 0; i < k; i++) {
    SPAN(d, "fault");
    FK kind = m.kinds[d.n(m.kinds.size())];
    if (kind == FK_ALLOC || kind == FK_ALLOCSTICKY) { if (dr.allocs) out.push_back({kind, (int)d.n(dr.allocs), 0}); else d.n(1); continue; }
    // choose by (type,path class) first so that rare points are reached, then by position
    std::vector<int> cand; for (size_t j = 0; j < dr.rec.size(); j++) if (fkCompatible(kind, dr.rec[j].type) && !(kind == FK_ERR && dr.rec[j].type == PT_SYSTEM && startsWith(dr.rec[j].path, "wait ")) && (!m.allow || m.allow(kind, dr.rec[j]))) cand.push_back(j);
    if (cand.empty()) continue;
    int pt;
    if (d.n(2) == 0) pt = cand[d.n(cand.size())];
    else {
      std::map<str, std::vector<int>> g; for (int j : cand) { str key = ptName[dr.rec[j].type]; key += ' '; for (char c : dr.rec[j].path) key += isdigit((u8)c) || (c >= 'a' && c <= 'f') ? '#' : c; str k2; for (char c : key) if (!(c == '#' && !k2.empty() && k2.back() == '#')) k2 += c; g[k2].push_back(j); }
      auto it = g.begin(); std::advance(it, d.n(g.size())); pt = it->second[d.n(it->second.size())];
    }
    i64 arg = 0; if (kind == FK_ERR && dr.rec[pt].type == PT_SYSTEM) arg = d.n(60); if (kind == FK_TORN || kind == FK_SHORT) arg = d.n(3) == 0 ? d.n(8) : d.n(4096); if (kind == FK_CLOCK) { static const i64 J[] = {-1, 1, -3600, 3600, -86400, 86400, -400, 7 * 86400}; arg = J[d.n(8)]; }
    out.push_back({kind, pt, arg});
  }
  return out;
}
// names, sizes and times of all files; contents are left out because *.msg headers hold uninitialised bytes of the guest's stack
static u64 simState(Ctx &c) { u64 h = 7; for (auto &p : c.sim.fs.files("/")) { auto n = c.sim.fs.lookup(p); h = mix64(hashStr(p, h) ^ n->data.size() ^ (u64)n->mtime << 20); } return h; }
RunOut runOne(const Profile &p, const str &prop, Draw &d, bool verbose) {
  gTz = 0; gClkMin = gClkMax = 0;
  RunOut o; Ctx c(d); c.prop = prop; c.verbose = verbose; c.sim.verbose = verbose; c.tier = 0; gSim = &c.sim;
  gStats.runs++; d.pos = 0; d.spans.clear();
  try { p.fn(c); }
  catch (Violation &v) { o.violated = true; o.v = v; }
  catch (Foreign &f) { o.foreign = true; o.v = f.v; }
  catch (Discard &x) { o.discarded = true; }
  if (!o.violated && !o.foreign && c.haveForeign) { o.foreign = true; o.v = c.foreign; }
  o.nontrivial = c.nontrivial && !o.discarded; o.hash = mix64(simState(c) ^ c.obs ^ c.sim.traceHash ^ hashStr(o.violated ? o.v.cls + o.v.msg : str())); o.choices.assign(d.ch.begin(), d.ch.begin() + std::min(d.pos, d.ch.size())); o.spans = d.spans; o.log = c.log; o.simSec = c.sim0 > 0 ? std::abs((double)(c.sim.now() - c.sim0)) : 0; gStats.simSeconds += o.simSec;
  if (verbose) o.events = c.sim.trace;
  if (verbose && getenv("DUMP")) for (auto &f : c.sim.fs.files("/bbs")) o.log.push_back("FILE " + f + ": " + esc(c.sim.fs.read(f), 4000));
  for (auto &f : c.fired) o.v.msg += o.violated ? "\n    after fault: " + f : "";
  return o;
}
