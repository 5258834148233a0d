#include "faulted.hpp"
#include <cstring>

void FaultedWorld::removeStale() { for (auto &f : c.sim.fs.files("/bbs")) if (endsWith(f, ".busy") || endsWith(f, ".bsy")) c.sim.fs.del(f); }
Outbound FaultedWorld::look(const str &when, bool afterKill) {
  Outbound o = readOutbound(c.sim.fs, w.cfg, w.universe);
  for (auto &p : o.problems) { if (startsWith(p, "unexpected file in outbound") && (endsWith(p, ".tmp") || endsWith(p, ".bsy"))) { if (afterKill || anyKill) continue; if (endsWith(p, ".tmp")) continue; } c.fail("C08,C01,C18,C07", "outbound", when + ": " + p); }
  return o;
}
void FaultedWorld::take(const Addr &a) { std::vector<WireMsg> g; Outbound o = readOutbound(c.sim.fs, w.cfg, {a}); for (auto &kv : o.nodes[a].files) for (auto &x : kv.second) if (c.sim.fs.exists(x.path)) takenFiles.insert({a, c.sim.fs.read(x.path)}); w.mailerTakes(nullptr, a, &g); for (auto &x : g) taken.push_back({a, x}); }
FaultMenu FaultedWorld::menu() {
  FaultMenu fm; fm.kinds = {FK_KILL, FK_ERR, FK_KILL, FK_FULL, FK_TORN, FK_SHORT, FK_SIGINT, FK_ERR, FK_KILL, FK_ALLOC, FK_ALLOCSTICKY, FK_CLOCK}; fm.maxFaults = 3;
  fm.allow = [](FK k, const PointRec &p) { return !(k == FK_ERR && (p.type == PT_READ || (p.type == PT_SYSTEM && p.path.find("simexec") != str::npos) || startsWith(p.path, "/bbs/list") || startsWith(p.path, "/bbs/afix.help") || (p.type == PT_CHDIR && p.path == "/bbs") || (p.type == PT_REMOVE && (endsWith(p.path, ".newpkt") || endsWith(p.path, ".pkttmp") || endsWith(p.path, ".msg"))))); };
  return fm;
}
ProcResult FaultedWorld::faultedRun(const std::vector<str> &args, const str &tags) {
  RunSpec s; s.prog = "crashmail"; s.args = args; auto dr = c.dry(s); s.faults = c.planFaults(dr, menu()); int pid = c.sim.nextPid; auto res = c.run(s, tags);
  for (auto &x : res.fired) { anyFault = true; if (!startsWith(x, "kill") && !startsWith(x, "torn") && !startsWith(x, "ctrl-c") && !startsWith(x, "clock")) errFault = true; if (x.find("simunzip") != str::npos) unpackFault = true; if (x.find(".jhr") != str::npos || x.find(".jdt") != str::npos || x.find(".jdx") != str::npos || x.find(".jlr") != str::npos || startsWith(x, "disk-full")) killed.insert(-1); /* the active message count may be behind */ }
  if (res.how == H_KILLED) { killed.insert(pid); anyKill = true; }
  else {
    if (c.sim.fs.exists("/bbs/crashmail.prefs.busy")) { bool rmErr = false; for (auto &x : res.fired) if (x.find("(remove") != str::npos && x.find(".busy") != str::npos) rmErr = true; if (!rmErr) c.fail("C09,C18", "lock-left", "configuration lock left after a run that ended with status " + sfmt("%d", res.status)); }
    for (auto &x : c.sim.fs.files("/bbs")) if (endsWith(x, ".bsy")) { bool rmErr = false; for (auto &y : res.fired) if (y.find("(remove") != str::npos && y.find(".bsy") != str::npos) rmErr = true; if (!rmErr) c.fail("C08,C18", "bsy-left", "system lock " + x + " left after a run that ended by itself"); }
  }
  return res;
}
void FaultedWorld::pending(Outbound &o, const str &tags) {
  bool noOrphan = false; for (auto &x : c.fired) noOrphan |= startsWith(x, "disk-full") || x.find(".orphan") != str::npos || x.find("simzip ") != str::npos;   // the packet itself is kept then and packed again
  for (auto &p : o.pending) { if (rmFailed(p) || (anyKill && endsWith(p, ".orphan") && c.sim.fs.read(p).find('\n') == str::npos)) continue; if ((anyKill || noOrphan) && !endsWith(lower(p), ".pkttmp") && !endsWith(lower(p), ".newpkt") && !endsWith(lower(p), ".orphan")) continue; c.fail(tags, "pending", "file " + p + " is still not queued after the recovery run"); }
}
void FaultedWorld::queue(Outbound &o, std::vector<QMsg> &must, std::vector<QMsg> &may, const std::set<str> &excused, const std::set<str> &skip, const str &xt) {
  std::map<std::pair<Addr, str>, std::vector<WireMsg>> got; for (auto &t : taken) got[{t.first, keyOf(t.second.m.subj, t.second.m.text)}].push_back(t.second);
  for (auto &n : o.nodes) { for (auto &kv : n.second.ut) for (auto x : kv.second) { x.form = kv.first; got[{n.first, keyOf(x.m.subj, x.m.text)}].push_back(x); } for (auto &kv : n.second.flow) for (auto x : kv.second) { x.form = toupper(kv.first); got[{n.first, keyOf(x.m.subj, x.m.text)}].push_back(x); } }
  for (auto &q : must) if (!got.count({q.dest, q.uid}) && !excused.count(q.uid.substr(0, 8)) && !skip.count(q.uid)) c.fail("C01,C18" + str(q.area.empty() ? "" : ",C04") + xt, "lost", describe(q) + " was never queued although its source is gone");
  std::map<std::pair<Addr, str>, std::vector<const QMsg *>> allow; for (auto &q : may) allow[{q.dest, q.uid}].push_back(&q); for (auto &q : must) allow[{q.dest, q.uid}].push_back(&q);
  // flow letter in capitals, letter of a netmail packet in small ones; 0: a mailer took it
  auto channel = [&](const QMsg &q) -> char { if (q.type != 'E') return q.type == 'N' ? 'o' : tolower(q.type); int cn = w.cfg.findNode(q.dest); char p = cn >= 0 ? w.cfg.nodes[cn].pri : 'N'; return p == 'N' ? 'F' : toupper(p); };
  for (auto &g : got) {
    if (skip.count(g.first.second)) continue;
    auto it = allow.find(g.first); if (it == allow.end()) { c.fail("C01,C18,C02,C06" + xt, "foreign", "queue of " + g.first.first.s() + " holds " + describe(g.second[0]) + " which should not be there"); continue; }
    for (auto &x : g.second) { str df; bool okc = false; for (auto q : it->second) { df = diffQueued(*q, x, false); if (df.empty()) { okc = true; break; } } if (!okc) c.fail("C01,C03,C18" + xt, "content", describe(*it->second[0]) + ": " + df); bool okf = !x.form; for (auto q : it->second) okf |= channel(*q) == x.form; if (!okf) c.fail("C08,C06,C18,C01" + xt, "flavour", describe(*it->second[0]) + sfmt(" is queued as '%c' instead of '%c'", x.form, channel(*it->second[0]))); }
  }
}
void FaultedWorld::attached(Outbound &o, const std::vector<Attach> &at, const std::set<str> &excused) {
  for (auto &a : at) {
    str leaf = a.path.substr(a.path.rfind('/') + 1), uid = leaf.substr(0, leaf.find('.')); if (!a.have || !startsWith(leaf, "UID") || excused.count(uid) || takenFiles.count({a.dest, a.data})) continue;
    int n = 0; str where; for (auto &kv : o.nodes[a.dest].files) for (auto &x : kv.second) if (c.sim.fs.exists(x.path) && c.sim.fs.read(x.path) == a.data) { n++; where += sfmt(" %clo", kv.first); if (kv.first != a.ch) c.fail("C08,C06,C18", "attach-flavour", "file " + leaf + " for " + a.dest.s() + sfmt(" is queued in the %clo file instead of the %clo file", kv.first, a.ch)); }
    if (!n) c.fail("C01,C06,C08,C18", "attach-lost", "file " + leaf + " which a netmail for " + a.dest.s() + " brought is not queued, although the netmail is gone");
  }
}
