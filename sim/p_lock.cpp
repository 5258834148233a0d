// Several instances on one configuration: mutual exclusion, waiting, Ctrl-C while waiting, LOCK/UNLOCK, start-up failures, killed holders.
#include "bases.hpp"
#include "conc.hpp"
#include "faulted.hpp"
static const str BUSY = "/bbs/crashmail.prefs.busy";

static void lockP(Ctx &c) {
  auto &d = c.d; startWorld(c); World w(c); w.genConfig(GO_NETMAIL | GO_AUTOADD); for (auto &a : w.cfg.areas) a.flags &= ~F_UNCONFIRMED; w.install(); c.sim.fs.mkdirs("/bbs/in2"); Model m(w.cfg); c.note("configuration:\n" + w.cfg.text()); FaultedWorld f(w);
  static const i64 TICK[] = {50, 50, 2000, 20000, 200000}; c.sim.tickUs = TICK[d.n(5)];
  std::vector<int> areas; for (size_t i = 0; i < w.cfg.areas.size(); i++) { auto &a = w.cfg.areas[i]; if (a.base != B_NONE && (a.kind == K_ECHO || a.kind == K_NETMAIL)) areas.push_back(i); }
  int mode = d.n(6); if (mode > 3) mode = 0;
  std::vector<Round> rounds(2); auto arrive = [&](int k) { rounds[k] = w.genRound(2); rounds[k].nosec = false; if (k == 1) for (auto &x : rounds[k].files) c.sim.fs.mv("/bbs/in/" + x.name, "/bbs/in2/" + x.name); };
  arrive(1); arrive(0); if (!areas.empty()) { int n = d.n(3); for (int i = 0; i < n; i++) writeLocal(w, areas[d.n(areas.size())], true); }
  auto settings = [&](std::vector<str> a) { int k = d.n(4); if (k == 1) { a.push_back("SETTINGS"); a.push_back("crashmail.prefs"); } else if (k == 2) { a.push_back("SETTINGS"); a.push_back("/bbs/crashmail.prefs"); } RunSpec s; s.prog = "crashmail"; s.args = a; return s; };
  std::vector<std::vector<str>> cmds{{"TOSS"}, {"TOSSDIR", "/bbs/in2"}, {"SCAN"}};
  LockWatch L(c, BUSY); bool keeps = false;   // the lock was taken by the LOCK command
  auto finish = [&](std::vector<ProcResult> &r) { L.stop(); for (auto &b : L.bad) c.fail("C09", "exclusion", b); for (auto &x : r) if (!keeps && x.how == H_EXIT && c.sim.fs.exists(BUSY)) { bool err = false; for (auto &y : r) for (auto &z : y.fired) if (z.find(".busy") != str::npos) err = true; bool alive = false; for (auto &y : r) alive |= y.how != H_EXIT; if (!err && !alive) c.fail("C09,C18", "lock-left", "configuration lock left after all runs ended by themselves"); } };
  if (mode == 0) {
    BaseState pre = baseState(w, m, ""); std::vector<std::pair<int, ExpMsg>> exps; for (int ai : areas) { if (w.cfg.areas[ai].kind == K_NETMAIL && w.cfg.has("NOEXPORTNETMAIL")) continue; std::vector<ExpMsg> v; str err; loadExport(w, ai, false, v, err); for (auto &e : v) if (e.exportable) exps.push_back({ai, e}); }
    std::vector<RunSpec> specs; std::vector<int> kind; int n = 2 + d.n(2); for (int i = 0; i < n; i++) { int k = d.n(3); kind.push_back(k); specs.push_back(settings(cmds[k])); }
    c.sim.preempts = planPreempts(c, specs, 8); int pid0 = c.sim.nextPid; for (int i = 0; i < n; i++) L.who[pid0 + i] = specs[i].args[0]; L.start(); auto r = c.runAll(specs, "C09,C18"); finish(r); c.sim.preempts.clear();
    for (int i = 0; i < n; i++) if (r[i].how != H_EXIT || r[i].status) c.fail("C09,C18", "exit", sfmt("instance %d ended with status %d: ", i, r[i].status) + esc(r[i].out, 300));
    if ((int)L.order.size() != n) c.fail("C09", "no-lock", sfmt("%d instances ran but the lock was taken %zu times", n, L.order.size()));
    std::set<int> did, kinds(kind.begin(), kind.end()); std::map<int, AreaMarks> marks;
    for (int pid : L.order) { int i = pid - pid0; if (i < 0 || i >= n) continue; int k = kind[i]; c.note(sfmt("  instance %d (%s) held the lock", i, specs[i].args[0].c_str())); if (!did.insert(k).second) continue; m.now = c.sim.now(); if (k == 2) for (auto &x : exps) { (x.second.kill ? marks[x.first].killed : marks[x.first].sent).insert(x.second.num); MM t = x.second.m; m.handle(t); } else w.modelRound(m, rounds[k]); }
    c.nontrivial = L.order.size() > 1; cmpQueue(w, m, ",C09"); cmpEvolution(w, m, pre, marks, ",C09");
    // afterwards everything is in place and the areas of both are known
    if (kinds.count(0)) for (auto &x : c.sim.fs.list("/bbs/in")) { size_t p = x.find(".bad"); if (p == str::npos) c.fail("C09,C01", "inbound-left", "file " + x + " is left in inbound"); }
    std::vector<str> lines = splitLines(c.sim.fs.read("/bbs/crashmail.prefs"), '\n'); for (int ai : m.autoAdded) { bool have = false; str q; for (char x : w.cfg.areas[ai].tag) { if (x == '"' || x == '\\') q += '\\'; q += x; } for (auto &l : lines) if (startsWith(l, "AREA \"" + q + "\"") || startsWith(l, "AREA " + w.cfg.areas[ai].tag + " ")) have = true; if (!have) c.fail("C09,C14", "lost-update", "area " + w.cfg.areas[ai].tag + " created by one instance is not in the configuration file at the end"); }
  } else if (mode == 1) {   // locked by the LOCK command: a run waits until UNLOCK, or until Ctrl-C
    auto r0 = c.run("crashmail", {"LOCK"}, {}, "C09"); if (r0.status || !c.sim.fs.exists(BUSY)) c.fail("C09", "lock-cmd", "LOCK did not lock the configuration"); c.nontrivial = true;
    if (d.n(2)) {
      std::vector<RunSpec> specs{settings(cmds[d.n(2)]), settings({"UNLOCK"})}; if (d.n(3) == 1) specs.push_back(settings(cmds[2])); int n = specs.size(), pid0 = c.sim.nextPid; for (int i = 0; i < n; i++) L.who[pid0 + i] = specs[i].args[0]; L.exempt.insert(pid0 + 1);
      std::vector<Preempt> pp; int k = d.n(4); for (int i = 0; i < k; i++) pp.push_back({(int)d.n(n), (int)d.n(12), (int)d.n(n)}); c.sim.preempts = pp; L.start(); auto r = c.runAll(specs, "C09,C18"); finish(r); c.sim.preempts.clear();
      for (auto &x : r) if (x.how != H_EXIT || x.status) c.fail("C09,C18", "exit", sfmt("an instance ended with status %d: ", x.status) + esc(x.out, 300));
    } else {
      RunSpec s = settings(cmds[d.n(3)]); s.faults = {{FK_SIGINT, (int)(2 + d.n(40)), 0}}; int pid0 = c.sim.nextPid; L.who[pid0] = s.args[0]; u64 h = c.sim.fs.hash(); keeps = true; L.start(); auto r = c.runAll({s}, "C09,C18"); finish(r); if (r[0].how != H_EXIT || !r[0].status) c.fail("C09", "exit", sfmt("Ctrl-C while waiting for the lock: status %d", r[0].status)); if (!c.sim.fs.exists(BUSY)) c.fail("C09", "foreign-lock-removed", "a run interrupted while waiting removed the lock of another"); if (c.sim.fs.hash() != h) c.fail("C09", "changed", "a run that never got the lock changed files"); }
  } else if (mode == 2) {   // every ending but a kill releases the lock
    int k = d.n(6); str txt = w.cfg.text(); if (k == 1) txt += "NOSUCHKEYWORD 1\n"; else if (k == 2) txt = "SYSOP \"x\"\n"; else if (k == 3) { txt += "ROUTE\n"; } if (k != 4) c.sim.fs.put("/bbs/crashmail.prefs", txt); else c.sim.fs.del("/bbs/crashmail.prefs"); if (k == 5) { static const char *D[] = {"/bbs/in", "/bbs/packets", "/bbs/temp", "/bbs/create"}; str dd = D[d.n(4)]; for (auto &x : c.sim.fs.files(dd)) c.sim.fs.del(x); c.sim.fs.del(dd); }
    RunSpec s = settings(cmds[d.n(3)]); auto dr = c.dry(s); FaultMenu fm = f.menu(); fm.kinds = {FK_ERR, FK_ALLOC, FK_ALLOCSTICKY, FK_SIGINT, FK_FULL, FK_ERR, FK_SHORT}; fm.maxFaults = 2; if (d.n(3)) s.faults = c.planFaults(dr, fm); int pid0 = c.sim.nextPid; L.who[pid0] = s.args[0]; L.start(); auto r = c.runAll({s}, "C09,C18,C05"); finish(r); c.nontrivial = true;
  } else {                  // a holder is killed; the operator removes the lock later
    int n = 2 + d.n(2); std::vector<RunSpec> specs; for (int i = 0; i < n; i++) specs.push_back(settings(cmds[d.n(3)])); std::vector<ProcResult> dr; c.sim.preempts = planPreempts(c, specs, 6, &dr); int v = d.n(n); if (!dr[v].rec.empty()) specs[v].faults = {{FK_KILL, (int)d.n(dr[v].rec.size()), 0}};
    int pid0 = c.sim.nextPid; for (int i = 0; i < n; i++) L.who[pid0 + i] = specs[i].args[0]; RunSpec op; op.native = [&c, &L, pid0, v] { for (int i = 0; i < 50; i++) { sys::sleep(60); bool dead = L.owner == pid0 + v; (void)c; if (dead && sys::exists(BUSY) && L.owner == pid0 + v) { sys::remove(BUSY); return; } } }; specs.push_back(op); L.exempt.insert(pid0 + n); c.sim.tickUs = 50; L.start(); auto r = c.runAll(specs, "C09,C18"); finish(r); c.sim.preempts.clear(); c.nontrivial = true;
    for (int i = 0; i < n; i++) if (i != v && (r[i].how != H_EXIT || r[i].status)) c.fail("C09,C18", "exit", sfmt("instance %d ended with status %d: ", i, r[i].status) + esc(r[i].out, 300));
    f.anyKill = true; f.removeStale(); auto res = c.run("crashmail", {"TOSS"}, {}, "C09,C18"); if (res.how != H_EXIT || res.status) c.fail("C18,C09", "recovery-exit", sfmt("the run after the kill ended with status %d", res.status));
  }
}
void regLock() { gProfiles.push_back({"lock", lockP}); }
