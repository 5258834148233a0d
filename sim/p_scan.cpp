// Exporting locally written mail from message bases: fault-free histories, rescans, and scans under faults with recovery.
#include "bases.hpp"
#include "faulted.hpp"
#include "filt.hpp"
#include <cstring>

static void scanConfig(World &w, unsigned opts) {
  auto &d = w.c.d; w.genConfig(opts); for (auto &a : w.cfg.areas) { a.flags &= ~F_UNCONFIRMED; if (a.base == B_NONE && a.kind == K_ECHO && d.n(3)) { a.base = d.n(2) ? B_JAM : B_MSG; a.path = sfmt("base/p%d", (int)(&a - &w.cfg.areas[0])); } }
  static const char *SW[] = {"ALLOWKILLSENT", "ADDTID", "MSG_WRITEBACK", "NOEXPORTNETMAIL"}; static const int P[] = {2, 3, 5, 12}; for (int i = 0; i < 4; i++) if (d.n(P[i]) == 1) w.cfg.sw.insert(SW[i]);
}
// areas that SCAN covers, in order
static std::vector<int> scanned(World &w) { std::vector<int> r; for (size_t i = 0; i < w.cfg.areas.size(); i++) { auto &a = w.cfg.areas[i]; if (a.base == B_NONE || (a.kind != K_ECHO && a.kind != K_NETMAIL) || (a.kind == K_NETMAIL && w.cfg.has("NOEXPORTNETMAIL"))) continue; r.push_back(i); } return r; }
static void attachModel(World &w, Model &m) { m.attachHook = [&w, &m](const str &f, const Addr &dst, char type, bool exported) { auto &fs = w.c.sim.fs; Attach x; x.dest = dst; x.ch = type == 'N' ? 'f' : tolower(type); str p = Vfs::norm("/bbs", f); str cp = "/bbs/packets/" + p.substr(p.rfind('/') + 1); bool taken = fs.exists(cp); for (auto &y : m.attach) if (y.path == cp) taken = true; if (exported) { if (!taken && fs.get(p, x.data)) { x.path = "/bbs/packets/" + p.substr(p.rfind('/') + 1); x.prefix = '^'; x.have = true; } else { x.path = p; x.prefix = 0; } } m.attach.push_back(x); }; }
static void scanWith(Ctx &c, bool filters) {
  auto &d = c.d; startWorld(c); World w(c); scanConfig(w, GO_NETMAIL | (filters ? 0 : GO_ATTACH) | (d.n(3) == 1 ? GO_JAM : 0)); bool maint = d.n(4) == 1; w.packed = maint; if (maint && d.n(2)) w.cfg.sw.insert("JAM_HIGHWATER"); if (maint) for (auto &a : w.cfg.areas) if (a.base != B_NONE && a.kind != K_DEFAULT && d.n(3)) a.keepNum = 1 + d.n(5);
  Filters fl(w); if (filters) { c.sim.fs.mkdirs("/tmp"); fl.gen("EXPORTED"); w.smallAlphabet = true; } w.install(); Model m(w.cfg); attachModel(w, m); if (filters) fl.attach(m); c.note("configuration:\n" + w.cfg.text()); auto areas = scanned(w); std::vector<int> bases; for (size_t i = 0; i < w.cfg.areas.size(); i++) if (w.cfg.areas[i].base != B_NONE && (w.cfg.areas[i].kind == K_ECHO || w.cfg.areas[i].kind == K_NETMAIL)) bases.push_back(i);
  int steps = 2 + d.n(6);
  for (int k = 0; k < steps; k++) {
    SPAN(d, "step"); if (maint && d.n(2)) { std::vector<str> a{"MAINT"}; if (d.n(4)) a.push_back("PACK"); auto r = c.run("crashmaint", a, {}, "C12,C07"); if (r.how != H_EXIT || r.status) c.fail("C12", "exit", sfmt("crashmaint ended with status %d: ", r.status) + esc(r.out, 300)); }
    if (!bases.empty()) { int n = d.small(6); for (int i = 0; i < n; i++) writeLocal(w, bases[d.n(bases.size())], false); }
    BaseState pre = baseState(w, m, ""); std::map<int, AreaMarks> marks; std::vector<str> args; int cmd = d.n(10);
    if (cmd == 7 && !bases.empty()) { // rescan
      int ai = bases[d.n(bases.size())]; int ni = d.n(w.cfg.nodes.size()); auto &a = w.cfg.areas[ai]; u32 max = d.n(2) ? 0 : 1 + d.n(8); args = {"RESCAN", a.tag, "RESCANNODE", w.cfg.nodes[ni].a.s4()}; if (max) { args.push_back("RESCANMAX"); args.push_back(sfmt("%u", max)); } if (a.kind == K_ECHO) modelRescan(w, m, ai, ni, max);
    } else if (cmd == 6) { Round r = w.genRound(2); r.nosec = false; w.modelRound(m, r); args = {"TOSS"}; auto res = c.run("crashmail", args, {}, "*"); if (res.how != H_EXIT || res.status) c.fail("*", "exit", sfmt("toss ended with status %d: ", res.status) + esc(res.out, 300)); for (auto &l : c.sim.fs.list("/bbs/in")) c.sim.fs.del("/bbs/in/" + l); }
    else if (cmd == 5 && !bases.empty()) { int ai = bases[d.n(bases.size())]; if (w.cfg.areas[ai].kind == K_NETMAIL && w.cfg.has("NOEXPORTNETMAIL")) continue; args = {"SCANAREA", d.n(2) ? w.cfg.areas[ai].tag : lower(w.cfg.areas[ai].tag)}; modelScan(w, m, ai, marks[ai]); }
    else if (cmd == 4 || cmd == 3) { // list of areas or of paths
      str l; std::set<int> seen; int n = d.n(6); for (int i = 0; i < n; i++) { if (d.n(6) == 1) { l += d.n(2) ? "NO.SUCH.AREA\n" : "\n"; continue; } int ai = d.n(w.cfg.areas.size()); auto &a = w.cfg.areas[ai]; if (a.kind == K_DEFAULT) continue; if (cmd == 3) { if (a.base == B_NONE) continue; l += a.path + (d.n(2) ? " 12\n" : "\n"); } else l += (d.n(2) ? a.tag : upper(a.tag)) + (d.n(4) == 1 ? "  \n" : d.n(4) == 1 ? "\r\n" : "\n"); if (!seen.insert(ai).second) continue; if (std::find(areas.begin(), areas.end(), ai) != areas.end()) modelScan(w, m, ai, marks[ai]); }
      c.sim.fs.put("/bbs/list.txt", l); args = {cmd == 4 ? "SCANLIST" : "SCANDOTJAM", "/bbs/list.txt"};
    } else { args = {"SCAN"}; for (int ai : areas) modelScan(w, m, ai, marks[ai]); }
    if (cmd != 6) { auto res = c.run("crashmail", args, {}, "C07,C18,C10,C11"); if (res.how != H_EXIT || res.status) c.fail("C07,C18", "exit", args[0] + sfmt(" ended with status %d: ", res.status) + esc(res.out, 300)); }
    str xt = cmd == 7 ? ",C15,C07" : ",C07"; if (filters) xt += ",C19"; cmpQueue(w, m, xt); cmpEvolution(w, m, pre, marks, xt); if (filters) fl.check("");
    if (c.sim.fs.exists("/bbs/crashmail.prefs.busy")) c.fail("C09,C18", "lock-left", "configuration lock left after a completed run");
    c.sim.nowUs += (i64)(1 + (d.n(3) ? d.n(20) : d.n(200000))) * 1000000;
    for (auto &a : std::set<Addr>(w.universe)) if (d.n(3)) w.mailerTakes(&m, a);
  }
}
static void scanP(Ctx &c) { scanWith(c, false); }
static void filterScanP(Ctx &c) { scanWith(c, true); }
// ---- scans under faults
static void scanFault(Ctx &c) {
  auto &d = c.d; startWorld(c); World w(c); scanConfig(w, GO_NETMAIL | (d.n(3) == 1 ? GO_JAM : 0) | (d.n(3) == 1 ? GO_ATTACH : 0)); w.cfg.sw.erase("ANSWERRECEIPT"); w.cfg.sw.erase("ANSWERAUDIT"); w.install(); Model m(w.cfg); m.attachHook = [&w, &m](const str &f, const Addr &dst, char type, bool) { Attach x; x.dest = dst; x.ch = type == 'N' ? 'f' : tolower(type); x.path = Vfs::norm("/bbs", f); x.have = w.c.sim.fs.get(x.path, x.data); m.attach.push_back(x); }; c.note("configuration:\n" + w.cfg.text()); FaultedWorld f(w); auto areas = scanned(w); std::vector<int> bases; for (size_t i = 0; i < w.cfg.areas.size(); i++) if (w.cfg.areas[i].base != B_NONE && (w.cfg.areas[i].kind == K_ECHO || w.cfg.areas[i].kind == K_NETMAIL)) bases.push_back(i); if (areas.empty()) return;
  std::map<int, std::map<u32, RMsg>> orig; std::map<int, std::set<u32>> done, kill;   // messages the harness wrote or that were there, and those that had to be exported
  // the number of a deleted message may be used again
  auto forget = [&](int ai, const RMsg &g) { if (kill[ai].count(g.num) && orig[ai].count(g.num) && orig[ai][g.num].uid != g.uid) { kill[ai].erase(g.num); done[ai].erase(g.num); orig[ai].erase(g.num); } };
  auto write = [&](int n) { for (int i = 0; i < n; i++) writeLocal(w, bases[d.n(bases.size())], d.n(2)); };
  auto pre = [&] { for (int ai : bases) { auto &a = w.cfg.areas[ai]; if (a.base == B_JAM && c.sim.fs.read(Vfs::norm("/bbs", a.path) + ".jhr").size() < 1024) continue; std::vector<RMsg> G; str err; if (!readBase(c.sim.fs, a, G, err, &f.killed)) { c.fail(str(a.base == B_JAM ? "C10," : "C11,") + "C07,C18", "base", "message base of " + a.tag + " is damaged: " + err); continue; } for (auto &g : G) if (!g.partial) { forget(ai, g); orig[ai].insert({g.num, g}); } }
    for (int ai : areas) { std::vector<ExpMsg> v; str err; if (!loadExport(w, ai, false, v, err, &f.killed)) { c.fail("C07,C10,C11", "base", "message base of " + w.cfg.areas[ai].tag + " is damaged: " + err); continue; } m.now = c.sim.now(); for (auto &e : v) if (e.exportable && done[ai].insert(e.num).second) { if (e.kill) kill[ai].insert(e.num); c.note("    to be exported: " + e.m.uid + sfmt(" (#%u of %s)", e.num, w.cfg.areas[ai].tag.c_str())); MM t = e.m; m.handle(t); c.nontrivial = true; } } };
  auto uni = [&] { for (auto &q : m.out) w.universe.insert(q.dest); };
  write(1 + d.small(6)); if (d.n(3) == 1) { pre(); auto res = c.run("crashmail", {"SCAN"}, {}, "C07,C18"); if (res.how != H_EXIT || res.status) c.fail("C07,C18", "exit", sfmt("SCAN ended with status %d: ", res.status) + esc(res.out, 300)); uni(); c.sim.nowUs += 5000000; write(1 + d.small(4)); }
  int runs = 1 + (d.n(3) == 1 ? d.n(3) : 0);
  for (int k = 0; k < runs; k++) {
    SPAN(d, "faulted run"); pre(); uni(); auto res = f.faultedRun({"SCAN"}, "C07,C18,C10,C11"); f.look("after the faulted run", res.how == H_KILLED); f.removeStale();
    c.sim.nowUs += (i64)(1 + d.n(d.n(3) ? 20 : 100000)) * 1000000; if (d.n(3) == 1) { SPAN(d, "mailer"); for (auto &a : std::set<Addr>(w.universe)) if (d.n(2)) f.take(a); } if (d.n(3) == 1) write(1 + d.n(2));
  }
  pre(); uni(); auto res = c.run("crashmail", {"SCAN"}, {}, "C07,C18,C10,C11"); if (res.how != H_EXIT || res.status) c.fail("C18,C07", "recovery-exit", sfmt("the scan after the faults ended with status %d: ", res.status) + esc(res.out, 300));
  Outbound o = f.look("after the recovery run", false); f.pending(o, "C18,C08,C01,C07"); if (c.sim.fs.exists("/bbs/crashmail.prefs.busy")) c.fail("C09,C18", "lock-left", "configuration lock left after the recovery run");
  f.queue(o, m.out, m.out, {}, {}, ",C07"); f.attached(o, m.attach, {});
  auto bases_ = [&](bool final) { for (int ai : bases) {
    auto &a = w.cfg.areas[ai]; bool msg = a.base == B_MSG; str bt = msg ? "C11," : "C10,"; if (!msg && c.sim.fs.read(Vfs::norm("/bbs", a.path) + ".jhr").size() < 1024) { if (!orig[ai].empty()) c.fail(bt + "C07,C18", "base", "message base of " + a.tag + " lost its header"); continue; }
    std::vector<RMsg> G; str err; if (!readBase(c.sim.fs, a, G, err, &f.killed)) { c.fail(bt + "C07,C18", "base", "message base of " + a.tag + " is damaged: " + err); continue; } std::map<u32, const RMsg *> by; for (auto &g : G) { forget(ai, g); by[g.num] = &g; }
    bool hw = w.cfg.has(msg ? "MSG_HIGHWATER" : "JAM_HIGHWATER");
    for (auto &kv : orig[ai]) {
      bool ex = done[ai].count(kv.first), kl = kill[ai].count(kv.first); auto it = by.find(kv.first); auto &p = kv.second; str who = "area " + a.tag + sfmt(", message %u (", kv.first) + p.uid + ")";
      if (it == by.end()) { if (!kl) c.fail(bt + "C07,C01,C18", "vanished", who + " is gone"); continue; }
      const RMsg &g = *it->second; u32 oa = msg ? p.attr : p.jattr, na = msg ? g.attr : g.jattr, S = msg ? (u32)A_SENT : (u32)J_SENT; if (ex && kl && !(hw && f.errFault)) { c.fail(bt + "C07,C18", "not-deleted", who + ": exported with kill-sent but not deleted by the recovery run"); continue; }
      if (ex && !(na & S) && !(hw && f.errFault)) c.fail(bt + "C07,C18", "not-marked", who + ": not marked as sent after the recovery run"); if (na != oa && !(ex && na == (oa | S))) c.fail(bt + "C07,C18", "attr-changed", who + sfmt(": attributes are %x, were %x", na, oa));
      if (ex && msg && w.cfg.has("MSG_WRITEBACK")) continue; str df = diffR(p, g, msg); if (!df.empty()) c.fail(bt + "C07,C18", "changed", who + ": " + df + " was changed");
    }
    auto &E = m.stored[ai]; std::map<str, int> have; for (auto &g : G) { bool okp = !g.partial; if (!okp) for (auto &e : E) if (e.uid == g.uid && diffStored(e, g, a).empty()) okp = true; if (okp && !orig[ai].count(g.num)) have[g.uid]++; } for (auto &kv : orig[ai]) if (!done[ai].count(kv.first)) have[kv.second.uid]++;
    for (auto &e : E) if (!have[e.uid]) c.fail(bt + "C06,C01,C18", "not-stored", "area " + a.tag + " lacks " + e.uid + " (" + esc(e.subj, 40) + ") after recovery");
    for (auto &g : G) { if (g.partial || orig[ai].count(g.num)) continue; bool found = false, okc = false; str df; for (auto &e : E) if (e.uid == g.uid) { found = true; df = diffStored(e, g, a); if (df.empty()) { okc = true; break; } } if (!found) c.fail(bt + "C01,C18,C07", "stored-foreign", "area " + a.tag + " holds " + g.uid + " (" + esc(g.subj, 40) + ") which does not belong there"); else if (!okc) c.fail(bt + "C06,C03,C18,C07", "stored-content", "area " + a.tag + ", " + g.uid + ": " + df); }
  } };
  bases_(false);
  // another scan finds nothing to do
  if (!f.errFault && d.n(3) == 1) { for (auto &a : std::set<Addr>(w.universe)) { std::vector<WireMsg> g; w.mailerTakes(nullptr, a, &g); } f.removeStale(); auto r2 = c.run("crashmail", {"SCAN"}, {}, "C07,C18"); if (r2.how != H_EXIT || r2.status) c.fail("C18,C07", "recovery-exit", sfmt("a later scan ended with status %d: ", r2.status) + esc(r2.out, 300)); Outbound o2 = readOutbound(c.sim.fs, w.cfg, w.universe); for (auto &n : o2.nodes) { for (auto &kv : n.second.ut) for (auto &x : kv.second) c.fail("C07,C18", "again", describe(x) + " was exported to " + n.first.s() + " again by a later scan"); if (!f.anyKill) for (auto &kv : n.second.flow) for (auto &x : kv.second) c.fail("C07,C18", "again", describe(x) + " was exported to " + n.first.s() + " again by a later scan"); } bases_(true); }
}
void regScan() { gProfiles.push_back({"scan", scanP}); gProfiles.push_back({"filterscan", filterScanP}); gProfiles.push_back({"scanfault", scanFault}); }
