// Tossing under kills, torn and failing writes, full disks, failing commands, Ctrl-C, failing allocations and clock jumps,
// followed by fault-free recovery runs: nothing is lost, nothing foreign appears, the next run completes the work.
#include "faulted.hpp"
#include "filt.hpp"
#include <cstring>

static void tossFaultWith(Ctx &c, bool filters) {
  auto &d = c.d; startWorld(c); World w(c); unsigned opts = GO_NETMAIL; int ok = d.n(6); if (ok & 1) opts |= GO_AUTOADD; if (ok == 5) opts |= GO_JAM; w.genConfig(opts); w.cfg.sw.erase("ANSWERRECEIPT"); w.cfg.sw.erase("ANSWERAUDIT"); Filters fl(w); if (filters) { c.sim.fs.mkdirs("/tmp"); fl.gen("TOSSED"); w.smallAlphabet = true; } Filters fll = fl; w.install();
  Cfg cfgL = w.cfg; cfgL.dupeMode = "IGNORE"; Model m(w.cfg), loose(cfgL); if (filters) { fl.attach(m); fll.attach(loose); } if (d.n(3) == 1 && !filters) w.tossAttach(m); c.note("configuration:\n" + w.cfg.text()); FaultedWorld f(w);
  std::vector<Round> all; std::map<str, str> kept;   // file name -> content of the inbound files
  auto arrive = [&](int max) { Round r = w.genRound(max); r.nosec = false; w.modelRound(m, r); Round r2 = r; w.modelRound(loose, r2, false); for (auto &x : r.files) { kept[x.name] = x.data; for (auto &p : x.pkts) kept[p.first] = buildPkt(p.second); } all.push_back(r); };
  int pre = d.n(3); 
  for (int k = 0; k < pre; k++) { arrive(3); auto res = c.run("crashmail", {"TOSS"}, {}, "C05,C01,C18"); if (res.how != H_EXIT || res.status) c.fail("*", "exit", sfmt("toss ended with status %d: ", res.status) + esc(res.out, 300)); c.sim.nowUs += (i64)d.n(100) * 1000000; }
  // packets of an interrupted unpacked bundle may be tossed in another order: the links of areas they create and which copy of a duplicate is the first depend on it
  size_t known = w.cfg.areas.size(); std::set<str> autoUid; std::map<str, Addr> from;
  bool single = d.n(5) == 1;   // some runs toss one file only, out of turn
  auto order = [&] { for (size_t k = 0; k + 1 < all.size(); k++) for (auto &x : all[k].files) for (auto &p : x.pkts) for (auto &pm : p.second.msgs) { MM t = toMM(p.second, pm, w.cfg, false); if (!t.area.empty()) from[t.uid] = p.second.orig; } bool bundle = single; for (auto &x : all.back().files) bundle |= x.bundle; if (bundle) for (auto &x : all.back().files) for (auto &p : x.pkts) for (auto &pm : p.second.msgs) { MM t = toMM(p.second, pm, w.cfg, false); int ai = w.cfg.findArea(t.area); if (ai >= (int)known) autoUid.insert(t.uid); if (!t.area.empty()) { if (from.count(t.uid) && !from[t.uid].same(p.second.orig)) autoUid.insert(t.uid); from[t.uid] = p.second.orig; } } };
  arrive(5); order();
  int runs = 1 + (d.n(3) == 1 ? d.n(3) : 0);
  auto uni = [&] { for (auto &q : m.out) w.universe.insert(q.dest); for (auto &q : loose.out) w.universe.insert(q.dest); };
  for (int k = 0; k < runs; k++) {
    SPAN(d, "faulted run"); std::vector<str> args{"TOSS"}; if (single && d.n(4)) { std::vector<str> v; for (auto &n : c.sim.fs.list("/bbs/in")) if (n.find(".bad") == str::npos && !endsWith(n, ".tmp") && n.find(".zip") == str::npos) v.push_back(n); if (!v.empty()) args = {"TOSSFILE", "/bbs/in/" + v[d.n(v.size())]}; else args = {"TOSSDIR", "/bbs/in"}; }
    auto res = f.faultedRun(args, "C05,C01,C18");
    uni(); f.look("after the faulted run", res.how == H_KILLED); f.removeStale();
    c.sim.nowUs += (i64)(1 + d.n(d.n(3) ? 20 : 100000)) * 1000000;
    if (d.n(3) == 1) { SPAN(d, "mailer"); for (auto &a : std::set<Addr>(w.universe)) if (d.n(2)) f.take(a); }
    // later arrivals may be tossed before what is still waiting: nothing in them may depend on the order
    if (!(opts & GO_AUTOADD) && d.n(4) == 1) { std::vector<Pkt> keep; keep.swap(w.oldPk); arrive(2); order(); keep.insert(keep.end(), w.oldPk.begin(), w.oldPk.end()); w.oldPk.swap(keep); }
  }
  // recovery
  auto res = c.run("crashmail", {"TOSS"}, {}, "C05,C01,C18"); if (res.how != H_EXIT || res.status) c.fail("C18", "recovery-exit", sfmt("the run after the faults ended with status %d: ", res.status) + esc(res.out, 300));
  uni(); Outbound o = f.look("after the recovery run", false); f.pending(o, "C18,C08,C01");
  if (c.sim.fs.exists("/bbs/crashmail.prefs.busy")) c.fail("C09,C18", "lock-left", "configuration lock left after the recovery run");
  for (auto &x : c.sim.fs.files("/bbs/temp")) if (!f.rmFailed(x) && !f.unpackFault) c.fail("C18,C05", "temp-left", "file " + x + " left in the temporary directory after the recovery run");
  // inbound: only rejected packets, with their bytes
  std::set<str> bad; for (auto &r : all) for (auto &b : r.expectBad) bad.insert(b); std::set<str> keptFiles;
  for (auto &n : c.sim.fs.list("/bbs/in")) {
    if (endsWith(n, ".zip")) continue;
    if (f.anyKill && endsWith(n, ".tmp")) continue;   // copy under way when killed
    size_t p = n.find(".bad"); str data = c.sim.fs.read("/bbs/in/" + n); str base = p == str::npos ? n : n.substr(0, p);
    if (p == str::npos) { c.fail("C18,C05", "inbound-left", "file " + n + " is still in inbound after the recovery run"); continue; }
    bool same = kept.count(base) && kept[base] == data; if (same) keptFiles.insert(base);
    if (bad.count(base)) { if (!same && !f.unpackFault) c.fail("C05,C01", "bad-changed", "rejected packet kept as " + n + " differs from what arrived"); continue; }
    if (!f.unpackFault) c.fail("C05,C18", "good-bad", "good file " + base + " was renamed to " + n);
  }
  for (auto &b : bad) if (!keptFiles.count(b)) { bool inBundle = false; for (auto &r : all) for (auto &x : r.files) if (x.bundle && keptFiles.count(x.name)) for (auto &p : x.pkts) inBundle |= p.first == b; if (!inBundle) c.fail("C05,C01", "bad-missing", "rejected packet " + b + " was not kept"); }
  std::set<str> excused; for (auto &r : all) for (auto &x : r.files) for (auto &p : x.pkts) if (keptFiles.count(x.name) || keptFiles.count(p.first)) for (auto &pm : p.second.msgs) { str u = uidOf(pm.subj); excused.insert(u.empty() ? uidOf(pm.text) : u); }
  // queue: at least once each, nothing that should not be there, right content
  if (filters) for (auto &u : std::set<str>(autoUid)) autoUid.insert(u + "/Bounced message");
  f.queue(o, m.out, loose.out, excused, autoUid, filters ? ",C19" : "");
  f.attached(o, m.attach, excused); if (filters) fl.checkFaulted(fll, excused, autoUid);
  // message bases
  for (size_t i = 0; i < w.cfg.areas.size(); i++) {
    auto &a = w.cfg.areas[i]; if (a.base == B_NONE || (i >= known && !autoUid.empty())) continue; str bt = a.base == B_JAM ? "C10," : "C11,"; if (filters) bt += "C19,"; std::vector<RMsg> G; str err; auto &E = m.stored[i];
    if (a.base == B_JAM && c.sim.fs.read(Vfs::norm("/bbs", a.path) + ".jhr").size() < 1024) { bool need = false; for (auto &e : E) need |= !excused.count(e.uid.substr(0, 8)); if (!need) continue; }
    if (!readBase(c.sim.fs, a, G, err, &f.killed)) { c.fail(bt + "C01,C18", "base", "message base of " + a.tag + " is damaged: " + err); continue; }
    std::vector<BMsg> A = E; int li = cfgL.findArea(a.tag); if (li >= 0) for (auto &b : loose.stored[li]) A.push_back(b);
    std::map<str, int> have; for (auto &g : G) { bool okp = !g.partial; if (!okp) for (auto &b : A) if (b.uid == g.uid && diffStored(b, g, a).empty()) okp = true; if (okp) have[g.uid]++; }
    bool dupeBad = a.kind == K_BAD;
    for (auto &e : E) if (!have[e.uid] && !excused.count(e.uid.substr(0, 8)) && !autoUid.count(e.uid)) { if (dupeBad && e.bad == "Duplicate message") { continue; } c.fail(bt + "C01,C18,C04", "not-stored", "area " + a.tag + " lacks " + e.uid + " (" + esc(e.subj, 40) + ")" + (e.bad.empty() ? "" : " with reason \"" + e.bad + "\"") + " after recovery"); }
    for (auto &g : G) {
      if (g.partial) continue; bool found = false, okc = false; str df; for (auto &b : A) if (b.uid == g.uid) { found = true; df = diffStored(b, g, a); if (df.empty()) { okc = true; break; } }
      if (dupeBad) continue;
      if (filters && autoUid.count(g.uid.substr(0, 8))) continue; if (!found) c.fail(bt + "C01,C18", "stored-foreign", "area " + a.tag + " holds " + g.uid + " (" + esc(g.subj, 40) + ") which does not belong there"); else if (!okc) c.fail(bt + "C01,C03,C18", "stored-content", "area " + a.tag + ", " + g.uid + ": " + df);
    }
  }
  // the same packets once more: everything with a message id is recognised as a duplicate now
  bool dupesKept = true; for (auto &x : c.fired) if (x.find("/bbs/dupes") != str::npos || startsWith(x, "disk-full")) dupesKept = false; // the duplicate file could not be written
  if (dupesKept && w.cfg.dupeSize >= 200 && w.cfg.dupeMode != "IGNORE" && m.dupes.size() < 180 && d.n(2)) {
    SPAN(d, "again"); for (auto &a : std::set<Addr>(w.universe)) f.take(a); f.removeStale(); for (auto &n : c.sim.fs.list("/bbs/in")) c.sim.fs.del("/bbs/in/" + n); size_t nOut = m.out.size(); Round rr; std::set<str> seenIds;
    for (auto &r : all) for (auto &x : r.files) { bool held = keptFiles.count(x.name); for (auto &p : x.pkts) held |= keptFiles.count(p.first); if (held) continue; InFile y = x; c.sim.fs.put("/bbs/in/" + x.name, x.data, x.mtime); rr.files.push_back(y); }
    std::vector<std::map<str, int>> before(w.cfg.areas.size()); for (size_t i = 0; i < w.cfg.areas.size(); i++) { auto &a = w.cfg.areas[i]; if (a.base == B_NONE || a.kind != K_ECHO) continue; std::vector<RMsg> G; str err; readBase(c.sim.fs, a, G, err, &f.killed); for (auto &g : G) before[i][g.uid]++; }
    auto r2 = c.run("crashmail", {"TOSS"}, {}, "C05,C01,C18"); if (r2.how != H_EXIT || r2.status) c.fail("C18", "recovery-exit", sfmt("a later run ended with status %d: ", r2.status) + esc(r2.out, 300));
    std::map<str, bool> hasId, ign; for (auto &r : all) for (auto &x : r.files) for (auto &p : x.pkts) for (auto &pm : p.second.msgs) { MM t = toMM(p.second, pm, w.cfg, false); int ai = w.cfg.findArea(t.area); bool id = !t.msgid.empty() && !t.area.empty() && ai >= 0 && !(w.cfg.areas[ai].flags & F_IGNOREDUPES); if (!hasId.count(t.uid)) hasId[t.uid] = id; else hasId[t.uid] = hasId[t.uid] && id; }
    Outbound o2 = readOutbound(c.sim.fs, w.cfg, w.universe); for (auto &n : o2.nodes) for (auto &kv : n.second.flow) for (auto &x : kv.second) { str u = keyOf(x.m.subj, x.m.text); if (startsWith(x.m.text, "AREA:") && hasId[u] && !autoUid.count(u) && !excused.count(u.substr(0, 8))) c.fail("C04", "dup-forwarded", "the duplicate " + describe(x) + " was sent to " + n.first.s() + " again"); }
    for (size_t i = 0; i < w.cfg.areas.size(); i++) { auto &a = w.cfg.areas[i]; if (a.base == B_NONE || a.kind != K_ECHO) continue; std::vector<RMsg> G; str err; readBase(c.sim.fs, a, G, err, &f.killed); std::map<str, int> now; for (auto &g : G) now[g.uid]++; for (auto &kv : now) if (kv.second > before[i][kv.first] && hasId[kv.first] && !autoUid.count(kv.first) && !excused.count(kv.first.substr(0, 8))) c.fail("C04", "dup-stored", "the duplicate " + kv.first + " was stored in " + a.tag + " again"); }
  }
}
static void tossFault(Ctx &c) { tossFaultWith(c, false); }
static void filterFault(Ctx &c) { tossFaultWith(c, true); }
void regTossFault() { gProfiles.push_back({"filterfault", filterFault}); gProfiles.push_back({"tossfault", tossFault}); }
