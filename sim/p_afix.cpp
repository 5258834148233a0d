// AreaFix requests, AreaFix commands and configuration rewrites over several runs, compared with the model.
#include "afix.hpp"
#include "faulted.hpp"
#include <cstring>

static void checkEndToss(Ctx &c, World &w, Round &r, const str &xt) {
  for (auto &b : r.expectBad) { bool ok = false; for (auto &l : c.sim.fs.list("/bbs/in")) if (startsWith(l, b + ".bad")) ok = true; if (!ok) c.fail("C05,C01" + xt, "bad-missing", "rejected packet " + b + " is not kept as .bad"); }
  for (auto &l : c.sim.fs.list("/bbs/in")) { size_t p = l.find(".bad"); if (p == str::npos || !r.expectBad.count(l.substr(0, p))) c.fail("C05,C01" + xt, "inbound-left", "file " + l + " is left in inbound after a completed toss"); c.sim.fs.del("/bbs/in/" + l); }
}
// requests in a packet from the system itself, or routed through another one
static void addRequests(AfixWorld &A, World &w, Round &r, bool mixed) {
  auto &d = w.c.d; int n = 1 + d.small(3); i64 base = w.c.sim.now() - 200000;
  for (int i = 0; i < n; i++) {
    SPAN(d, "file"); InFile x; x.bundle = false; x.mtime = base + d.n(6); int ni = d.n(8) == 1 ? -1 : d.n(w.cfg.nodes.size()); int via = ni >= 0 && d.n(3) ? ni : (int)d.n(w.cfg.nodes.size()); Pkt p = w.genPkt(via); if (!mixed) p.msgs.clear(); else while (p.msgs.size() > 3) p.msgs.pop_back();
    int k = 1 + d.n(2); for (int j = 0; j < k; j++) { Addr f; PMsg pm = A.request(j == 0 ? ni : (int)d.n(w.cfg.nodes.size()), f); p.msgs.insert(p.msgs.begin() + d.n(p.msgs.size() + 1), pm); }
    str nm; u32 nn = 0x1000 + d.n(0x8000); std::set<str> used; for (auto &q : w.c.sim.fs.list("/bbs/in")) used.insert(lower(q)); do nm = sfmt("%08x.pkt", nn++); while (!used.insert(nm).second || !w.usedNames.insert(nm).second); x.name = nm; x.pkts.push_back({nm, p}); x.data = buildPkt(p); w.c.sim.fs.put("/bbs/in/" + nm, x.data, x.mtime); r.files.push_back(x);
  }
  std::stable_sort(r.files.begin(), r.files.end(), [](const InFile &a, const InFile &b) { if (a.bundle != b.bundle) return !a.bundle; if (a.mtime != b.mtime) return a.mtime < b.mtime; return lower(a.name) < lower(b.name); });
}
// what any observer sees at the place of the configuration while programs run: the versions, in order
struct ConfWatch {
  Ctx &c; u64 ino = 0; std::vector<str> seen;
  ConfWatch(Ctx &c) : c(c) { look(); c.sim.onPoint = [this](int, PT, const str &) { look(); }; }
  ~ConfWatch() { c.sim.onPoint = nullptr; }
  void look() { auto n = c.sim.fs.lookup("/bbs/crashmail.prefs"); str t = n ? n->data : str("(missing)"); if (seen.empty() || seen.back() != t) seen.push_back(t); }
  void check(const str &old) { c.sim.onPoint = nullptr; look(); str fin = seen.back(); for (auto &t : seen) if (t != old && t != fin) c.fail("C14,C18", "config-intermediate", t == "(missing)" ? "there was a moment during the run when no configuration existed" : sfmt("there was a moment during the run when the configuration was neither the old nor the new one (%zu bytes)", t.size())); }
};
static void afix(Ctx &c) {
  auto &d = c.d; startWorld(c); World w(c); w.genConfig(GO_NETMAIL | GO_AUTOADD); Model m(w.cfg); AfixWorld A(w, m); A.config(true); w.cfg.sw.erase("ANSWERRECEIPT"); w.cfg.sw.erase("ANSWERAUDIT"); w.install(); A.files(); A.hook(); m.ns.resize(w.cfg.nodes.size());
  if (d.n(2)) c.sim.fs.put("/bbs/crashmail.prefs", messyConfig(d, w.cfg.text()), c.sim.now()); c.note("configuration:\n" + c.sim.fs.read("/bbs/crashmail.prefs"));
  int rounds = 1 + d.n(4);
  for (int k = 0; k < rounds; k++) {
    str old = c.sim.fs.read("/bbs/crashmail.prefs"), bak = c.sim.fs.read("/bbs/crashmail.prefs.bak"); int what = d.n(10); std::vector<str> args; Round r;
    if (what < 6) { A.rescans = true; addRequests(A, w, r, false); w.modelRound(m, r); args = {"TOSS"}; }
    else if (what < 8) { A.rescans = false; r = w.genRound(3); r.nosec = false; if (d.n(2)) addRequests(A, w, r, true); w.modelRound(m, r); args = {"TOSS"}; }
    else if (what == 8) { std::vector<int> v; for (size_t i = 0; i < w.cfg.areas.size(); i++) if (w.cfg.areas[i].kind == K_ECHO) v.push_back(i); if (v.empty() || d.n(5) == 1) args = {"REMOVE", d.n(2) ? "NO.SUCH" : "BAD"}; else { int ai = v[d.n(v.size())]; str t = w.cfg.areas[ai].tag; args = {"REMOVE", d.n(2) ? t : lower(t)}; A.removeArea(ai); } c.nontrivial = true; }
    else { static const char *CM[] = {"SENDLIST", "SENDQUERY", "SENDUNLINKED", "SENDHELP", "SENDINFO"}; int q = d.n(5); args = {CM[q]}; if (d.n(3) == 1) { args.push_back(d.n(2) ? "ALL" : "all"); for (size_t i = 0; i < w.cfg.nodes.size(); i++) if (w.cfg.nodes[i].flags & N_NOTIFY) A.command("FQUHI"[q], i); } else { int ni = d.n(w.cfg.nodes.size()); args.push_back(d.n(2) ? w.cfg.nodes[ni].a.s() : w.cfg.nodes[ni].a.s4()); A.command("FQUHI"[q], ni); } c.nontrivial = true; }
    c.note("run: " + args[0] + (args.size() > 1 ? " " + args[1] : "")); c.sim.tickUs = 1000;
    ConfWatch cw(c); auto res = c.run("crashmail", args, {}, "C14,C15,C05"); cw.check(old); if (res.how != H_EXIT || res.status != 0) c.fail("*", "exit", args[0] + sfmt(" ended with status %d: ", res.status) + esc(res.out, 300));
    cmpConfig(w, m, old, bak, ""); cmpQueue(w, m, ",C15"); cmpBases(w, m, ",C15"); checkEndToss(c, w, r, "");
    c.sim.nowUs += (i64)(d.n(2) ? d.n(3) : d.n(200000)) * 1000000;
    for (auto &a : std::set<Addr>(w.universe)) if (d.n(3)) w.mailerTakes(&m, a);
  }
}
// requests under faults: the configuration is the old or the complete new one, and no request is lost
static void afixFault(Ctx &c) {
  auto &d = c.d; startWorld(c); World w(c); w.genConfig(GO_NETMAIL | GO_AUTOADD); Model m(w.cfg); AfixWorld A(w, m); A.config(true); w.cfg.sw.erase("ANSWERRECEIPT"); w.cfg.sw.erase("ANSWERAUDIT"); w.install(); A.files(); A.hook(); m.ns.resize(w.cfg.nodes.size()); A.rescans = false;
  if (d.n(2)) c.sim.fs.put("/bbs/crashmail.prefs", messyConfig(d, w.cfg.text()), c.sim.now()); c.note("configuration:\n" + c.sim.fs.read("/bbs/crashmail.prefs")); FaultedWorld f(w); std::map<Addr, int> asked, answered; 
  auto uni = [&] { for (auto &q : m.out) w.universe.insert(q.dest); };
  auto settle = [&](const str &old, const str &bak, Cfg before, bool faulted, const str &when) {   // the file is the model's version, or the old one (then the model goes back)
    str t = c.sim.fs.read("/bbs/crashmail.prefs"); if (t == old && faulted && !confDiff(w, m, old, t, true).empty()) { w.cfg = before; m.touchedAreas.clear(); m.touchedNodes.clear(); m.cfgChanged = false; return false; }
    str df = confDiff(w, m, old, t, true); if (!df.empty()) c.fail("C14,C15,C18", "config", "configuration " + when + ": " + df);
    str b = c.sim.fs.read("/bbs/crashmail.prefs.bak"); bool bakFault = false; for (auto &x : c.fired) bakFault |= x.find(".bak") != str::npos || startsWith(x, "disk-full"); if (t != old && b != old && !bakFault) c.fail("C14,C18", "config-backup", "the backup does not hold the previous version of the configuration " + when);
    cmpOrder(w, t); m.touchedAreas.clear(); m.touchedNodes.clear(); m.cfgChanged = false; return true;
  };
  int rounds = 1 + d.n(2);
  for (int k = 0; k < rounds; k++) {
    Round r; addRequests(A, w, r, d.n(2)); int runs = 1 + (d.n(3) == 1); std::vector<QMsg> musts;
    for (int q = 0; q <= runs; q++) {
      bool last = q == runs; str old = c.sim.fs.read("/bbs/crashmail.prefs"), bak = c.sim.fs.read("/bbs/crashmail.prefs.bak"); Cfg before = w.cfg; m.out.clear(); m.stored.clear(); Round now = r; std::vector<InFile> here; for (auto &x : r.files) if (c.sim.fs.exists("/bbs/in/" + x.name)) here.push_back(x); now.files = here; now.expectBad.clear(); w.modelRound(m, now); uni();
      ConfWatch cw(c); ProcResult res; size_t nf = c.fired.size(); { SPAN(d, "run"); if (last) { res = c.run("crashmail", {"TOSS"}, {}, "C14,C15,C05,C18"); if (res.how != H_EXIT || res.status) c.fail("C18,C14", "recovery-exit", sfmt("the run after the faults ended with status %d: ", res.status) + esc(res.out, 300)); } else res = f.faultedRun({"TOSS"}, "C14,C15,C05,C18"); }
      cw.check(old); f.look("after the run", res.how == H_KILLED); f.removeStale(); bool changed = m.cfgChanged || !m.touchedAreas.empty() || !m.touchedNodes.empty(); bool wasNew = settle(old, bak, before, !last, last ? "after the recovery run" : "after the faulted run");
      bool cfgFault = false; for (size_t i = nf; i < c.fired.size(); i++) cfgFault |= c.fired[i].find("crashmail.prefs") != str::npos || startsWith(c.fired[i], "disk-full") || startsWith(c.fired[i], "alloc"); 
      if (!wasNew) for (auto &x : here) if (!c.sim.fs.exists("/bbs/in/" + x.name)) { bool bad = false; for (auto &b : now.expectBad) bad |= b == x.name; if (!bad && !cfgFault && changed) c.fail("C14,C15,C18", "request-lost", "packet " + x.name + " with requests is gone but the configuration is still the old one"); }
      bool memFault = false; for (size_t i = nf; i < c.fired.size(); i++) memFault |= startsWith(c.fired[i], "alloc"); bool allGone = true; for (auto &x : here) allGone &= !c.sim.fs.exists("/bbs/in/" + x.name); if (allGone && !here.empty() && (wasNew || !changed)) for (auto &x : m.out) if (x.area.empty() && !(memFault && startsWith(x.uid, "AreaFix list"))) musts.push_back(x);
      c.sim.nowUs += (i64)(1 + d.n(20)) * 1000000; if (last) for (auto &n : c.sim.fs.list("/bbs/in")) { if (n.find(".bad") == str::npos && !endsWith(n, ".tmp")) c.fail("C18,C05", "inbound-left", "file " + n + " is still in inbound after the recovery run"); c.sim.fs.del("/bbs/in/" + n); }
      if (last) { Outbound o = readOutbound(c.sim.fs, w.cfg, w.universe); std::set<std::pair<Addr, str>> got; for (auto &n : o.nodes) { for (auto &kv : n.second.ut) for (auto &x : kv.second) got.insert({n.first, keyOf(x.m.subj, x.m.text)}); for (auto &kv : n.second.flow) for (auto &x : kv.second) got.insert({n.first, keyOf(x.m.subj, x.m.text)}); } for (auto &x : musts) if (!got.count({x.dest, x.uid})) c.fail("C01,C15,C18", "reply-lost", describe(x) + " was never queued although the request is gone"); f.pending(o, "C18,C08,C01"); }
      if (last && c.sim.fs.exists("/bbs/crashmail.prefs.tmp") && !f.anyFault) c.fail("C14", "config-temp", "temporary configuration file left");
    }
  }
}
void regAfix() { gProfiles.push_back({"afix", afix}); gProfiles.push_back({"afixfault", afixFault}); }
