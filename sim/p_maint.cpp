// Maintenance of message bases: fault-free histories, faults and kills, and other JAM users at the same time.
#include "bases.hpp"
#include "conc.hpp"
#include "faulted.hpp"

struct MView { std::map<u32, std::pair<str, i64>> msg; JamBase jam; u32 hw = 0; bool exists = false; };   // what a base holds
static str bp(const AreaC &a) { return Vfs::norm("/bbs", a.path); }
static bool view(Ctx &c, const AreaC &a, MView &v, str &err, bool active) {
  v = MView(); auto &fs = c.sim.fs; str p = bp(a);
  if (a.base == B_MSG) {
    if (!fs.isDir(p)) return true; v.exists = true;
    for (auto &n : fs.list(p)) { u32 num = atoi(n.c_str()); if (n != sfmt("%u.msg", num)) { err = "unexpected file " + n; return false; } if (num == 1) { v.hw = get16(fs.read(p + "/" + n), 184); continue; } v.msg[num] = {fs.read(p + "/" + n), fs.lookup(p + "/" + n)->mtime}; }
    return true;
  }
  if (!fs.exists(p + ".jhr") && !fs.exists(p + ".jdx")) return true;
  v.exists = true; return parseJam(fs, p, v.jam, err, active);
}
static str diffJam(const JamMsg &a, const JamMsg &b, bool attr = true) {
#define F(x) if (a.x != b.x) return #x;
  F(num) if (attr) F(attr) F(replyTo) F(reply1st) F(replyNext) F(written) F(received) F(processed) F(msgidCrc) F(replyCrc) F(cost) F(timesRead) F(userCrc) F(text)
#undef F
  if (a.f.size() != b.f.size()) return "number of fields"; for (size_t i = 0; i < a.f.size(); i++) if (a.f[i].lo != b.f[i].lo || a.f[i].data != b.f[i].data) return sfmt("field %u", a.f[i].lo);
  return "";
}
// what maintenance has to leave: message number -> new number (0: gone or marked deleted)
typedef std::map<u32, u32> Plan;
static Plan plan(const AreaC &a, const MView &v, bool maint, bool pack, i64 now) {
  Plan p; i64 today = (a.base == B_JAM ? now + gTz : now) / 86400;   /* JAM dates are in local time */ std::vector<std::pair<u32, i64>> live;
  if (a.base == B_MSG) for (auto &kv : v.msg) live.push_back({kv.first, kv.second.second / 86400});
  else for (auto &m : v.jam.m) if (m.present && !(m.attr & J_DELETED)) { i64 day = m.received / 86400; if (!day) day = m.processed / 86400; if (!day) day = m.written / 86400; live.push_back({m.num, day}); }
  for (auto &l : live) p[l.first] = l.first; size_t n = live.size();
  if (maint && a.keepNum) for (auto &l : live) if (n > (size_t)a.keepNum) { p[l.first] = 0; n--; }
  if (maint && a.keepDays) for (auto &l : live) if (today - l.second > a.keepDays) p[l.first] = 0;
  if (pack && a.base == B_MSG) { u32 k = 2; for (auto &kv : p) if (kv.second) kv.second = k++; }
  return p;
}
static void checkExact(Ctx &c, const AreaC &a, const MView &pre, const MView &now, const Plan &p, bool pack) {
  str w = "area " + a.tag + ": "; str bt = a.base == B_JAM ? "C12,C10" : "C12,C11";
  if (a.base == B_MSG) {
    std::map<u32, u32> back; for (auto &kv : p) { if (!kv.second) continue; back[kv.second] = kv.first; auto it = now.msg.find(kv.second); if (it == now.msg.end()) { c.fail(bt, "lost", w + sfmt("message %u is gone, it was within the limits", kv.first)); continue; } if (it->second.first != pre.msg.at(kv.first).first) c.fail(bt, "changed", w + sfmt("message %u (before: %u) has other content", kv.second, kv.first)); }
    for (auto &kv : now.msg) if (!back.count(kv.first)) c.fail("C12", "kept", w + sfmt("message %u is still there", kv.first));
    return;
  }
  std::map<u32, const JamMsg *> by; for (auto &m : now.jam.m) by[m.num] = &m; bool any = false;
  for (auto &m : pre.jam.m) {
    auto it = by.find(m.num); bool keep = p.count(m.num) && p.at(m.num); bool there = it != by.end() && it->second->present; any |= keep;
    if (keep) { if (!there) { c.fail(bt, "lost", w + sfmt("message %u is gone, it was within the limits", m.num)); continue; } str d = diffJam(m, *it->second); if (!d.empty()) c.fail(bt, "changed", w + sfmt("message %u: ", m.num) + d + " was changed"); continue; }
    if (!m.present) { if (there) c.fail(bt, "appeared", w + sfmt("message %u has appeared", m.num)); continue; }
    if (pack) { if (there) c.fail("C12", "kept", w + sfmt("message %u is still there after packing", m.num)); continue; }
    if (!there) { c.fail("C12", "removed", w + sfmt("message %u was physically removed without packing", m.num)); continue; }
    if (!(it->second->attr & J_DELETED)) c.fail("C12", "kept", w + sfmt("message %u is not marked deleted", m.num)); str d = diffJam(m, *it->second, false); if (!d.empty()) c.fail(bt, "changed", w + sfmt("deleted message %u: ", m.num) + d + " was changed");
  }
  for (auto &m : now.jam.m) { bool old = false; for (auto &o : pre.jam.m) old |= o.num == m.num; if (!old) c.fail(bt, "appeared", w + sfmt("message %u has appeared", m.num)); }
  u32 pn = pre.jam.baseNum + pre.jam.m.size(), nn = now.jam.baseNum + now.jam.m.size(); if (pn != nn) c.fail(bt, "next-number", w + sfmt("the next message would get number %u, before it was %u", nn, pn));
  if (pre.exists && now.exists) { bool ch = pre.jam.m.size() != now.jam.m.size(); for (size_t k = 0; !ch && k < pre.jam.m.size(); k++) ch = pre.jam.m[k].attr != now.jam.m[k].attr || pre.jam.m[k].present != now.jam.m[k].present; str df = jamHeader(pre.jam, now.jam, ch); if (!df.empty()) c.fail(bt, "base-header", w + df); }
  if (pre.jam.lr != now.jam.lr) c.fail("C12", "lastread", w + "the last-read pointers changed");
}
// every message that had to be kept is there exactly once with its content; nothing else appeared
static void checkSafe(Ctx &c, const AreaC &a, const MView &pre, const MView &now, const Plan &p, const str &when) {
  str w = "area " + a.tag + " " + when + ": "; str bt = a.base == B_JAM ? "C12,C10,C18" : "C12,C11,C18";
  if (a.base == B_MSG) {
    std::map<str, int> have; for (auto &kv : now.msg) have[kv.second.first]++;
    for (auto &kv : p) if (kv.second) { auto &d = pre.msg.at(kv.first).first; if (have[d] == 0) c.fail(bt, "lost", w + sfmt("message %u is gone or changed, it was within the limits", kv.first)); if (have[d] > 1) c.fail(bt, "doubled", w + sfmt("message %u is there twice", kv.first)); }
    std::set<str> old; for (auto &kv : pre.msg) old.insert(kv.second.first); for (auto &kv : now.msg) if (!old.count(kv.second.first)) c.fail(bt, "changed", w + sfmt("message %u is none of the messages before", kv.first)); return;
  }
  std::map<u32, const JamMsg *> by; for (auto &m : now.jam.m) by[m.num] = &m;
  for (auto &m : pre.jam.m) if (p.count(m.num) && p.at(m.num)) { auto it = by.find(m.num); if (it == by.end() || !it->second->present) { c.fail(bt, "lost", w + sfmt("message %u is gone, it was within the limits", m.num)); continue; } str d = diffJam(m, *it->second); if (!d.empty()) c.fail(bt, "changed", w + sfmt("message %u: ", m.num) + d + " was changed"); }
  if (pre.jam.lr != now.jam.lr) c.fail(bt, "lastread", w + "the last-read pointers changed");
}
static void checkHighwater(Ctx &c, World &w, int ai, const MView &now, const str &when) {
  auto &a = w.cfg.areas[ai]; if (a.base != B_MSG || !now.hw) return; std::vector<ExpMsg> v; str err; if (!loadExport(w, ai, false, v, err)) return;
  for (auto &e : v) if (e.exportable && e.num <= now.hw) c.fail("C12,C11,C07", "highwater", "area " + a.tag + " " + when + sfmt(": the highwater mark %u is beyond message %u, which has not been exported", now.hw, e.num));
}
static void maintP(Ctx &c) {
  auto &d = c.d; startWorld(c); World w(c); w.genConfig(GO_NETMAIL | GO_AUTOADD | (d.n(2) ? GO_JAM : 0)); auto &A = w.cfg.areas;
  for (size_t i = 0; i < A.size(); i++) { auto &a = A[i]; a.flags &= ~F_UNCONFIRMED; if (a.base == B_NONE && a.kind == K_ECHO && d.n(3)) { a.base = d.n(2) ? B_JAM : B_MSG; a.path = sfmt("base/p%zu", i); } a.keepNum = d.n(3) == 0 ? 0 : 1 + d.n(8); a.keepDays = d.n(2) ? 1 + d.n(20) : 0; if (d.n(3) == 1) a.desc = "KEEPNUM 1"; }
  if (d.n(3) == 1 && A.size() > 1) { AreaC a = A.back(); A.pop_back(); A.insert(A.begin() + d.n(A.size()), a); }
  w.install(); Model m(w.cfg); c.note("configuration:\n" + w.cfg.text()); FaultedWorld f(w); bool killedRun = false;
  std::vector<int> bases; for (size_t i = 0; i < A.size(); i++) if (A[i].base != B_NONE && A[i].kind != K_DEFAULT) bases.push_back(i); if (bases.empty()) return; std::vector<int> sc; for (int i : bases) if ((A[i].kind == K_ECHO || A[i].kind == K_NETMAIL)) sc.push_back(i);
  int mode = d.n(5); if (mode > 2) mode = mode == 3 ? 0 : 1;
  auto scan = [&](const str &when) {   // everything not yet sent goes out
    std::map<int, AreaMarks> marks; BaseState pre = baseState(w, m, ",C12"); for (int ai : sc) if (!(A[ai].kind == K_NETMAIL && w.cfg.has("NOEXPORTNETMAIL"))) modelScan(w, m, ai, marks[ai]);
    auto res = c.run("crashmail", {"SCAN"}, {}, "C12,C07,C10,C11"); if (res.how != H_EXIT || res.status) c.fail("C12,C07,C18", "exit", when + sfmt(": SCAN ended with status %d: ", res.status) + esc(res.out, 300)); cmpQueue(w, m, ",C12,C07"); cmpEvolution(w, m, pre, marks, ",C12,C07"); };
  // the bases are filled over some weeks
  auto fill = [&](int n) { for (int i = 0; i < n; i++) { SPAN(d, "message"); c.sim.nowUs += (i64)d.n(d.n(2) ? 3 : 6) * 43200 * 1000000; int ai = bases[d.n(bases.size())]; writeLocal(w, ai, d.n(2));
    if (A[ai].base == B_JAM) { JamBase b; str err; if (parseJam(c.sim.fs, bp(A[ai]), b, err, false) && !b.m.empty()) { auto &x = b.m.back(); int k = d.n(6); if (k == 1) x.received = c.sim.now(); else if (k == 2) { x.processed = 0; x.written = c.sim.now(); } else if (k == 3) { x.received = c.sim.now() - d.n(30) * 86400; } if (d.n(3) == 1) x.replyTo = b.baseNum + d.n(b.m.size()); if (d.n(3) == 1) x.reply1st = b.baseNum + d.n(b.m.size()); if (d.n(4) == 1) x.replyNext = b.baseNum + d.n(b.m.size());
        if (d.n(6) == 1) { auto &y = b.m[d.n(b.m.size())]; y.present = false; } if (d.n(5) == 1) b.lr.push_back({(u32)d.n(1000), (u32)d.n(1000), (u32)(b.baseNum + d.n(b.m.size())), (u32)(b.baseNum + d.n(b.m.size()))}); writeJam(c.sim.fs, bp(A[ai]), b, c.sim.now()); } }
    else if (d.n(8) == 1) { auto l = c.sim.fs.list(bp(A[ai])); str x = l[d.n(l.size())]; if (atoi(x.c_str()) > 1) { u32 hi = 0; for (auto &y : l) hi = std::max(hi, (u32)atoi(y.c_str())); if ((u32)atoi(x.c_str()) != hi) c.sim.fs.del(bp(A[ai]) + "/" + x); } } } };
  fill(1 + d.small(20)); if (d.n(2)) { scan("before"); fill(d.small(6)); }
  if (d.n(10) == 1) c.sim.nowUs -= (i64)(1 + d.n(10)) * 86400 * 1000000;   // the clock was wrong
  int steps = mode == 0 ? 1 + d.n(3) : 1;
  for (int s = 0; s < steps; s++) {
    SPAN(d, "maintenance"); bool maint = d.n(5) != 1, pack = maint ? d.n(3) != 1 : true; std::vector<str> args; if (maint) args.push_back("MAINT"); if (pack) args.push_back("PACK"); if (d.n(3) == 1) args.push_back("VERBOSE"); str pat = "*"; if (d.n(4) == 1) { str t = A[bases[d.n(bases.size())]].tag; static const int K = 4; int k = d.n(K); pat = k == 0 ? t : k == 1 ? t.substr(0, 1) + "*" : k == 2 ? lower(t) : "NOSUCH?"; args.push_back("PATTERN"); args.push_back(pat); } if (d.n(4) == 1) { args.push_back("SETTINGS"); args.push_back("/bbs/crashmail.prefs"); }
    auto selected = [&](const AreaC &a) { size_t i = 0; for (; i < pat.size(); i++) { if (pat[i] == '*') return true; if (i >= a.tag.size()) return false; if (pat[i] != '?' && tolower(pat[i]) != tolower(a.tag[i])) return false; } return i == a.tag.size(); };
    std::map<int, MView> pre; std::map<int, Plan> pl; str err; for (int ai : bases) { if (!view(c, A[ai], pre[ai], err, !killedRun)) throw Discard{"base: " + err}; bool sel = selected(A[ai]); pl[ai] = plan(A[ai], pre[ai], maint && sel, pack && sel, c.sim.now()); for (auto &kv : pl[ai]) if (kv.second != kv.first) c.nontrivial = true; }
    RunSpec sp; sp.prog = "crashmaint"; sp.args = args;
    auto exact = [&](const str &when) { for (int ai : bases) { MView now; str e2; if (!view(c, A[ai], now, e2, !killedRun)) { c.fail("C12,C10,C11", "base", "area " + A[ai].tag + " " + when + ": " + e2); continue; } if (!pre[ai].exists) { if (now.exists) c.fail("C12", "created", "area " + A[ai].tag + ": a base was created"); continue; } if (!selected(A[ai])) checkSafe(c, A[ai], pre[ai], now, pl[ai], when); checkExact(c, A[ai], pre[ai], now, pl[ai], pack && selected(A[ai])); checkHighwater(c, w, ai, now, when); } for (auto &x : c.sim.fs.files("/bbs/base")) if (x.find(".cmtemp") != str::npos) c.fail("C12,C18", "temp-left", "temporary file " + x + " is left"); };
    if (mode == 0) { auto r = c.run(sp, "C12"); if (r.how != H_EXIT || r.status) c.fail("C12", "exit", sfmt("crashmaint ended with status %d: ", r.status) + esc(r.out, 300)); exact("after maintenance"); }
    else if (mode == 1) {
      auto dr = c.dry(sp); FaultMenu fm = f.menu(); fm.kinds.pop_back(); fm.allow = [](FK k, const PointRec &p) { return !(k == FK_ERR && p.type == PT_READ); }; sp.faults = c.planFaults(dr, fm); auto r = c.run(sp, "C12,C18"); bool hard = false; for (auto &x : r.fired) { (void)x; hard = true; } if (hard) killedRun = w.loose = true;
      for (int ai : bases) if (A[ai].base == B_JAM && pre[ai].exists) { str p = bp(A[ai]); auto ex = [&](const str &x) { return c.sim.fs.exists(p + x); }; if (!ex(".jhr") || ((ex(".cmtemp.jdx") || ex(".cmtemp.jdt") || ex(".cmtemp.jlr")) && !ex(".cmtemp.jhr"))) { c.fail("C12,C10,C18", "pack-swap", "area " + A[ai].tag + ": the run ended between the removal of the old files of the base and the renaming of the last new one"); return; } }
      for (int ai : bases) { MView now; str e2; if (!view(c, A[ai], now, e2, false)) { c.fail("C12,C10,C11", "base", "area " + A[ai].tag + " after the faulted maintenance: " + e2); continue; } if (!pre[ai].exists) continue; checkSafe(c, A[ai], pre[ai], now, pl[ai], "after the faulted maintenance"); checkHighwater(c, w, ai, now, "after the faulted maintenance"); }
      f.anyKill = r.how == H_KILLED; sp.faults.clear(); if (d.n(2)) { // the same run again does the rest
        for (int ai : bases) { auto &a = A[ai]; MView now; str e2; view(c, a, now, e2, false); if (a.base == B_MSG) pre[ai] = now; else if (now.jam.m.size() || now.exists) { pre[ai].jam = now.jam; } pl[ai] = plan(a, pre[ai], maint && selected(a), pack && selected(a), c.sim.now()); if (a.base == B_JAM && a.keepNum && maint && selected(a)) { u32 act = 0; for (auto &x : now.jam.m) if (x.present && !(x.attr & J_DELETED)) act++; if (act != now.jam.active) pl[ai].clear(); } }
        auto r2 = c.run(sp, "C12,C18"); if (r2.how != H_EXIT || r2.status) c.fail("C12,C18", "exit", sfmt("crashmaint after the fault ended with status %d: ", r2.status) + esc(r2.out, 300)); for (int ai : bases) { if (A[ai].base == B_JAM && pl[ai].empty()) continue; MView now; str e2; if (!view(c, A[ai], now, e2, false)) { c.fail("C12,C10,C11", "base", "area " + A[ai].tag + " after the second run: " + e2); continue; } if (!pre[ai].exists) continue; checkExact(c, A[ai], pre[ai], now, pl[ai], pack && selected(A[ai])); } }
    } else {
      // another program works on a JAM base at the same time
      pack = false; args.erase(std::remove(args.begin(), args.end(), str("PACK")), args.end()); if (!maint) { maint = true; args.insert(args.begin(), "MAINT"); } sp.args = args; int ai = -1; for (int i : bases) if (A[i].base == B_JAM && pre[i].exists && selected(A[i]) && (ai < 0 || d.n(2))) ai = i; if (ai < 0) return; str path = bp(A[ai]); std::vector<str> added; bool readBad = false; str readErr; int jobs = 1 + d.n(2); std::vector<RunSpec> specs{sp}; std::vector<JamMsg> fresh;
      for (int k = 0; k < jobs; k++) { JamMsg j; j.present = true; j.attr = J_TYPEECHO; j.written = j.processed = c.sim.now(); j.f.push_back({JF_FROM, 0, "Other"}); j.f.push_back({JF_TO, 0, "All"}); j.f.push_back({JF_SUBJ, 0, w.newUid()}); j.text = "text " + str(d.n(200), 'q') + "\r"; fresh.push_back(j); int hold = d.n(4) == 1 ? d.n(25) : 0, wait = d.n(2) ? 0 : d.n(12); RunSpec n; n.native = [&, k, hold, wait] { if (wait) sys::sleep(wait); int no = jamAppend(path, fresh[k], hold); if (no > 0) fresh[k].num = no; else if (no < 0) readBad = true; }; specs.push_back(n); }
      c.sim.preempts = planPreempts(c, {sp}, 0); { auto dr = c.dry(sp); int n = d.n(8); for (int i = 0; i < n; i++) c.sim.preempts.push_back({0, (int)d.n(dr.rec.size() + 1), (int)(1 + d.n(jobs))}); n = d.n(4); for (int i = 0; i < n; i++) c.sim.preempts.push_back({(int)(1 + d.n(jobs)), (int)d.n(14), (int)d.n(jobs + 1)}); }
      auto r = c.runAll(specs, "C12,C10"); c.sim.preempts.clear(); if (readBad) c.fail("C12,C10", "seen-damaged", "area " + A[ai].tag + ": another program holding the lock found the base damaged"); MView now; str e2; if (!view(c, A[ai], now, e2, true)) { c.fail("C12,C10", "base", "area " + A[ai].tag + " after concurrent use: " + e2); return; }
      std::map<u32, const JamMsg *> by; for (auto &x : now.jam.m) by[x.num] = &x; for (auto &j : fresh) if (j.num) { bool ok = false; for (auto &x : now.jam.m) if (x.present && !(x.attr & J_DELETED) && x.field(JF_SUBJ) == j.field(JF_SUBJ) && x.text == j.text && x.num == j.num) ok = true; if (!ok && !(maint && A[ai].keepNum && (int)now.jam.active >= A[ai].keepNum)) c.fail("C12,C10", "lost-concurrent", "area " + A[ai].tag + sfmt(": message %u written by another program during maintenance is gone", j.num)); }
      // messages that the limits keep even before the additions: with additions more may go
      Plan p2; { MView v2 = pre[ai]; for (auto &j : fresh) if (j.num) { JamMsg x = j; x.present = true; v2.jam.m.push_back(x); v2.jam.m.back().num = v2.jam.baseNum + v2.jam.m.size() - 1; } p2 = plan(A[ai], v2, maint, pack, c.sim.now()); }
      for (auto &x : pre[ai].jam.m) if (p2.count(x.num) && p2[x.num]) { auto it = by.find(x.num); if (it == by.end() || !it->second->present || !diffJam(x, *it->second).empty()) c.fail("C12,C10", "lost", "area " + A[ai].tag + sfmt(": message %u is gone or changed, it was within the limits", x.num)); }
    }
    if (mode != 2 && !(mode == 1 && killedRun && d.n(2))) scan("after maintenance");
    c.sim.nowUs += (i64)(1 + d.n(200000)) * 1000000; if (s + 1 < steps) fill(d.small(5));
  }
}
void regMaint() { gProfiles.push_back({"maint", maintP}); }
