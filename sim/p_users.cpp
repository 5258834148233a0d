// Tossing and scanning while message editors write, mark and delete messages in the same message bases.
#include "bases.hpp"
#include "conc.hpp"
#include <cstring>

static str bp(const AreaC &a) { return Vfs::norm("/bbs", a.path); }
struct Written { int area; bool jam; JamMsg j; str raw; u32 num = 0; bool damaged = false, gaveUp = false; };
struct Touch { int area; u32 num; int kind; bool done = false; u32 oldTimes = 0; };   // 0: read, 1: deleted
// another JAM program reading the base under a shared lock
static bool jamLook(const str &path, int hold, str &err) { str hf = path + ".jhr"; bool got = false; for (int i = 0; i < 40 && !got; i++) { got = sys::lock(hf, true); if (!got) sys::sleep(1); } if (!got) return true; JamBase b; bool ok = parseJam(gSim->fs, path, b, err); str a, z; auto all = [&] { str s; for (auto e : {".jhr", ".jdx", ".jdt"}) s += sfmt("%zu", gSim->fs.read(path + e).size()) + "|" + gSim->fs.read(path + e); return s; }; a = all(); sys::sleep(1 + hold); z = all(); if (ok && a != z) { ok = false; err = "it was changed meanwhile"; } sys::unlock(hf); return ok; }
// another JAM program changing the header of a message in place
static bool jamTouch(const str &path, u32 num, int kind, int hold, Touch &t) {
  str hf = path + ".jhr", xf = path + ".jdx"; bool got = false; for (int i = 0; i < 40 && !got; i++) { got = sys::lock(hf); if (!got) sys::sleep(1); } if (!got) return false; if (hold) sys::sleep(hold);
  str bh, ix, mh; if (!sys::pread(hf, 0, 24, bh) || !sys::pread(xf, (size_t)(num - get32(bh, 20)) * 8, 8, ix) || ix.size() != 8 || !sys::pread(hf, get32(ix, 4), 76, mh) || mh.size() != 76) { sys::unlock(hf); return false; }
  auto set = [](str &s, size_t o, u32 v) { str x; put32(x, v); s.replace(o, 4, x); }; t.oldTimes = get32(mh, 12);
  if (kind == 0) { set(mh, 12, get32(mh, 12) + 1); set(mh, 40, (u32)(gSim->now() + gTz)); } else { if (get32(mh, 52) & J_DELETED) { sys::unlock(hf); return false; } set(mh, 52, get32(mh, 52) | J_DELETED); }
  sys::pwrite(hf, get32(ix, 4), mh); str c; put32(c, get32(bh, 8) + 1); put32(c, get32(bh, 12) - (kind == 1)); sys::pwrite(hf, 8, c); sys::unlock(hf); return true;
}
static void usersP(Ctx &c) {
  auto &d = c.d; startWorld(c); World w(c); w.genConfig(GO_NETMAIL | (d.n(2) ? GO_JAM : 0)); auto &A = w.cfg.areas;
  for (size_t i = 0; i < A.size(); i++) { auto &a = A[i]; a.flags &= ~F_UNCONFIRMED; if (a.base == B_NONE && a.kind == K_ECHO && d.n(3)) { a.base = d.n(2) ? B_JAM : B_MSG; a.path = sfmt("base/p%zu", i); } }
  static const char *SW[] = {"ALLOWKILLSENT", "MSG_WRITEBACK", "NOEXPORTNETMAIL"}; static const int P[] = {2, 5, 12}; for (int i = 0; i < 3; i++) if (d.n(P[i]) == 1) w.cfg.sw.insert(SW[i]); w.cfg.sw.erase("ANSWERRECEIPT"); w.cfg.sw.erase("ANSWERAUDIT");
  w.install(); Model m(w.cfg); c.note("configuration:\n" + w.cfg.text()); auto &fs = c.sim.fs; std::vector<int> bases, sc; for (size_t i = 0; i < A.size(); i++) if (A[i].base != B_NONE && (A[i].kind == K_ECHO || A[i].kind == K_NETMAIL)) { bases.push_back(i); if (!(A[i].kind == K_NETMAIL && w.cfg.has("NOEXPORTNETMAIL"))) sc.push_back(i); } if (bases.empty()) return;
  static const i64 TICK[] = {50, 2000, 20000}; c.sim.tickUs = TICK[d.n(3)]; int rounds = 2 + d.n(3); std::set<str> seen;
  { int n = 2 + d.small(8); for (int i = 0; i < n; i++) writeLocal(w, bases[d.n(bases.size())], false); }
  for (int k = 0; k < rounds; k++) {
    SPAN(d, "step"); bool scan = d.n(2), last = k == rounds - 1; if (last) scan = true; Round r; if (d.n(2)) { int n = d.small(3); for (int i = 0; i < n; i++) writeLocal(w, bases[d.n(bases.size())], false); } if (!scan) { r = w.genRound(3); r.nosec = false; }
    // what the editors are going to do
    std::vector<str> seenBad; std::vector<Written> W; std::vector<Touch> T; std::vector<RunSpec> specs(1); specs[0].prog = "crashmail"; specs[0].args = {scan ? "SCAN" : "TOSS"}; W.reserve(16); T.reserve(16);
    int editors = last ? 0 : 1 + d.n(2); std::vector<std::vector<std::pair<int, int>>> jobs;   // (kind, index)
    for (int e = 0; e < editors; e++) {
      SPAN(d, "editor"); int n = 1 + d.n(3); std::vector<std::pair<int, int>> J;
      for (int i = 0; i < n; i++) {
        SPAN(d, "job"); int ai = bases[d.n(bases.size())]; auto &a = A[ai]; str p = bp(a); JamBase b; str err; bool jam = a.base == B_JAM; if (jam ? fs.read(p + ".jhr").size() < 1024 : !fs.isDir(p)) continue; if (jam && !parseJam(fs, p, b, err)) continue;
        if (jam && b.m.size() && d.n(3) == 1) { auto &x = b.m[d.n(b.m.size())]; bool used = false; for (auto &t : T) if (t.area == ai && t.num == x.num) used = true; if (!x.present || (x.attr & J_DELETED) || used) continue; int kind = d.n(3) == 1 && !((x.attr & J_LOCAL) && !(x.attr & J_SENT)); Touch t; t.area = ai; t.num = x.num; t.kind = kind; T.push_back(t); J.push_back({1, (int)T.size() - 1}); continue; }
        if (jam && d.n(5) == 1) { J.push_back({2, ai}); continue; }
        Written x; x.area = ai; x.jam = jam; Vfs save = fs.clone(); writeLocal(w, ai, d.n(2)); if (jam) { if (parseJam(fs, p, b, err)) x.j = b.m.back(); } else { u32 hi = 0; str f; for (auto &nm : fs.list(p)) if ((u32)atoi(nm.c_str()) > hi) { hi = atoi(nm.c_str()); f = nm; } x.raw = fs.read(p + "/" + f); } fs = save; c.note("    (written by an editor during the run)"); W.push_back(x); J.push_back({0, (int)W.size() - 1});
      }
      if (J.empty()) continue; int wait = d.n(3) == 1 ? d.n(3) : 0, hold = d.n(3) == 1 ? 1 + d.n(2) : 0; RunSpec s;
      s.native = [&, J, wait, hold] { if (wait) sys::sleep(wait); bool first = true; for (auto &j : J) { int hd = first ? hold : 0; first = false;
        if (j.first == 2) { str e; if (!jamLook(bp(A[j.second]), hd, e)) seenBad.push_back("area " + A[j.second].tag + ": another program reading under a shared lock found it unfit: " + e); continue; }
        if (j.first == 1) { auto &t = T[j.second]; t.done = jamTouch(bp(A[t.area]), t.num, t.kind, hd, t); continue; }
        auto &x = W[j.second]; str p = bp(A[x.area]); if (x.jam) { int n = jamAppend(p, x.j, hd); if (n > 0) x.num = n; else if (n < 0) x.damaged = true; else x.gaveUp = true; }
        else { u32 hi = 1; for (auto &nm : gSim->fs.list(p)) hi = std::max(hi, (u32)atoi(nm.c_str())); for (u32 q = hi + 1; q < hi + 50 && !x.num; q++) if (sys::createExcl(sfmt("%s/%u.msg", p.c_str(), q), x.raw)) x.num = q; }
      } };
      specs.push_back(s); jobs.push_back(J);
    }
    std::vector<Preempt> pp; { SPAN(d, "schedule"); auto one = c.dry(specs[0]); std::map<str, std::vector<int>> g; for (size_t j = 0; j < one.rec.size(); j++) { auto &x = one.rec[j]; bool hot = startsWith(x.path, "/bbs/base"); g[(hot ? "B" : "") + str(ptName[x.type]) + (x.path.size() > 4 ? x.path.substr(x.path.size() - 4) : "")].push_back(j); } std::vector<str> hotk; for (auto &x : g) if (x.first[0] == 'B') hotk.push_back(x.first); int np = specs.size() > 1 ? 1 + d.n(10) : 0;
      for (int i = 0; i < np && !one.rec.empty(); i++) { SPAN(d, "preempt"); int q = d.n(4); if (q == 0) { pp.push_back({1 + (int)d.n(specs.size() - 1), (int)d.n(20), (int)d.n(specs.size())}); continue; } int pt; if (q < 3 && !hotk.empty()) { auto &v = g[hotk[d.n(hotk.size())]]; pt = v[d.n(v.size())]; } else pt = d.n(one.rec.size()); pp.push_back({0, pt, 1 + (int)d.n(specs.size() - 1)}); } }
    Vfs before = fs.clone(); std::map<int, u32> hi0; { BaseState s0 = baseState(w, m, ""); for (auto &kv : s0.m) { u32 h = 0; for (auto &x : kv.second) h = std::max(h, x.num); hi0[kv.first] = h; } }
    c.sim.preempts = pp; auto res = c.runAll(specs, "C10,C11,C07"); c.sim.preempts.clear(); if (res[0].how != H_EXIT || res[0].status) { c.fail("C10,C11,C07,C18", "exit", sfmt("the run ended with status %d: ", res[0].status) + esc(res[0].out, 300)); return; }
    for (auto &e : seenBad) c.fail("C10,C07", "seen-damaged", e);
    for (auto &x : W) { if (x.damaged) c.fail("C10,C07", "seen-damaged", "area " + A[x.area].tag + ": another program holding the lock found the base damaged"); if (!x.num && !x.damaged) c.fail("C10,C11", "starved", "area " + A[x.area].tag + ": an editor could not write its message"); }
    // the state before the run with the work of the editors added
    Vfs after = fs.clone(); std::map<int, std::set<u32>> skip; fs = before.clone(); std::map<int, JamBase> ab;
    std::sort(W.begin(), W.end(), [](const Written &x, const Written &y) { return x.num < y.num; });
    for (size_t i = 1; i < W.size(); i++) if (W[i].num && W[i].num == W[i - 1].num) for (auto &y : W) if (&y != &W[i] && y.num == W[i].num && y.area == W[i].area) return;   // the number of a message deleted by the run was used again
    for (auto &x : W) if (x.num && x.num <= hi0[x.area] && !x.jam) return;
    for (auto &x : W) if (x.num) {
      str p = bp(A[x.area]), err; if (x.jam) { JamBase b; if (!parseJam(fs, p, b, err, false)) continue; while (b.baseNum + b.m.size() < x.num) b.m.push_back(JamMsg()); JamMsg j = x.j; j.present = true; b.m.push_back(j); writeJam(fs, p, b, b.created); } else fs.put(sfmt("%s/%u.msg", p.c_str(), x.num), x.raw, c.sim.now());
      bool sent = false; if (x.jam) { if (!ab.count(x.area)) parseJam(after, p, ab[x.area], err, false); for (auto &y : ab[x.area].m) if (y.num == x.num && y.present && (y.attr & J_SENT)) sent = true; } else { str raw = after.read(sfmt("%s/%u.msg", p.c_str(), x.num)); StoredMsg s, o; str e1; if (raw.empty()) { if (parseMsg(x.raw, o, e1) && (o.attr & A_KILL) && (o.attr & A_LOCAL) && !(o.attr & A_SENT) && A[x.area].kind == K_NETMAIL && scan) sent = true; } else if (parseMsg(raw, s, e1) && (s.attr & A_SENT)) sent = true; }
      if (!sent || !scan) skip[x.area].insert(x.num); c.nontrivial = true;
    }
    for (auto &t : T) if (t.done && t.kind == 1) { JamBase b; str err, p = bp(A[t.area]); if (!parseJam(fs, p, b, err, false)) continue; for (auto &y : b.m) if (y.num == t.num) y.attr |= J_DELETED; writeJam(fs, p, b, b.created); }
    BaseState pre = baseState(w, m, ""); pre.hi = hi0; std::map<int, AreaMarks> marks; if (scan) for (int ai : sc) modelScan(w, m, ai, marks[ai], &skip[ai]); else w.modelRound(m, r); fs = after;
    if (!scan) for (auto &l : fs.list("/bbs/in")) { size_t p = l.find(".bad"); if (p == str::npos || !r.expectBad.count(l.substr(0, p))) c.fail("C05,C01,C10,C11", "inbound-left", "file " + l + " is left in inbound after a completed toss"); fs.del("/bbs/in/" + l); }
    for (auto &q : m.out) w.universe.insert(q.dest); cmpQueue(w, m, ",C10,C11,C07"); cmpEvolution(w, m, pre, marks, ",C10,C11,C07");
    for (auto &t : T) if (t.done) { JamBase b; str err; if (!parseJam(fs, bp(A[t.area]), b, err, false)) continue; for (auto &y : b.m) if (y.num == t.num && y.present) { if (t.kind == 0 && y.timesRead != t.oldTimes + 1) c.fail("C10,C07", "lost-update", "area " + A[t.area].tag + sfmt(", message %u: another program set its read counter to %u during the run, it is %u now", t.num, t.oldTimes + 1, y.timesRead)); if (t.kind == 1 && !(y.attr & J_DELETED)) c.fail("C10,C07", "lost-update", "area " + A[t.area].tag + sfmt(", message %u: deleted by another program during the run, it is back", t.num)); } }
    c.sim.nowUs += (i64)(1 + d.n(d.n(3) ? 20 : 100000)) * 1000000; for (auto &a : std::set<Addr>(w.universe)) if (d.n(4) == 1) w.mailerTakes(&m, a);
  }
}
void regUsers() { gProfiles.push_back({"users", usersP}); }
