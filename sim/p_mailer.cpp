// Tossing and scanning while mailers with BinkleyTerm-style locks take mail from the outbound and put files into the inbound.
#include "bases.hpp"
#include "conc.hpp"
#include <cstring>

struct Mailers {
  World &w; Ctx &c; Outbound taken; std::vector<str> bad; std::map<str, std::pair<u64, int>> lk; int prevPid = 0; std::set<int> guests; std::set<str> bases; int sessions = 0; std::set<std::pair<Addr, str>> sentFiles;
  Mailers(World &w) : w(w), c(w.c) {}
  void note(const str &s) { if (bad.size() < 3) bad.push_back(s); }
  str touched; void settle(bool all = false) { if (!all && touched.empty()) return; for (auto &b : bases) { if (!all && b != touched) continue; auto n = c.sim.fs.lookup(b + ".bsy"); u64 i = n ? n->ino : 0; auto &l = lk[b]; if (i == l.first) continue; if (l.first && l.second != prevPid && guests.count(prevPid)) note("crashmail removed or replaced the lock of another program: " + b + ".bsy"); l = {i, i ? prevPid : 0}; } touched.clear(); }
  void start() {
    bases.clear(); for (auto &a : w.universe) bases.insert(baseName(w.cfg, a)); lk.clear(); prevPid = -1; settle(true); for (auto &l : lk) l.second.second = -1;
    c.sim.onPoint = [this](int pid, PT t, const str &path) {
      settle(); prevPid = pid; if (endsWith(path, ".bsy")) touched = path.substr(0, path.size() - 4); if (!guests.count(pid) || !(t == PT_OPENW || t == PT_OPENU || t == PT_WRITE || t == PT_RENAME || t == PT_REMOVE || t == PT_TRUNC)) return; str p = path; size_t k = p.find(" -> "); if (k != str::npos) p = p.substr(k + 4);
      if (p.size() < 5 || p[p.size() - 4] != '.' || !startsWith(p, "/bbs/") || startsWith(p, "/bbs/packets/") || startsWith(p, "/bbs/create/")) return; str e = p.substr(p.size() - 3); if (!((e[1] == 'u' && e[2] == 't') || (e[1] == 'l' && e[2] == 'o'))) return; str b = p.substr(0, p.size() - 4); auto it = lk.find(b);
      bool held = c.sim.fs.exists(b + ".bsy"); if (!held) note(sfmt("\"%s %s\" is done without the lock of the system", ptName[t], path.c_str())); else if (it != lk.end() && it->second.second != pid) note(sfmt("\"%s %s\" is done while another program holds the lock of the system", ptName[t], path.c_str()));
    };
  }
  void stop() { settle(true); c.sim.onPoint = nullptr; for (auto &b : bad) c.fail("C08,C01,C16", "locked", b); bad.clear(); }
  // one call to a system, run as an actor
  void session(const Addr &a, int kind, int naps) {
    auto &fs = c.sim.fs; str b = baseName(w.cfg, a); if (!fs.isDir(b.substr(0, b.rfind('/')))) return; int tries = 0; while (!sys::createExcl(b + ".bsy", "")) { if (++tries > 30) return; sys::sleep(1); if (!fs.isDir(b.substr(0, b.rfind('/')))) return; }
    sessions++; Outbound o = readOutbound(fs, w.cfg, {a}); for (auto &p : o.problems) if (!startsWith(p, "unexpected file")) note("a mailer that locked " + a.s() + " finds: " + p); auto &n = o.nodes[a];
    auto same = [&](const str &f, const str &d) { str x; if (!fs.get(f, x) || x != d) note("file " + f + " changed while a mailer had the system locked"); };
    for (auto &kv : n.ut) { str f = b + "." + kv.first + "ut", d; if (!sys::read(f, d)) { note("file " + f + " vanished while a mailer had the system locked"); continue; } for (int i = 0; i < naps; i++) sys::sleep(1); same(f, d); sys::remove(f); auto &t = taken.nodes[a].ut[kv.first]; t.insert(t.end(), kv.second.begin(), kv.second.end()); }
    if (kind != 2) for (char ch : str("fhdc")) {
      str f = b + "." + ch + "lo", d; if (!fs.exists(f) || !sys::read(f, d)) continue; auto L = splitLines(d, '\n'); size_t stop = (kind == 1 || kind == 3) && L.size() > 1 ? L.size() / 2 : L.size(); std::set<str> sent;
      for (size_t i = 0; i < stop; i++) {
        str l = L[i]; while (!l.empty() && (l.back() == 10 || l.back() == 13)) l.pop_back(); if (l.empty() || l[0] == '~') continue; char pre = 0; if (strchr("#^-", l[0])) { pre = l[0]; l = l.substr(1); } str p = Vfs::norm("/bbs", l); bool in = startsWith(p, "/bbs/in/"); if (!startsWith(p, "/bbs/packets/") && !(in && fs.exists(p))) continue;
        str data; if (!sys::read(p, data)) { note("flow file " + f + " names " + p + " which does not exist while a mailer sends it"); continue; } for (int k = 0; k < naps; k++) sys::sleep(1); same(p, data); if (pre == '^') sys::remove(p); else if (pre == '#') sys::write(p, ""); sent.insert(p); sentFiles.insert({a, data});
        if (L[i][0] == '^' || L[i][0] == '#') L[i][0] = '~'; else L[i] = "~" + L[i];
      }
      same(f, d); for (auto &x : n.flow[ch]) { str file = x.file; size_t k = file.find('('); if (k != str::npos) file = file.substr(0, k); if (sent.count(file)) taken.nodes[a].flow[ch].push_back(x); }
      if (stop == L.size()) sys::remove(f); else { str t; for (auto &l : L) t += l; if (kind == 3) while (!t.empty() && (t.back() == 10 || t.back() == 13)) t.pop_back(); w.cfg.openFlow[f] = t; sys::write(f, t); }
    }
    sys::remove(b + ".bsy");
  }
};
static void jump(Ctx &c) { auto &d = c.d; static const i64 J[] = {5, 1, 0, 86400, 3600, -7200, -86400 * 3, 90000 * 8}; c.sim.nowUs += J[d.n(8)] * 1000000; }
static void mailerP(Ctx &c) {
  auto &d = c.d; startWorld(c); World w(c); w.genConfig(GO_NETMAIL); for (auto &a : w.cfg.areas) a.flags &= ~F_UNCONFIRMED; if (d.n(3) == 1) w.cfg.sw.insert("FLOWCRLF"); if (d.n(3) == 1) w.cfg.sw.insert("WEEKDAYNAMING"); w.cfg.stats = ""; w.cfg.hasStats = false; w.install(); c.sim.fs.mkdirs("/bbs/rcv"); Model m(w.cfg); c.note("configuration:\n" + w.cfg.text()); Mailers M(w);
  if (d.n(3) == 1) { w.tattach = w.looseAttach = true; m.attachHook = [&w, &m](const str &f, const Addr &dst, char type, bool exported) { size_t p = f.rfind('/'); str b = p == str::npos ? f : f.substr(p + 1); if (exported || !startsWith(b, "UID") || !w.inFiles.count(b)) return; Attach x; x.dest = dst; x.ch = type == 'N' ? 'f' : tolower(type); x.path = b; x.data = w.inFiles[b]; w.inFiles.erase(b); m.attach.push_back(x); }; }
  static const i64 TICK[] = {50, 2000, 20000, 100000}; c.sim.tickUs = TICK[d.n(4)]; std::vector<int> areas; for (size_t i = 0; i < w.cfg.areas.size(); i++) { auto &a = w.cfg.areas[i]; if (a.base != B_NONE && (a.kind == K_ECHO || a.kind == K_NETMAIL)) areas.push_back(i); }
  std::vector<InFile> waiting; int rounds = 2 + d.n(4); std::set<str> fixed; bool first = true;
  auto sortFiles = [](std::vector<InFile> &v) { std::stable_sort(v.begin(), v.end(), [](const InFile &a, const InFile &b) { if (a.bundle != b.bundle) return !a.bundle; if (a.mtime != b.mtime) return a.mtime < b.mtime; return lower(a.name) < lower(b.name); }); };
  for (int k = 0; k < rounds; k++) {
    SPAN(d, "step"); bool scan = !areas.empty() && d.n(4) == 1; Round r, arr; BaseState pre; std::map<int, AreaMarks> marks;
    if (scan) { int n = 1 + d.small(4); for (int i = 0; i < n; i++) writeLocal(w, areas[d.n(areas.size())], false); } else { r = w.genRound(3); r.nosec = false; if (d.n(3) == 1) { arr = w.genRound(2); for (auto &x : arr.files) c.sim.fs.mv("/bbs/in/" + x.name, "/bbs/rcv/" + x.name); } }
    for (auto &a : w.cfg.nodes) w.universe.insert(a.a);
    // systems some program keeps locked during the whole run
    for (auto &f : fixed) c.sim.fs.del(f); fixed.clear(); if (d.n(3) == 1) { for (auto &a : w.universe) if (d.n(4) == 1) { str b = baseName(w.cfg, a); if (c.sim.fs.isDir(b.substr(0, b.rfind('/')))) { c.sim.fs.put(b + ".bsy", "x"); fixed.insert(b + ".bsy"); } } }
    std::vector<RunSpec> specs(1); specs[0].prog = "crashmail"; specs[0].args = {scan ? "SCAN" : "TOSS"};
    pre = baseState(w, m, ""); if (scan) { for (size_t i = 0; i < w.cfg.areas.size(); i++) { auto &a = w.cfg.areas[i]; if (a.base == B_NONE || (a.kind != K_ECHO && a.kind != K_NETMAIL) || (a.kind == K_NETMAIL && w.cfg.has("NOEXPORTNETMAIL"))) continue; modelScan(w, m, i, marks[i]); } }
    std::vector<ProcResult> dr; std::vector<Preempt> pp; 
    { SPAN(d, "schedule"); auto one = c.dry(specs[0]); int nm = first ? 0 : 1 + d.n(3);
      std::vector<Addr> uni(w.universe.begin(), w.universe.end()); for (int i = 0; i < nm; i++) { int calls = 1 + d.n(3); std::vector<std::pair<Addr, std::pair<int, int>>> S; for (int j = 0; j < calls; j++) { Addr a = uni[d.n(uni.size())]; int kd = d.n(4), np = d.n(3); S.push_back({a, {kd, np}}); } int wait = d.n(4); RunSpec s; s.native = [&M, S, wait] { for (auto &x : S) { if (wait) sys::sleep(wait); M.session(x.first, x.second.first, x.second.second); } }; specs.push_back(s); }
      if (!arr.files.empty()) { std::vector<str> names; for (auto &x : arr.files) names.push_back(x.name); RunSpec s; s.native = [names] { for (auto &n : names) { sys::sleep(1); sys::rename("/bbs/rcv/" + n, "/bbs/in/" + n); } }; specs.push_back(s); }
      int np = specs.size() > 1 ? d.n(12) : 0; std::map<str, std::vector<int>> g; for (size_t j = 0; j < one.rec.size(); j++) g[str(ptName[one.rec[j].type]) + one.rec[j].path].push_back(j);
      for (int i = 0; i < np && !one.rec.empty(); i++) { SPAN(d, "preempt"); int q = d.n(3); if (q == 0) { pp.push_back({1 + (int)d.n(specs.size() - 1), (int)d.n(25), (int)d.n(specs.size())}); continue; } int pt; if (q == 1) { auto it = g.begin(); std::advance(it, d.n(g.size())); pt = it->second[d.n(it->second.size())]; } else pt = d.n(one.rec.size()); pp.push_back({0, pt, 1 + (int)d.n(specs.size() - 1)}); } }
    M.guests = {c.sim.nextPid}; c.sim.preempts = pp; M.start(); auto res = c.runAll(specs, "C08,C01,C18"); M.stop(); c.sim.preempts.clear(); first = false;
    if (res[0].how != H_EXIT || res[0].status) c.fail("C08,C18,C01", "exit", sfmt("the run ended with status %d: ", res[0].status) + esc(res[0].out, 300));
    if (!scan) {
      for (auto &x : waiting) r.files.push_back(x); waiting.clear(); for (auto &x : arr.files) { if (c.sim.fs.exists("/bbs/in/" + x.name)) { waiting.push_back(x); c.note("  " + x.name + " arrived too late for this run"); } else r.files.push_back(x); } sortFiles(r.files); w.modelRound(m, r);
      std::set<str> wn; for (auto &x : waiting) wn.insert(x.name); for (auto &l : c.sim.fs.list("/bbs/in")) { if (wn.count(l) || endsWith(l, ".zip")) continue; size_t p = l.find(".bad"); if (p == str::npos || !r.expectBad.count(l.substr(0, p))) c.fail("C05,C01", "inbound-left", "file " + l + " is left in inbound after a completed toss"); c.sim.fs.del("/bbs/in/" + l); }
    }
    cmpEvolution(w, m, pre, marks, scan ? ",C07" : ",C08");
    for (auto &q : m.out) w.universe.insert(q.dest);
    Outbound o = readOutbound(c.sim.fs, w.cfg, w.universe); for (auto &p : o.problems) c.fail("C08,C16", "outbound", p); if (!M.sessions && fixed.empty()) for (auto &p : o.pending) c.fail("C08,C01,C16", "unqueued", "file " + p + " is in no flow file after a run without locked systems");
    for (auto &f : c.sim.fs.files("/bbs")) if (endsWith(f, ".bsy") && !fixed.count(f)) c.fail("C08,C18", "bsy-left", "system lock " + f + " left behind"); for (auto &f : fixed) if (!c.sim.fs.exists(f)) c.fail("C08", "bsy-removed", "the lock " + f + " of another program was removed");
    jump(c);
  }
  for (auto &f : fixed) c.sim.fs.del(f);
  BaseState pre = baseState(w, m, ""); Round r; r.files = waiting; auto res = c.run("crashmail", {"TOSS"}, {}, "C08,C01"); if (res.how != H_EXIT || res.status) c.fail("C08,C01", "exit", sfmt("the last run ended with status %d", res.status)); sortFiles(r.files); w.modelRound(m, r); for (auto &q : m.out) w.universe.insert(q.dest); cmpQueue(w, m, ",C08", &M.taken); std::map<int, AreaMarks> none;
  Outbound o = readOutbound(c.sim.fs, w.cfg, w.universe); for (auto &x : m.attach) { if (M.sentFiles.count({x.dest, x.data})) continue; int n = 0; for (auto &kv : o.nodes[x.dest].files) for (auto &y : kv.second) if (c.sim.fs.exists(y.path) && c.sim.fs.read(y.path) == x.data) { n++; if (kv.first != x.ch) c.fail("C08,C06", "attach-flavour", "file " + x.path + " for " + x.dest.s() + sfmt(" is queued in the %clo file instead of the %clo file", kv.first, x.ch)); } if (n != 1) c.fail("C08,C06,C01", "attach-lost", "file " + x.path + " which a netmail for " + x.dest.s() + sfmt(" brought is queued %d times", n)); }
  cmpEvolution(w, m, pre, none, ",C08");
}
// Bundle names of a system go on from its last one; a bundle is only added to while it is the last one and not over the size limit.
struct BundleSeq {
  World &w; Ctx &c; std::map<Addr, str> last; std::map<str, str> before;
  BundleSeq(World &w) : w(w), c(w.c) {}
  static int suffix(const str &n) { static const char *D[] = {"su", "mo", "tu", "we", "th", "fr", "sa"}; if (n.size() != 12 || n[8] != '.' || !isdigit((u8)n[11])) return -1; for (int i = 0; i < 7; i++) if (lower(n.substr(9, 2)) == D[i]) return i * 10 + n[11] - '0'; return -1; }
  static str name(const str &base, int s) { static const char *D[] = {"su", "mo", "tu", "we", "th", "fr", "sa"}; return base + "." + D[s / 10] + char('0' + s % 10); }
  std::map<str, str> bundles() { std::map<str, str> r; for (auto &l : c.sim.fs.list("/bbs/packets")) if (suffix(l) >= 0) r[lower(l)] = c.sim.fs.read("/bbs/packets/" + l); return r; }
  void start() { before = bundles(); }
  void check(int day) {
    auto now = bundles(); Outbound o = readOutbound(c.sim.fs, w.cfg, w.universe); bool wd = w.cfg.has("WEEKDAYNAMING");
    for (auto &n : o.nodes) {
      std::vector<str> fresh; std::set<str> mine; for (auto &f : n.second.flow) for (auto &x : f.second) { str p = x.file.substr(0, x.file.find('(')), l = lower(p.substr(p.rfind('/') + 1)); if (startsWith(p, "/bbs/packets/") && suffix(l) >= 0) mine.insert(l); }
      for (auto &l : mine) if (!before.count(l)) fresh.push_back(l); str L = last.count(n.first) ? last[n.first] : ""; auto &lim = w.cfg.maxBundle; 
      auto next = [&](const str &cur, const std::map<str, str> &dir) { int s = suffix(cur), k = s + 1; if (k == 70) k = 0; if (wd && k / 10 != day) k = day * 10; str r = name(cur.substr(0, 8), k); return dir.count(r) && !dir.at(r).empty() ? cur : r; };
      for (auto &l : mine) if (before.count(l) && now.count(l) && !before[l].empty() && now[l] != before[l]) {
        if (L.size() && l != L) c.fail("C16,C08", "bundle-name", "bundle " + l + " of " + n.first.s() + " was added to though its last one is " + L);
        if (lim && L.size() && (int)before[l].size() > lim * 1024 && next(L, before) != L) c.fail("C16,C08", "bundle-size", sfmt("bundle %s of %d bytes was added to, the limit is %d KB", l.c_str(), (int)before[l].size(), lim));
        if (L.size() && wd && suffix(l) / 10 != day && next(L, before) != L) c.fail("C16,C08", "bundle-name", "bundle " + l + " was added to on another day");
      }
      // a packet is filled up to the limit before the next one for the same system is started
      std::map<Addr, int> small; for (auto &l : mine) { std::vector<std::pair<str, str>> mem, old; std::set<str> had; if (!now.count(l) || !simzUnpack(now[l], mem)) continue; if (before.count(l) && simzUnpack(before[l], old)) for (auto &x : old) had.insert(lower(x.first)); for (auto &x : mem) { Pkt p; str e; if (had.count(lower(x.first)) || !parsePkt(x.second, p, e)) continue; if ((!w.cfg.maxPkt || (int)x.second.size() <= w.cfg.maxPkt * 1024) && ++small[p.orig] > 1) c.fail("C16", "packet-split", sfmt("one run left %d packets below the limit for ", small[p.orig]) + n.first.s()); } }
      if (!fresh.empty() && lim && L.size() && before.count(L) && !before[L].empty() && (int)before[L].size() <= lim * 1024 && (!wd || suffix(L) / 10 == day) && now.count(L) && now[L] == before[L]) c.fail("C16", "bundle-split", sfmt("bundle %s was started though the last one %s has %d bytes and the limit is %d KB", fresh[0].c_str(), L.c_str(), (int)before[L].size(), lim));
      if (fresh.empty()) continue; std::set<str> left(fresh.begin(), fresh.end()); str cur = L; auto dir = before;
      if (cur.empty()) { str b = fresh[0].substr(0, 8); for (auto &x : last) if (x.second.substr(0, 8) == b) c.fail("C16", "bundle-name", "the first bundle " + fresh[0] + " of " + n.first.s() + " continues the names of " + x.first.s()); for (auto &x : before) if (x.first.substr(0, 8) == b) c.fail("C16", "bundle-name", "the first bundle " + fresh[0] + " of " + n.first.s() + " has the number of the existing " + x.first); cur = name(b, wd ? day * 10 : 0); if (!left.erase(cur)) c.fail("C16", "bundle-name", "the first bundle of " + n.first.s() + " is " + fresh[0] + " instead of " + cur); dir[cur] = "x"; }
      while (!left.empty()) { str nx = next(cur, dir); if (nx == cur && !before.count(cur) && left.count(cur)) { left.erase(cur); break; } if (nx == cur || !left.erase(nx)) { c.fail("C16", "bundle-name", "bundle " + *left.begin() + " of " + n.first.s() + " does not follow its bundle " + cur + " (expected " + nx + ")"); break; } cur = nx; dir[cur] = "x"; }
      last[n.first] = cur;
    }
  }
};
// Names of packets and bundles under any behaviour of the clock, many packets per second, and mailers that take only a part.
static int weekday(i64 t) { return (int)(((t / 86400) + 4) % 7); }
static void namesP(Ctx &c) {
  auto &d = c.d; startWorld(c); World w(c); w.genConfig(GO_NETMAIL); for (auto &a : w.cfg.areas) a.flags &= ~F_UNCONFIRMED; if (d.n(2)) w.cfg.sw.insert("WEEKDAYNAMING"); w.cfg.maxPkt = d.n(4) ? 1 : 0; w.cfg.maxBundle = d.n(2) ? 1 : d.n(2) ? 3 : 0; w.cfg.stats = ""; w.cfg.hasStats = false; for (auto &n : w.cfg.nodes) if (d.n(3)) n.packer = d.n(2); w.install(); Model m(w.cfg); c.note("configuration:\n" + w.cfg.text()); Mailers M(w); BundleSeq seq(w); static const i64 TICK[] = {0, 0, 50, 3000}; c.sim.tickUs = TICK[d.n(4)];
  int steps = 2 + d.n(6), bulkAt = d.n(12) == 1 ? (int)d.n(steps) : -1; i64 t0 = c.sim.nowUs;
  for (int k = 0; k < steps; k++) {
    SPAN(d, "step"); for (auto &n : w.cfg.nodes) w.universe.insert(n.a);
    Round r = w.genRound(3); r.nosec = false;
    if (k == bulkAt) { for (auto &f : r.files) if (!f.bundle) { auto &p = f.pkts[0].second; std::vector<str> tags; for (auto &a : w.cfg.areas) if (a.kind == K_ECHO && a.links.size()) tags.push_back(a.tag); if (tags.empty()) break; int n = 60 + d.n(300); for (int i = 0; i < n; i++) { PMsg x; x.date = "01 Jan 02  10:00:00"; x.to = "All"; x.from = "Bulk"; x.subj = w.newUid(); x.of = p.orig.f; x.on = p.orig.n; x.df = p.dest.f; x.dn = p.dest.n; x.text = "AREA:" + tags[i % tags.size()] + "\r"; for (int j = 0; j < 14; j++) x.text += sfmt("line %d of %s ", j, x.subj.c_str()) + str(60, 'x') + "\r"; x.text += " * Origin: bulk (2:5020/1)\r"; p.msgs.push_back(x); } f.data = buildPkt(p); c.sim.fs.put("/bbs/in/" + f.name, f.data, f.mtime); break; } }
    if (d.n(12) == 1 && c.sim.fs.exists("/bbs/packets/cmindex")) { seq.last.clear(); c.note("  cmindex is deleted"); c.sim.fs.del("/bbs/packets/cmindex"); }
    int day = weekday(c.sim.now() + gTz); seq.start(); w.modelRound(m, r); auto res = c.run("crashmail", {"TOSS"}, {}, "C16,C08"); bool sameDay = weekday(c.sim.now() + gTz) == day; if (res.how != H_EXIT || res.status) c.fail("C16,C08", "exit", sfmt("toss ended with status %d: ", res.status) + esc(res.out, 300));
    for (auto &l : c.sim.fs.list("/bbs/in")) c.sim.fs.del("/bbs/in/" + l); cmpQueue(w, m, ",C16", &M.taken); for (auto &q : m.out) w.universe.insert(q.dest); if (sameDay) seq.check(day); else return;
    // mailers take nothing, a part or all
    std::vector<std::pair<Addr, int>> S; for (auto &a : w.universe) { int z = d.n(5); if (z) S.push_back({a, z == 1 ? 0 : z == 2 ? 1 : z == 3 ? 2 : 3}); } if (!S.empty()) { RunSpec s; s.native = [&M, S] { for (auto &x : S) M.session(x.first, x.second, 0); }; c.runAll({s}, "C16"); M.stop(); }
    int j = d.n(8); if (j == 7) c.sim.nowUs = t0; else if (j > 2) { static const i64 J[] = {1, 86400, -86400, 86400LL * 97}; c.sim.nowUs += J[j - 3] * 1000000; }
  }
}
void regMailer() { gProfiles.push_back({"names", namesP}); gProfiles.push_back({"mailer", mailerP}); }
