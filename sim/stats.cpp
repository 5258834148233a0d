#include "stats.hpp"
#include <cstring>
#include <ctime>

static i64 get64(const str &d, size_t o) { return (i64)((u64)get32(d, o) | (u64)get32(d, o + 4) << 32); }
bool parseStats(const str &d, StatFile &s, str &err) {
  s = StatFile(); s.exists = true; if (d.size() < 12 || d.compare(0, 4, "CST3")) { err = "identifier missing"; return false; } s.day = get32(d, 4); u32 n = get32(d, 8); size_t o = 12;
  for (u32 i = 0; i < n; i++, o += 136) { if (o + 136 > d.size()) { err = "area records incomplete"; return false; } StatFile::A a; a.tag = d.substr(o, 80).c_str(); a.group = d[o + 88]; a.total = get32(d, o + 92); for (int k = 0; k < 8; k++) a.last8[k] = get16(d, o + 96 + 2 * k); a.dupes = get32(d, o + 112); a.first = get64(d, o + 120); a.last = get64(d, o + 128); s.areas.push_back(a); }
  if (o + 4 > d.size()) { err = "node count missing"; return false; } n = get32(d, o); o += 4;
  for (u32 i = 0; i < n; i++, o += 56) { if (o + 56 > d.size()) { err = "node records incomplete"; return false; } StatFile::N x; x.a = {get16(d, o), get16(d, o + 2), get16(d, o + 4), get16(d, o + 6)}; u32 *f[] = {&x.gotN, &x.gotNB, &x.sentN, &x.sentNB, &x.gotE, &x.gotEB, &x.sentE, &x.sentEB, &x.dupes}; for (int k = 0; k < 9; k++) *f[k] = get32(d, o + 8 + 4 * k); x.first = get64(d, o + 48); s.nodes.push_back(x); }
  if (o != d.size()) { err = "data after the last record"; return false; } return true;
}
static bool saved(const AreaC &a) { return (a.kind == K_ECHO || a.kind == K_NETMAIL || a.kind == K_BAD) && !(a.flags & F_UNCONFIRMED); }
void StatTrack::commit(i64 t0, i64 t1) {
  u32 nd = t1 / 86400; if (!day) day = nd; m.as.resize(w.cfg.areas.size()); nodeFirst.resize(w.cfg.nodes.size());
  for (size_t i = 0; i < w.cfg.areas.size(); i++) {
    auto &s = m.as[i]; if (nd > day) for (u32 k = 0; k < std::min(nd - day, 8u); k++) { for (int e = 7; e > 0; e--) s.last8[e] = s.last8[e - 1]; s.last8[0] = 0; }
    s.total += s.newTexts; s.last8[0] += s.newTexts; s.dupes += s.newDupes; if (s.newTexts) { s.lastTime = t1; if (!s.firstTime) s.firstTime = t1; } s.newTexts = s.newDupes = 0;
  }
  day = nd; for (size_t i = 0; i < w.cfg.nodes.size(); i++) { auto &n = m.ns[i]; if (!nodeFirst[i] && (n.gotN || n.gotE || n.sentN || n.sentE)) nodeFirst[i] = t1; }
}
bool StatTrack::same(StatFile &s, i64 t0, i64 t1, str &df) {
  auto bad = [&](const str &x) { df = x; return false; }; if (!s.exists) { return bad("there is no statistics file"); } if (s.day != day) return bad(sfmt("the file is for day %u, expected %u", s.day, day)); std::set<str> seen; i64 slack = t1 - t0;
  auto near = [&](i64 have, i64 &want) { bool ok = want == 0 ? have == 0 : have <= want && have >= want - slack; if (ok) want = have; return ok; };
  for (size_t i = 0; i < w.cfg.areas.size(); i++) { auto &a = w.cfg.areas[i]; auto &e = m.as[i]; int n = 0; for (auto &g : s.areas) if (ieq(g.tag, a.tag)) {
    n++; str p = "area " + a.tag + ": "; if (g.total != e.total) return bad(p + sfmt("total %u, expected %u", g.total, e.total)); if (g.dupes != e.dupes) return bad(p + sfmt("duplicates %u, expected %u", g.dupes, e.dupes)); for (int k = 0; k < 8; k++) if (g.last8[k] != e.last8[k]) return bad(p + sfmt("%u messages %d days ago, expected %u", g.last8[k], k, e.last8[k]));
    if (!near(g.first, e.firstTime)) return bad(p + sfmt("first message at %lld, expected %lld", (long long)g.first, (long long)e.firstTime)); if (!near(g.last, e.lastTime)) return bad(p + sfmt("last message at %lld, expected %lld", (long long)g.last, (long long)e.lastTime)); if (g.group != a.group) return bad(p + "group"); }
    if (saved(a) ? n != 1 : n != 0) return bad("area " + a.tag + sfmt(" is there %d times", n)); }
  if (s.nodes.size() != w.cfg.nodes.size()) return bad("number of systems");
  for (size_t i = 0; i < w.cfg.nodes.size(); i++) { auto &e = m.ns[i]; int n = 0; for (auto &g : s.nodes) if (g.a == w.cfg.nodes[i].a) { n++; str p = "system " + g.a.s() + ": ";
#define V(x) if (g.x != e.x) return bad(p + #x + sfmt(" is %u, expected %u", g.x, e.x));
    V(gotN) V(sentN) V(gotE) V(sentE) V(dupes)
#define B(x) if (g.x != (u32)e.x) return bad(p + #x + sfmt(" is %u, expected %u", g.x, (u32)e.x));
    B(gotNB) B(gotEB) B(sentEB)
    if (g.sentNB < (u32)e.sentNB || (!e.autoN && g.sentNB > (u32)e.sentNB + 150 * e.sentN)) return bad(p + sfmt("bytes of netmail sent are %u, at least %u were", g.sentNB, (u32)e.sentNB));   // Via lines added
#undef V
#undef B
    if (!near(g.first, nodeFirst[i])) return bad(p + "date of the first message"); } if (n != 1) return bad("system " + w.cfg.nodes[i].a.s() + sfmt(" is there %d times", n)); }
  return true;
}
void StatTrack::check(i64 t0, i64 t1, const str &tags) {
  commit(t0, t1); if (!w.cfg.hasStats) return; str d, err; StatFile s; if (w.c.sim.fs.get("/bbs/" + w.cfg.stats, d) && !parseStats(d, s, err)) { w.c.fail("C13" + tags, "stats-damaged", "the statistics file is damaged: " + err); return; } if (!same(s, t0, t1, err)) w.c.fail("C13" + tags, "stats", "statistics: " + err);
}
static str dmy(i64 t, const char *f = "%02d-%s-%02d") { static const char *M[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"}; time_t x = t + gTz; struct tm tm; gmtime_r(&x, &tm); return sfmt(f, tm.tm_mday, M[tm.tm_mon], tm.tm_year % 100); }
static str unitOf(u32 i) { return i > 10000000 ? sfmt("%u MB", i / (1024 * 1024)) : i > 10000 ? sfmt("%u KB", i / 1024) : sfmt("%u bytes", i); }
void StatTrack::viewer(const StatFile &s) {
  auto &c = w.c; auto &d = c.d; std::vector<str> args{w.cfg.stats}; str sort; bool last7 = d.n(3) == 1, noA = d.n(6) == 1, noN = !noA && d.n(6) == 1; str group; char sm = 'a'; if (d.n(2)) { static const char *S[] = {"alpha", "total", "msgsday", "date", "lastdate", "upes", "Dupes"}; sort = S[d.n(6)]; args.push_back("SORT"); args.push_back(sort); sm = tolower(sort[0]); } if (last7) args.push_back("LAST7"); if (noA) args.push_back("NOAREAS"); if (noN) args.push_back("NONODES"); if (d.n(5) == 1) { group = d.n(2) ? "A" : "bc"; args.push_back("GROUP"); args.push_back(group); }
  if (sm == 'd' && ieq(sort, "Dupes")) sm = 'd'; str before = c.sim.fs.read("/bbs/" + w.cfg.stats); auto r = c.run("crashstats", args, {}, "C13,C20"); if (r.how != H_EXIT || r.status) c.fail("C13,C20", "viewer", sfmt("crashstats ended with status %d: ", r.status) + esc(r.out, 200)); if (c.sim.fs.read("/bbs/" + w.cfg.stats) != before) c.fail("C13,C20", "viewer", "crashstats changed the statistics file");
  std::vector<str> lines = splitLines(r.out, '\n'); for (auto &l : lines) while (!l.empty() && l.back() == '\n') l.pop_back(); auto has = [&](const str &l) { int n = 0; for (auto &x : lines) n += x == l; return n; }; std::vector<const StatFile::A *> A; for (auto &a : s.areas) if (group.empty() || (a.group && upper(group).find(toupper(a.group)) != str::npos)) A.push_back(&a);
  auto pos = [&](const str &l) { for (size_t i = 0; i < lines.size(); i++) if (lines[i] == l) return (int)i; return -1; }; auto when = [](i64 t) { return t ? dmy(t) : str("<Never>"); };
  auto avg = [&](const u32 *l8, u32 total, i64 first) -> i64 { if (!s.day || !first) return 0; i64 days = (i64)s.day - first / 86400; if (days < 0) return -1; u32 k = std::min<i64>(days, 7), sum = 0; for (u32 i = 1; i <= k; i++) sum += l8[i]; if (!sum && total) return total / std::max<i64>(days, 1); return sum / std::max(k, 1u); };
  if (!noA) {
    std::map<const StatFile::A *, int> at; bool amb = false; std::map<str, int> names; u32 tot8[8] = {}, total = 0, dupes = 0; i64 ft = 0;
    for (auto a : A) { i64 av = avg(a->last8, a->total, a->first); u32 t7 = 0; for (int i = 1; i < 8; i++) t7 += a->last8[i]; for (int i = 0; i < 8; i++) tot8[i] += a->last8[i]; total += a->total; dupes += a->dupes; if (av < 0) { amb = true; continue; }
      str l = last7 ? sfmt("%-33.33s %4u %4u %4u %4u %4u %4u %4u : %5u", a->tag.c_str(), a->last8[1], a->last8[2], a->last8[3], a->last8[4], a->last8[5], a->last8[6], a->last8[7], t7) : sfmt("%-29.30s %-9.9s %-9.9s %7u   %7u %7u", a->tag.c_str(), when(a->first).c_str(), when(a->last).c_str(), a->total, (u32)av, a->dupes);
      if (has(l) < 1) { c.fail("C13", "viewer", "crashstats does not show the line \"" + l + "\":\n" + r.out.substr(0, 1500)); return; } if (has(l) > 1) amb = true; at[a] = pos(l); }
    if (!amb) { // order
      std::vector<const StatFile::A *> o = A; std::sort(o.begin(), o.end(), [&](const StatFile::A *x, const StatFile::A *y) { return at[x] < at[y]; });
      for (size_t i = 1; i < o.size(); i++) { auto x = o[i - 1], y = o[i]; bool ok = true; switch (sm) { case 'a': ok = lower(x->tag) <= lower(y->tag); break; case 't': ok = x->total >= y->total; break; case 'm': ok = avg(x->last8, x->total, x->first) >= avg(y->last8, y->total, y->first); break; case 'd': ok = x->first >= y->first; break; case 'l': ok = x->last >= y->last; break; case 'u': ok = x->dupes >= y->dupes; break; } if (!ok) c.fail("C13", "viewer", "crashstats SORT " + sort + ": area " + x->tag + " before " + y->tag); } }
    u32 t7 = 0; for (int i = 1; i < 8; i++) t7 += tot8[i]; (void)ft; str lab = sfmt("Totally in all %zu areas", A.size()); if (last7) { str l = sfmt("%-33.33s %4u %4u %4u %4u %4u %4u %4u : %5u", lab.c_str(), tot8[1], tot8[2], tot8[3], tot8[4], tot8[5], tot8[6], tot8[7], t7); if (!has(l)) c.fail("C13", "viewer", "crashstats does not show the line \"" + l + "\""); }
    else { str pre = sfmt("%-42s         %7u   ", lab.c_str(), total), suf = sfmt(" %7u", dupes); bool ok = false; for (auto &l : lines) ok |= startsWith(l, pre) && endsWith(l, suf); if (!ok) c.fail("C13", "viewer", "crashstats does not show the sums \"" + pre + "..." + suf + "\""); }
  }
  if (!noN) for (auto &n : s.nodes) {
    str h = sfmt("%-30.40s Statistics since: ", sfmt("%d:%d/%d.%d", n.a.z, n.a.n, n.a.f, n.a.p).c_str()); int p = -1; for (size_t i = 0; i < lines.size(); i++) if (startsWith(lines[i], h)) p = i; if (p < 0) { c.fail("C13", "viewer", "crashstats does not show system " + n.a.s()); continue; }
    if (lines[p].substr(h.size()) != (n.first ? dmy(n.first, "%0d-%s-%0d") : str("<Never>"))) c.fail("C13", "viewer", "crashstats: date of system " + n.a.s());
    str want[] = {sfmt("Sent netmails: %u/%s", n.sentN, unitOf(n.sentNB).c_str()), sfmt("Received netmails: %u/%s", n.gotN, unitOf(n.gotNB).c_str()), sfmt("Sent echomails: %u/%s", n.sentE, unitOf(n.sentEB).c_str()), sfmt("Received echomails: %u/%s", n.gotE, unitOf(n.gotEB).c_str()), sfmt("Dupes: %u", n.dupes)};
    for (int k = 0; k < 5; k++) if ((size_t)(p + 2 + k) >= lines.size() || !endsWith(lines[p + 2 + k], want[k])) { c.fail("C13", "viewer", "crashstats, system " + n.a.s() + ": expected \"" + want[k] + "\""); break; }
  }
}
// ---- profile: tosses and scans over many days, with clock changes and faults
#include "bases.hpp"
#include "faulted.hpp"
static void statsP(Ctx &c) {
  auto &d = c.d; startWorld(c); World w(c); w.genConfig(GO_NETMAIL | (d.n(2) ? GO_AUTOADD : 0) | (d.n(2) ? GO_JAM : 0)); for (auto &a : w.cfg.areas) if (a.kind == K_ECHO && a.base == B_NONE && d.n(2)) { a.base = B_MSG; a.path = sfmt("base/p%d", (int)(&a - &w.cfg.areas[0])); } w.install(); Model m(w.cfg); StatTrack st(w, m); c.note("configuration:\n" + w.cfg.text()); int steps = 2 + d.n(8); bool fault = d.n(3) == 1; int fs = fault ? d.n(steps) : -1; FaultedWorld f(w);
  for (int k = 0; k < steps; k++) {
    SPAN(d, "day"); if (c.sim.now() % 86400 > 86400 - 3000) c.sim.nowUs += 4000ll * 1000000; i64 t0 = c.sim.now(); std::vector<str> args; bool toss = d.n(4) != 1; Model m0 = m; (void)m0;
    std::vector<int> sc; for (size_t i = 0; i < w.cfg.areas.size(); i++) { auto &a = w.cfg.areas[i]; if (a.base != B_NONE && (a.kind == K_ECHO || a.kind == K_NETMAIL) && !(a.flags & F_UNCONFIRMED)) sc.push_back(i); } if (sc.empty()) toss = true;
    if (toss) { Round r = w.genRound(3); w.modelRound(m, r); args = {"TOSS"}; if (r.nosec) args.push_back("NOSECURITY"); } else { int n = d.small(4); for (int i = 0; i < n; i++) writeLocal(w, sc[d.n(sc.size())], true); args = {"SCAN"}; for (int ai : sc) if (!(w.cfg.areas[ai].kind == K_NETMAIL && w.cfg.has("NOEXPORTNETMAIL"))) { AreaMarks mk; modelScan(w, m, ai, mk); } }
    str before = c.sim.fs.read("/bbs/" + w.cfg.stats); bool had = c.sim.fs.exists("/bbs/" + w.cfg.stats);
    if (k == fs) {
      RunSpec s; s.prog = "crashmail"; s.args = args; auto dr = c.dry(s); FaultMenu fm = f.menu(); fm.kinds = {FK_KILL, FK_ERR, FK_FULL, FK_TORN, FK_SHORT, FK_SIGINT, FK_KILL, FK_ALLOC}; 
      // half of the faults hit the writing of the statistics
      if (d.n(2)) { std::vector<int> pts; for (size_t i = 0; i < dr.rec.size(); i++) if (dr.rec[i].path.find(w.cfg.stats) != str::npos) pts.push_back(i); if (!pts.empty()) { static const FK K[] = {FK_KILL, FK_ERR, FK_SHORT, FK_TORN}; auto al = fm.allow; std::set<str> ps; fm.allow = [al, &w](FK q, const PointRec &p) { return p.path.find(w.cfg.stats) != str::npos && al(q, p); }; fm.kinds = {FK_KILL, FK_ERR, FK_SHORT, FK_TORN}; } }
      s.faults = c.planFaults(dr, fm); auto r = c.run(s, "C13,C18"); bool killOnly = r.how == H_KILLED; for (auto &x : r.fired) if (!startsWith(x, "kill") && !startsWith(x, "torn")) killOnly = false;
      str now = c.sim.fs.read("/bbs/" + w.cfg.stats), err; StatFile sf; if (now != before || had != c.sim.fs.exists("/bbs/" + w.cfg.stats)) { if (!parseStats(now, sf, err)) { c.fail("C13,C18", "stats-damaged", "after the faulted run the statistics file is damaged: " + err); return; } st.commit(t0, c.sim.now()); str df; if (killOnly && !st.same(sf, t0, c.sim.now(), df)) c.fail("C13,C18", "stats", "after the killed run the statistics are neither the old nor the new ones: " + df); }
      f.removeStale();
      // the next run can read what is there
      for (auto &l : c.sim.fs.list("/bbs/in")) c.sim.fs.del("/bbs/in/" + l); auto r2 = c.run("crashmail", {"TOSS"}, {}, "C13,C18"); if (r2.how != H_EXIT || r2.status) c.fail("C13,C18", "exit", sfmt("the run after the fault ended with status %d: ", r2.status) + esc(r2.out, 300));
      StatFile s2; if (!parseStats(c.sim.fs.read("/bbs/" + w.cfg.stats), s2, err)) { c.fail("C13,C18", "stats-damaged", "after the run after the fault the statistics file is damaged: " + err); return; } 
      if (sf.exists || had) { StatFile old = sf; if (!sf.exists) parseStats(before, old, err); for (auto &a : old.areas) for (auto &b : s2.areas) if (a.tag == b.tag && b.total < a.total) c.fail("C13,C18", "stats", "area " + a.tag + ": the total went down after a fault"); for (auto &a : old.nodes) for (auto &b : s2.nodes) if (a.a == b.a && (b.gotE < a.gotE || b.sentE < a.sentE || b.gotN < a.gotN || b.sentN < a.sentN)) c.fail("C13,C18", "stats", "system " + a.a.s() + ": the counts went down after a fault"); }
      st.viewer(s2); return;
    }
    auto r = c.run("crashmail", args, {}, "C13"); if (r.how != H_EXIT || r.status) c.fail("*", "exit", args[0] + sfmt(" ended with status %d: ", r.status) + esc(r.out, 300)); st.check(t0, c.sim.now(), "");
    for (auto &l : c.sim.fs.list("/bbs/in")) c.sim.fs.del("/bbs/in/" + l);
    if (d.n(3) == 1) { StatFile s; str err; if (parseStats(c.sim.fs.read("/bbs/" + w.cfg.stats), s, err)) st.viewer(s); }
    int g = d.n(10); i64 gap = g < 3 ? d.n(40000) : g < 7 ? 86400 * (1 + d.n(3)) + d.n(80000) : g == 7 ? 86400 * (i64)(5 + d.n(20)) : g == 8 ? 86400ll * d.n(2000) : -(i64)86400 * d.n(4); c.sim.nowUs += gap * 1000000; for (auto &a : std::set<Addr>(w.universe)) if (d.n(2)) w.mailerTakes(&m, a);
  }
}
void regStats() { gProfiles.push_back({"stats", statsP}); }
