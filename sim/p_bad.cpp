// Inbound files with arbitrary content next to good ones.
#include "world.hpp"
static void mutate(Draw &d, str &b, const str &other) {
  int n = 1 + d.small(6);
  for (int i = 0; i < n; i++) {
    size_t at = b.empty() ? 0 : d.n(3) == 1 ? d.n(std::min<size_t>(b.size(), 120)) : d.n(b.size());
    switch (d.n(9)) {
      case 0: if (!b.empty()) b[at] ^= 1 << d.n(8); break;
      case 1: if (!b.empty()) b[at] = d.n(256); break;
      case 2: b.insert(at, 1 + d.small(40), (char)d.n(256)); break;
      case 3: b.erase(at, 1 + d.small(60)); break;
      case 4: b.resize(at); break;
      case 5: if (!other.empty()) { size_t x = d.n(other.size()); b.insert(at, other.substr(x, 1 + d.n(200))); } break;
      case 6: { static const char *T[] = {"\1INTL ", "\1INTL 99999:99999/99999 -1:-1/-1\r", "\1MSGID: ", "\1FMPT ", "\1TOPT 70000\r", "\1FLAGS ", "AREA:", "SEEN-BY: ", "SEEN-BY: 1/2 3 4 99999/99999 -1 /\r", "\1PATH: ", "\1PATH: 1/2 / 3.4 5\r", " * Origin: (", " * Origin: x (9999999999:99999999999/9999999999.99999999)", "\r", "\r\r\r", "\n", "\1", "\1\r", "SEEN-BY:", "--- ", "%s%n", "\1REPLY: x\r", "\1Via "}; b.insert(at, T[d.n(sizeof T / sizeof *T)]); break; }
      case 7: b.insert(at, d.n(3000), "\rA \1"[d.n(4)]); break;
      default: { static const char *T[] = {"SEEN-BY: ", "\1PATH: ", "\1MSGID: ", "\1INTL ", "\1REPLY: ", " * Origin: ", "AREA:", "\1X ", "", "\1FLAGS: ", "\1FLAGS:", "\1RESCANNED ", "\1TID: ", "\1PID: "}; str s = T[d.n(14)]; static const char *W[] = {"123/456 ", "9", "1/2.3 ", "x", "2:3/4 ", " ", "ABCDEFGHIJ ", "\xe5\xe4"}; const char *w = W[d.n(8)]; int k = d.n(200); for (int j = 0; j < k; j++) s += w; s += "\r"; size_t p = b.find('\r', at); b.insert(p == str::npos ? at : p + 1, s); }
    }
  }
}
// addresses for which anything is queued
static void findQueued(World &w) {
  auto &fs = w.c.sim.fs; for (auto &d : fs.list("/bbs")) if (d == "out" || startsWith(d, "out.")) { int z = d == "out" ? w.cfg.akas[0].a.z : (int)strtol(d.c_str() + 4, nullptr, 16); str r = "/bbs/" + d + "/"; for (auto &f : fs.files("/bbs/" + d)) { str x = f.substr(r.size()); unsigned n, k, p = 0; if (sscanf(x.c_str(), "%4x%4x.pnt/%8x", &n, &k, &p) >= 2) w.universe.insert({z, (int)n, (int)k, (int)p}); } }
}
static void fuzzP(Ctx &c) {
  auto &d = c.d; startWorld(c); World w(c); unsigned o = GO_NETMAIL; if (d.n(3) == 1) o |= GO_JAM; w.genConfig(o); w.cfg.dupeSize = d.n(3) == 1 ? 200 : 0; bool dupes = w.cfg.dupeSize > 0; w.cfg.domains = false; for (auto &a : w.cfg.akas) a.domain.clear(); w.install(); Model m(w.cfg); c.note("configuration:\n" + w.cfg.text());
  int rounds = 1 + d.n(2);
  for (int k = 0; k < rounds; k++) {
    Round r = w.genRound(3); Model before = m; w.modelRound(m, r); std::map<str, str> fz; int nf = 1 + d.n(3);
    for (int i = 0; i < nf; i++) {
      SPAN(d, "fuzzed file"); Pkt p = w.genPkt(d.n(w.cfg.nodes.size())), q = w.genPkt(d.n(w.cfg.nodes.size())); str b = buildPkt(p); bool bundle = d.n(5) == 1; mutate(d, b, buildPkt(q)); str nm;
      if (d.n(12) == 1) { b.clear(); int n = d.n(400); for (int j = 0; j < n; j++) b += (char)d.n(256); }
      if (bundle) { str z; int mk = d.n(3); simzPack(z, sfmt("f%07d.pkt", ++w.pktNo), b); if (mk == 0) { simzPack(z, sfmt("f%07d.pkt", ++w.pktNo), buildPkt(q)); b = z; if (d.n(2)) b.resize(b.size() - 1 - d.n(std::min<size_t>(200, b.size() - 1))); } else b = z; nm = sfmt("ff%02d%04d.mo%d", k, i, i); } else nm = sfmt("ff%02d%04d.pkt", k, i);
      fz[nm] = b; c.sim.fs.put("/bbs/in/" + nm, b, c.sim.now() - 200000 + d.n(6)); c.note("  fuzzed file " + nm + ": " + esc(b, 3000)); 
    }
    std::vector<str> args{"TOSS"}; if (r.nosec) args.push_back("NOSECURITY"); c.nontrivial = true;
    auto res = c.run("crashmail", args, {}, "C05,C01,C18"); if (res.how != H_EXIT || res.status != 0) c.fail("*", "exit", sfmt("toss ended with status %d: ", res.status) + esc(res.out, 300));
    // what arrived intact is delivered whatever came with it
    findQueued(w); for (auto &q : m.out) w.universe.insert(q.dest); Outbound out = readOutbound(c.sim.fs, w.cfg, w.universe); for (auto &p : out.problems) c.fail("C08,C16,C05", "outbound", p); for (auto &p : out.pending) c.fail("C08,C01,C16", "unqueued", "file " + p + " is in no flow file after a completed run");
    if (!dupes) {
      for (auto &q : m.out) { bool ok = false; str df; auto it = out.nodes.find(q.dest); if (it != out.nodes.end()) for (auto *mp : {&it->second.ut, &it->second.flow}) for (auto &kv : *mp) for (auto &x : kv.second) if (!ok && keyOf(x.m.subj, x.m.text) == q.uid) { str e = diffQueued(q, x, mp == &it->second.flow); if (e.empty()) ok = true; else df = e; }
        if (!ok) c.fail("C05,C01", "missing", "a damaged file in inbound disturbed the delivery of " + describe(q) + (df.empty() ? "" : ": " + df)); }
    }
    for (size_t i = 0; i < w.cfg.areas.size(); i++) { auto &a = w.cfg.areas[i]; if (a.base == B_NONE) continue; std::vector<RMsg> G; str err; if (a.base == B_JAM && m.stored[i].empty() && !c.sim.fs.exists(Vfs::norm("/bbs", a.path) + ".jhr")) continue; if (!readBase(c.sim.fs, a, G, err)) { c.fail("C10,C11,C05", "base", "message base of " + a.tag + " is damaged: " + err); continue; }
      if (dupes) continue; for (auto &e : m.stored[i]) { bool ok = false; str df; for (auto &g : G) if (g.uid == e.uid) { str x = diffStored(e, g, a); if (x.empty()) { ok = true; break; } df = x; } if (!ok) c.fail("C05,C01", "not-stored", "a damaged file in inbound disturbed the import of " + e.uid + " into " + a.tag + (df.empty() ? "" : ": " + df)); } }
    for (auto &l : c.sim.fs.list("/bbs/in")) { size_t p = l.find(".bad"); str b = p == str::npos ? "" : l.substr(0, p); if (p == str::npos || !(r.expectBad.count(b) || fz.count(b) || startsWith(b, "f00"))) c.fail("C05,C01", "inbound-left", "file " + l + " is left in inbound after a completed toss"); str want = fz.count(b) ? fz[b] : r.badData.count(b) ? r.badData[b] : c.sim.fs.read("/bbs/in/" + l); if (c.sim.fs.read("/bbs/in/" + l) != want) c.fail("C05,C01", "bad-content", "rejected file kept as " + l + " differs from what arrived"); c.sim.fs.del("/bbs/in/" + l); }
    for (auto &b : r.expectBad) (void)b;
    for (auto &f : c.sim.fs.files("/bbs/temp")) c.fail("C18,C05,C01", "temp-left", "file " + f + " left in the temporary directory");
    if (c.sim.fs.exists("/bbs/crashmail.prefs.busy")) c.fail("C09,C18", "lock-left", "configuration lock left after a completed run");
    c.sim.nowUs += (i64)(1 + d.n(200000)) * 1000000;
  }
}
void regBad() { gProfiles.push_back({"fuzz", fuzzP}); }
