// Fault-free tossing compared with the reference model over several rounds.
#include "world.hpp"
#include <cstring>

static int fromNode(World &w) { return w.c.d.n(w.cfg.nodes.size()); }
Pkt World::genPkt(int ni) {
  auto &d = c.d; SPAN(d, "packet"); Pkt p; Addr from = ni >= 0 ? cfg.nodes[ni].a : anyAddr(); p.orig = from; p.dest = cfg.akas[d.n(cfg.akas.size())].a;
  if (ni >= 0) p.pw = pw8(cfg.nodes[ni].pw); if (d.n(6) == 1) p.pw = lower(p.pw); p.form = PF_2PLUS; if (from.p == 0 && p.dest.p == 0 && d.n(4) == 1) p.form = PF_2; p.oneZero = d.n(12) == 1; if (from.p && from.z && d.n(6) == 1 && p.form == PF_2PLUS) p.auxnet = true;
  if (d.n(10) == 1) p.form = PF_22; if (d.n(8) == 1) p.zonesBoth = false; if (p.form != PF_22 && d.n(12) == 1) p.orig.z = p.dest.z = 0;
  int n = 1 + d.small(8); 
  for (int i = 0; i < n; i++) {
    str uid; bool net = (opts & GO_NETMAIL) && d.n(3) == 1;
    if (net) { Addr o = d.n(2) ? from : anyAddr(), de = d.n(3) ? anyDest() : cfg.akas[d.n(cfg.akas.size())].a; if (!o.z) o.z = 2; p.msgs.push_back(genNet(o, de, p.orig, p.dest, uid)); }
    else { std::vector<str> tags; for (auto &a : cfg.areas) if (a.kind == K_ECHO) tags.push_back(a.tag); str tag = tags.empty() ? "NONE" : tags[d.n(tags.size())]; if ((opts & GO_AUTOADD) && d.n(8) == 1) { static const char *NT[] = {"NEW.ONE", "new_two", "NEW/3:X", "NEW.FOUR", "../../NEW5", ".NEW6", "/NEW7", "#NEW8", "N\"EW\\9", "(NEW,10;*)", "N\xe9W11%l"}; tag = NT[d.n(2) ? d.n(4) : d.n(11)]; } p.msgs.push_back(genEcho(tag, from, uid)); }
  }
  return p;
}
// makes a packet one that has to be rejected (or, rarely, a still acceptable one)
void World::damage(Pkt &p) {
  auto &d = c.d; SPAN(d, "damage"); p.raw.clear(); p.badAt = -1; int k = d.n(9); std::vector<size_t> off; { Pkt q = p; q.msgs.clear(); q.oneZero = false; size_t o = buildPkt(q).size() - 2; off.push_back(o); for (auto &m : p.msgs) off.push_back(o += buildPMsg(m).size()); } str b = buildPkt(p); int n = p.msgs.size();
  if (k == 0) { p.badAt = 0; p.raw = b.substr(0, d.n(58)); }
  else if (k == 1) { static const int T[] = {0, 1, 3, 0x102, 0x200, 0xffff}; int t = T[d.n(6)]; b[18] = t; b[19] = t >> 8; p.badAt = 0; p.raw = b; }
  else if (k == 2 || k == 3) { size_t cut = d.n(2) ? off[0] + d.n(b.size() - off[0]) : off[d.n(n + 1)] + (d.n(2) ? 0 : d.n(15)); if (cut >= off[n] + 1) cut = off[n]; int done = 0; for (int i = 0; i < n; i++) if (off[i + 1] <= cut) done = i + 1; p.badAt = done; p.raw = b.substr(0, cut); }
  else if (k == 4) { static const int T[] = {1, 3, 0x102, 0x200, 0xff02, 0xffff}; int t = T[d.n(6)], i = d.n(n + 1); if (i == n && p.oneZero) b += '\0'; b[off[i]] = t; b[off[i] + 1] = t >> 8; p.badAt = i; p.raw = b; }
  else if (k == 5) { int i = d.n(n); PMsg m = p.msgs[i]; int f = d.n(4); str &s = f == 0 ? m.date : f == 1 ? m.to : f == 2 ? m.from : m.subj; size_t mx = f == 0 ? 20 : f == 3 ? 72 : 36; s.resize(mx + (d.n(2) ? 0 : d.n(300)), 'x'); p.badAt = i; p.raw = b.substr(0, off[i]) + buildPMsg(m) + b.substr(off[i + 1]); }
  else if (k == 6) { int z = d.n(4); if (z == 0) p.pw = ""; else if (z == 1) p.pw = "WRONG"; else if (z == 2) { if (p.pw.size()) p.pw.pop_back(); } else p.pw = (p.pw + "X").substr(0, 8); }
  else if (k == 7) { p.dest = anyAddr(); if (!p.orig.z) p.dest.z = 0; if (p.form == PF_2) p.dest.p = 0; }
  else { p.raw = b; int x = 1 + d.n(20); if (p.oneZero) p.raw += '\0'; for (int i = 0; i < x; i++) p.raw += (char)d.n(256); }
}
Round World::genRound(int maxFiles) {
  auto &d = c.d; SPAN(d, "round"); Round r; int nf = 1 + d.small(maxFiles - 1); i64 base = c.sim.now() - 200000; r.nosec = d.n(10) == 1; std::set<str> used; for (auto &n : c.sim.fs.list("/bbs/in")) used.insert(lower(n)); 
  for (int f = 0; f < nf; f++) {
    SPAN(d, "file"); InFile x; x.bundle = d.n(3) == 1; x.mtime = base + d.n(6); int np = x.bundle ? 1 + d.n(3) : 1;
    for (int k = 0; k < np; k++) { Pkt p = genPkt(d.n(12) == 1 ? -1 : fromNode(*this)); if (!oldPk.empty() && d.n(4) == 1) { auto &o = oldPk[d.n(oldPk.size())]; if (d.n(2)) p = o; else if (!o.msgs.empty()) { p.msgs.push_back(o.msgs[d.n(o.msgs.size())]); p.raw.clear(); p.badAt = -1; } } if (badPkts && d.n(4) == 1) damage(p); str nm; u32 nn = 0x1000 + d.n(0x8000); do nm = sfmt("%08x.pkt", nn++); while (!used.insert(nm).second || !usedNames.insert(nm).second); if (d.n(8) == 1) nm = upper(nm); x.pkts.push_back({nm, p}); oldPk.push_back(p); }
    if (x.bundle) { static const char *E[] = {"mo0", "tu1", "we9", "thA", "fr5", "SA3", "su7"}; u32 nn = 0x2000 + d.n(0x8000); const char *ex = E[d.n(7)]; do x.name = sfmt("%08x.%s", nn++, ex); while (!used.insert(lower(x.name)).second); for (auto &p : x.pkts) simzPack(x.data, p.first, pktBytes(p.second)); if (badPkts && d.n(5) == 1) { x.bad = 1 + d.n(3); if (x.bad == 1) x.data = "PK" + x.data; else if (x.bad == 2) x.data.clear(); else x.data.resize(x.data.size() - 1 - d.n(20)); } }
    else { x.name = x.pkts[0].first; x.data = pktBytes(x.pkts[0].second); }
    c.sim.fs.put("/bbs/in/" + x.name, x.data, x.mtime); r.files.push_back(x);
  }
  // loose packets first, then bundles, each by time then name
  std::stable_sort(r.files.begin(), r.files.end(), [](const InFile &a, const InFile &b) { if (a.bundle != b.bundle) return !a.bundle; if (a.mtime != b.mtime) return a.mtime < b.mtime; return lower(a.name) < lower(b.name); });
  return r;
}
// attached files are moved to the packet directory unless one of that name waits there
void World::tossAttach(Model &m) {
  tattach = true; m.attachHook = [this, &m](const str &f, const Addr &dst, char type, bool) {
    size_t p = f.rfind('/'); str b = p == str::npos ? f : f.substr(p + 1); if (b.empty()) return; auto &fs = c.sim.fs; Attach x; x.dest = dst; x.ch = type == 'N' ? 'f' : tolower(type); x.prefix = '^';
    if (inFiles.count(b) && !addedPk.count(b) && !fs.exists("/bbs/packets/" + b)) { x.path = "/bbs/packets/" + b; x.data = inFiles[b]; x.have = true; inFiles.erase(b); addedPk.insert(b); } else { x.path = "/bbs/in/" + b; }
    m.attach.push_back(x); };
}
void World::modelRound(Model &m, Round &r, bool notes) {
  addedPk.clear();
  Cfg &cfg = m.c; m.now = c.sim.now();
  for (auto &f : r.files) {
    if (f.bad) { if (f.bad != 2) { r.expectBad.insert(f.name); r.badData[f.name] = f.data; } if (notes) c.note("  bundle " + f.name + (f.bad == 2 ? " is empty" : " is damaged")); continue; }
    // unpacked packets have the same time: they sort by name
    auto pk = f.pkts; if (f.bundle) std::stable_sort(pk.begin(), pk.end(), [](const std::pair<str, Pkt> &a, const std::pair<str, Pkt> &b) { return lower(a.first) < lower(b.first); });
    for (auto &p : pk) {
      auto &P = p.second; if (notes) c.note("  packet " + p.first + " in " + f.name + " from " + P.orig.s() + (P.badAt >= 0 ? sfmt(", malformed after %d messages", P.badAt) : "")); r.badData[p.first] = pktBytes(P); int left = P.badAt;
      if (cfg.has("CHECKPKTDEST") && !r.nosec && !cfg.isAka(P.dest)) { r.expectBad.insert(p.first); continue; }
      for (auto &pm : P.msgs) { if (left >= 0 && left-- == 0) break;
        MM x = toMM(P, pm, cfg, r.nosec); int cn = cfg.findNode(x.porig);
        if (cn >= 0 && (!x.area.empty() || !(cfg.nodes[cn].flags & N_NONETMAILPW)) && !cfg.nodes[cn].pw.empty() && !ieq(pw8(P.pw), cfg.nodes[cn].pw) && !r.nosec) { r.expectBad.insert(p.first); break; }
        if (notes) c.note("    " + x.uid + " " + (x.area.empty() ? "netmail " + x.orig.s() + " -> " + x.dest.s() : "echomail " + x.area + " MSGID " + x.msgid));
        if (cn >= 0) { if (x.area.empty()) { m.ns[cn].gotN++; m.ns[cn].gotNB += x.text.size(); } else { m.ns[cn].gotE++; m.ns[cn].gotEB += x.text.size(); } }
        m.handle(x); c.nontrivial = true;
      }
      if (P.badAt >= 0) r.expectBad.insert(p.first);
    }
  }
}
void World::mailerTakes(Model *m, const Addr &a, std::vector<WireMsg> *got) {
  auto &fs = c.sim.fs; Outbound o = readOutbound(fs, cfg, {a}); auto &n = o.nodes[a]; str b = baseName(cfg, a); bool any = false;
  for (auto &kv : n.ut) { fs.del(b + "." + kv.first + "ut"); any = true; if (got) for (auto &x : kv.second) got->push_back(x); }
  for (auto &kv : n.flow) if (got) for (auto &x : kv.second) got->push_back(x);
  for (char ch : str("fhdc")) if (fs.exists(b + "." + ch + "lo")) { fs.del(b + "." + ch + "lo"); any = true; }
  for (auto &f : o.referenced) if (startsWith(f, "/bbs/packets/") || startsWith(f, "/bbs/in/")) { fs.del(f); if (startsWith(f, "/bbs/in/")) inFiles.erase(f.substr(8)); }
  if (any && m) { auto it = std::remove_if(m->out.begin(), m->out.end(), [&](const QMsg &q) { return q.dest == a; }); m->out.erase(it, m->out.end()); auto ia = std::remove_if(m->attach.begin(), m->attach.end(), [&](const Attach &q) { return q.dest == a; }); m->attach.erase(ia, m->attach.end()); }
}
void startWorld(Ctx &c) { auto &d = c.d; c.sim.setClock(1000000000 + d.n(100000000)); c.sim0 = c.sim.now(); c.sim.fs.dirSeed = d.n(1000); c.sim.recycle = c.sim.fs.dirSeed & 1; static const int TZ[] = {0, 3600, 0, -18000, 20700, 0, 39600, -36000}; gTz = TZ[d.n(8)]; }
static void tossProfile(Ctx &c, unsigned opts, const str &xt, bool bad = false, bool jam = false) {
  auto &d = c.d; startWorld(c); World w(c); w.badPkts = bad; w.genConfig(opts); if (jam) { w.replies = 2; if (d.n(4)) w.cfg.sw.insert("JAM_LINK"); while (w.cfg.areas.size() > 5) { bool any = false; for (size_t i = w.cfg.areas.size(); i-- > 0;) if (w.cfg.areas[i].kind == K_ECHO) { w.cfg.areas.erase(w.cfg.areas.begin() + i); any = true; break; } if (!any) break; } } w.install(); Model m(w.cfg); if (d.n(2)) w.tossAttach(m); c.note("configuration:\n" + w.cfg.text());
  int rounds = 1 + d.n(4);
  for (int k = 0; k < rounds; k++) {
    Round r = w.genRound(6); w.modelRound(m, r);
    if (d.n(4) == 1) { static const char *N[] = {"ab_cdefg.mo1", "12345678.xx1", "1234567.mo1", "123456789.mo1", "12345678.mo12", "12345678.m1", "pkt12345.pk", "12345678.pktx", "1234567.pkt", "12345678.tic", "12345678.pkt~", "12-45678.pkt.tmp", "1234 678.su0", "x.pkt", "ABCDEFGH.MOX.BAK", "pktpktpkt", "123456.8.we1", "12345678_we1", "12345678_pkt", "1234567[.th3", "12345678.ho1", "1234567{.fr4"}; int n = 1 + d.n(3); for (int i = 0; i < n; i++) { str f = N[d.n(22)]; if (w.inFiles.count(f)) continue; w.inFiles[f] = "no mail " + f; c.sim.fs.put("/bbs/in/" + f, w.inFiles[f], c.sim.now() - d.n(1000)); } }
    std::vector<str> args{"TOSS"}; if (r.nosec) args.push_back("NOSECURITY");
    std::map<str, str> oldBad; if (bad) for (auto &b : r.badData) if (d.n(6) == 1) { str n = b.first + ".bad"; int k = d.n(3); for (int i = 0; i <= k; i++) { str x = i ? n + sfmt(",%d", i) : n; oldBad[x] = sfmt("earlier reject %d", i); c.sim.fs.put("/bbs/in/" + x, oldBad[x], c.sim.now() - 1000); } }
    // the other ways to toss: a directory, one file after the other
    std::vector<std::vector<str>> runs{args}; int how = d.n(10); static const char *IN[] = {"/bbs/in", "/bbs/in/", "/bbs/in2"}; str dir = IN[how == 1 ? d.n(3) : 0];
    if (how == 1 || how == 2) { if (how == 2 && d.n(2)) dir = "/bbs/in2"; if (dir.back() == '2') { c.sim.fs.mkdirs("/bbs/in2"); for (auto &f : r.files) if (c.sim.fs.exists("/bbs/in/" + f.name)) { c.sim.fs.put("/bbs/in2/" + f.name, c.sim.fs.read("/bbs/in/" + f.name), f.mtime); c.sim.fs.del("/bbs/in/" + f.name); } } }
    if (how == 1) { args[0] = "TOSSDIR"; args.insert(args.begin() + 1, dir); runs = {args}; }
    if (how == 2) { runs.clear(); for (auto &f : r.files) { auto a = args; a[0] = "TOSSFILE"; a.insert(a.begin() + 1, dir + "/" + f.name); runs.push_back(a); } }
    for (auto &a : runs) { auto res = c.run("crashmail", a, {}, "C05,C01,C18"); if (res.how != H_EXIT || res.status != 0) c.fail("*", "exit", sfmt("toss ended with status %d: ", res.status) + esc(res.out, 300)); }
    if (dir.back() == '2') for (auto &l : c.sim.fs.list("/bbs/in2")) { c.fail("C05,C01" + xt, "inbound-left", "file " + l + " is left in the directory after a completed toss"); c.sim.fs.del("/bbs/in2/" + l); }
    cmpQueue(w, m, xt); cmpBases(w, m, xt);
    std::set<str> left; for (auto &n : c.sim.fs.list("/bbs/in")) left.insert(n);
    for (auto &o : w.inFiles) { if (!left.count(o.first) || c.sim.fs.read("/bbs/in/" + o.first) != o.second) c.fail("C05,C06,C01" + xt, "inbound-file", "file " + o.first + " in inbound, which is no mail, was changed or removed"); left.erase(o.first); }
    for (auto &o : oldBad) { if (!left.count(o.first) || c.sim.fs.read("/bbs/in/" + o.first) != o.second) c.fail("C05,C01" + xt, "bad-lost", "rejected file " + o.first + " of an earlier run was changed or removed"); left.erase(o.first); c.sim.fs.del("/bbs/in/" + o.first); }
    for (auto &b : r.expectBad) { bool ok = false; for (auto &l : left) if (startsWith(l, b + ".bad")) { ok = true; if (c.sim.fs.read("/bbs/in/" + l) != r.badData[b]) c.fail("C05,C01" + xt, "bad-content", "rejected file kept as " + l + " differs from what arrived"); } if (!ok) c.fail("C05,C01" + xt, "bad-missing", "rejected packet " + b + " is not kept as .bad"); }
    for (auto &l : left) { size_t p = l.find(".bad"); if (p == str::npos || !r.expectBad.count(l.substr(0, p))) c.fail("C05,C01" + xt, "inbound-left", "file " + l + " is left in inbound after a completed toss"); c.sim.fs.del("/bbs/in/" + l); }
    for (auto &f : c.sim.fs.files("/bbs/temp")) c.fail("C18,C05,C01" + xt, "temp-left", "file " + f + " left in the temporary directory");
    if (c.sim.fs.exists("/bbs/crashmail.prefs.busy")) c.fail("C09,C18" + xt, "lock-left", "configuration lock left after a completed run");
    // mailer picks up mail of some systems
    c.sim.nowUs += (i64)(1 + (d.n(3) ? d.n(20) : d.n(200000))) * 1000000;
    for (auto &a : std::set<Addr>(w.universe)) if (d.n(3)) w.mailerTakes(&m, a);
  }
}
static void tossP(Ctx &c) { unsigned o = 0; int k = c.d.n(6); o |= GO_NETMAIL; if (k & 1) o |= GO_AUTOADD; if (k == 5) o |= GO_JAM; tossProfile(c, o, ""); }
static void badP(Ctx &c) { unsigned o = GO_NETMAIL; int k = c.d.n(6); if (k & 1) o |= GO_AUTOADD; if (k == 5) o |= GO_JAM; tossProfile(c, o, "", true); }
static void tossJamP(Ctx &c) { tossProfile(c, GO_NETMAIL | GO_JAM, "", false, true); }
void regToss() { gProfiles.push_back({"tossjam", tossJamP}); gProfiles.push_back({"bad", badP}); gProfiles.push_back({"toss", tossP}); }
