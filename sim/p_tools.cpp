// The tools: message writer, nodelist compiler and lookup, area list exporter, outbound lister.
#include "bases.hpp"
#include "conc.hpp"
#include "faulted.hpp"
#include <cstring>

static FaultMenu toolFaults(int max) {
  FaultMenu m; m.kinds = {FK_KILL, FK_ERR, FK_FULL, FK_TORN, FK_SHORT, FK_ERR, FK_KILL}; m.maxFaults = max;
  m.allow = [](FK k, const PointRec &p) { return !(k == FK_ERR && (p.type == PT_READ || p.type == PT_STAT || p.type == PT_READDIR || p.type == PT_OPENDIR)); };
  return m;
}
static bool anyErr(const std::vector<ProcResult> &r, bool fullOnly) { for (auto &x : r) for (auto &f : x.fired) if (!fullOnly || startsWith(f, "disk-full")) return true; return false; }

// ------------------------------------------------------------ crashwrite
struct WrReq { str uid; std::vector<str> args; Addr from, to, pfrom, pto; str area, fn = "CrashWrite", tn = "All", subj = "Information", origin = "Another user of CrashMail II", pw, body; bool hasText = false, missing = false, nomsgid = false, file = false; };
static Addr wrAddr(Draw &d) { static const Addr A[] = {{2, 203, 118, 0}, {2, 203, 118, 7}, {1, 100, 5, 0}, {3, 640, 65535, 1}, {65535, 32767, 255, 65535}, {2, 5020, 256, 0}}; return A[d.n(6)]; }
static str wrBody(Draw &d) {
  str s; int n = d.n(5); const char *nl = d.n(2) ? "\r\n" : "\n";
  for (int i = 0; i < n; i++) { int k = d.n(6); int len = k == 0 ? d.n(70) : k == 1 ? 95 + d.n(8) : k == 2 ? 195 + d.n(6) : k == 3 ? 0 : d.n(300); str l; for (int j = 0; j < len; j++) l += (char)("abcdefgh ijklm%n%s\\\"\xe5\xf6\xff"[j * 7 % 22 + (j % 3 == 2 ? 1 : 0)]); if (k == 4) l = "SEEN-BY: 1/2"; if (k == 5 && d.n(2)) l = "--- x"; s += l; if (i + 1 < n || d.n(4)) s += nl; }
  return s;
}
static str wrNormal(const str &b) { str r; for (size_t i = 0; i < b.size(); i++) { if (b[i] == '\r' && i + 1 < b.size() && b[i + 1] == '\n') continue; r += b[i] == '\n' ? '\r' : b[i]; } return r; }
static WrReq genReq(Ctx &c, int i, const str &dir, const std::vector<str> &tags) {
  auto &d = c.d; SPAN(d, "request"); WrReq r; r.uid = sfmt("UID%05d", i + 1); r.args = {"DIR", dir};
  auto opt = [&](const char *k, const str &v) { r.args.push_back(d.n(3) == 1 ? lower(k) : str(k)); r.args.push_back(v); };
  if (d.n(4)) { r.from = wrAddr(d); opt("FROMADDR", r.from.p || d.n(2) ? r.from.s4() : r.from.s()); } if (d.n(4)) { r.to = wrAddr(d); opt("TOADDR", r.to.s()); }
  r.pfrom = r.from; r.pto = r.to; if (d.n(3) == 1) { r.pfrom = wrAddr(d); opt("PKTFROMADDR", r.pfrom.s()); } if (d.n(3) == 1) { r.pto = wrAddr(d); opt("PKTTOADDR", r.pto.s4()); }
  auto name = [&](size_t max) { int k = d.n(5); str s = k == 0 ? "Some One" : k == 1 ? str(max, 'n') : k == 2 ? str(max + 1 + d.n(60), 'm') : k == 3 ? "" : "\xc5ke %s \"x\""; return s; };
  if (d.n(3)) { r.fn = name(35); opt("FROMNAME", r.fn); r.fn = r.fn.substr(0, 35); } if (d.n(3)) { r.tn = name(35); opt("TONAME", r.tn); r.tn = r.tn.substr(0, 35); }
  { str s = r.uid + " " + name(71 - 9); opt("SUBJECT", s); r.subj = s.substr(0, 71); }
  if (d.n(2)) { r.area = tags.empty() ? str(d.n(2) ? "TEST.AREA" : "LONG.AREA.NAME.WITH.MANY.CHARACTERS.IN.IT.TO.SEE.WHETHER.ALL.OF.THEM.ARE.KEPT") : tags[d.n(tags.size())]; opt("AREA", r.area); if (d.n(2)) { r.origin = name(79); opt("ORIGIN", r.origin); r.origin = r.origin.substr(0, 79); } }
  if (d.n(3) == 1) { r.pw = d.n(2) ? "secret" : "PASSWORDTOOLONG"; opt("PASSWORD", r.pw); r.pw = r.pw.substr(0, 8); } if (d.n(3) == 1) { r.nomsgid = true; r.args.push_back("NOMSGID"); } if (d.n(4) == 1) { r.file = true; r.args.push_back("FILEATTACH"); }
  if (d.n(4)) { r.hasText = true; str f = sfmt("/bbs/text/t%d", i); if (d.n(15) == 1) r.missing = true; else { r.body = wrBody(d); c.sim.fs.put(f, r.body); } opt("TEXT", f); }
  return r;
}
static str cmpReq(const WrReq &r, const str &data, const ProcResult &pr, str &msgid) {
  Pkt p; str err; if (!parsePkt(data, p, err)) return "not a valid packet: " + err; if (p.msgs.size() != 1) return sfmt("packet has %zu messages", p.msgs.size()); auto &m = p.msgs[0];
  if (p.orig != r.pfrom) return "packet comes from " + p.orig.s4(); if (p.dest != r.pto) return "packet goes to " + p.dest.s4(); if (p.pw != r.pw) return "packet password is \"" + esc(p.pw) + "\"";
  if (m.on != r.from.n || m.of != r.from.f) return sfmt("message comes from %d/%d", m.on, m.of); if (m.dn != r.to.n || m.df != r.to.f) return sfmt("message goes to %d/%d", m.dn, m.df); if (m.from != r.fn) return "sender is \"" + esc(m.from) + "\""; if (m.to != r.tn) return "recipient is \"" + esc(m.to) + "\""; if (m.subj != r.subj) return "subject is \"" + esc(m.subj) + "\""; if (m.cost) return sfmt("cost is %d", m.cost);
  int attr = (r.area.empty() ? A_PVT : 0) | (r.file ? A_FILE : 0); if (m.attr != attr) return sfmt("attributes are %x instead of %x", m.attr, attr); bool dok = false; for (i64 t = pr.tStart; t <= pr.tEnd; t++) dok |= m.date == fidoDate(t + gTz); if (!dok) return "date is \"" + m.date + "\"";
  str t = m.text, want; if (!r.area.empty()) want = "AREA:" + r.area + "\r"; else { if (r.from.p) want += sfmt("\001FMPT %d\r", r.from.p); if (r.to.p) want += sfmt("\001TOPT %d\r", r.to.p); want += sfmt("\001INTL %d:%d/%d %d:%d/%d\r", r.to.z, r.to.n, r.to.f, r.from.z, r.from.n, r.from.f); }
  if (!startsWith(t, want)) return "text begins with \"" + esc(t.substr(0, 120)) + "\" instead of \"" + esc(want) + "\""; t = t.substr(want.size());
  if (!r.nomsgid) { want = "\001MSGID: " + r.from.s4() + " "; if (!startsWith(t, want) || t.size() < want.size() + 9 || t[want.size() + 8] != '\r') return "no MSGID line at \"" + esc(t.substr(0, 80)) + "\""; msgid = t.substr(0, want.size() + 8); for (char ch : t.substr(want.size(), 8)) if (!strchr("0123456789abcdef", ch)) return "bad MSGID line \"" + esc(msgid) + "\""; t = t.substr(want.size() + 9); }
  str b = wrNormal(r.body); bool open = !b.empty() && b.back() != '\r'; if (t.compare(0, b.size(), b)) return "text is \"" + esc(t) + "\" instead of \"" + esc(b) + "\""; t = t.substr(b.size()); if (open && !t.empty() && t[0] == '\r') t = t.substr(1); else if (open && !r.area.empty()) return "the tear line is not on a line of its own";
  if (r.area.empty()) return t.empty() ? "" : "text ends with \"" + esc(t) + "\"";
  if (!startsWith(t, "--- CrashWrite")) return "no tear line at \"" + esc(t.substr(0, 80)) + "\""; size_t e = t.find('\r'); if (e == str::npos) return "no tear line"; t = t.substr(e + 1); want = " * Origin: " + r.origin + " (" + r.from.s4() + ")\r"; if (t != want) return "origin line is \"" + esc(t) + "\" instead of \"" + esc(want) + "\""; return "";
}
static void writeP(Ctx &c) {
  auto &d = c.d; startWorld(c); World w(c); bool toss = d.n(3) == 1; std::vector<str> tags; auto &fs = c.sim.fs; Model m(w.cfg);
  if (toss) { w.genConfig(GO_NETMAIL); for (auto &a : w.cfg.areas) { a.flags &= ~F_UNCONFIRMED; } w.cfg.dupeSize = 0; w.install(); for (auto &a : w.cfg.areas) if (a.kind == K_ECHO && a.base != B_NONE) tags.push_back(a.tag); if (tags.empty()) toss = false; }
  str dir = "/bbs/wr"; fs.mkdirs(dir); fs.mkdirs("/bbs/text"); static const i64 TICK[] = {1, 50, 20000, 300000}; c.sim.tickUs = TICK[d.n(4)];
  std::map<str, str> before; { SPAN(d, "present"); int n = toss ? 0 : d.n(5); for (int i = 0; i < n; i++) { u32 num = (u32)(c.sim.now() << 8) + d.n(8); int k = d.n(6); str f = dir + "/" + (k == 5 ? sfmt("%08X.PKT", num) : k == 4 ? sfmt("%08x.tmp", num) : sfmt("%08x.pkt", num)); str data = sfmt("old %d", i) + str(d.n(100), 'o'); fs.put(f, data, c.sim.now() - 100); before[f] = data; } }
  int n = 1 + d.n(4); std::vector<WrReq> q; std::vector<RunSpec> specs; for (int i = 0; i < n; i++) { WrReq r = genReq(c, i, dir, tags); if (toss && r.area.empty()) { r.area = tags[0]; r.args.push_back("AREA"); r.args.push_back(r.area); } if (toss && !r.nomsgid) { r.nomsgid = true; r.args.push_back("NOMSGID"); } q.push_back(r); RunSpec s; s.prog = "crashwrite"; s.args = r.args; specs.push_back(s); }
  int nt = toss ? 1 + d.n(2) : 0; for (int i = 0; i < nt; i++) { RunSpec s; s.prog = "crashmail"; s.args = {"TOSSDIR", dir, "NOSECURITY"}; specs.push_back(s); }
  for (auto &r : q) { str a; for (auto &x : r.args) a += " [" + esc(x, 60) + "]"; c.note("  crashwrite" + a); }
  std::vector<ProcResult> dr; if (specs.size() > 1) c.sim.preempts = planPreempts(c, specs, 10, &dr); else dr.push_back(c.dry(specs[0]));
  if (d.n(2)) { SPAN(d, "faults"); int v = d.n(n); specs[v].faults = c.planFaults(dr[v], toolFaults(2)); c.sim.allowFault = toolFaults(1).allow; }
  auto res = c.runAll(specs, "C20,C18"); c.sim.preempts.clear(); c.nontrivial = true; bool full = anyErr(res, true);
  for (size_t i = n; i < specs.size(); i++) if (res[i].how != H_EXIT || res[i].status) c.fail("C20,C18", "toss-exit", sfmt("tossing ended with status %d", res[i].status));
  for (auto &b : before) if (!fs.exists(b.first)) c.fail("C20", "removed", "file " + b.first + " that was there before is gone"); else if (fs.read(b.first) != b.second) c.fail("C20,C16", "clobbered", "file " + b.first + " that was there before was changed");
  for (int i = 0; i < n; i++) { bool f = !res[i].fired.empty() || full; if (res[i].how == H_EXIT && res[i].status && !f && !q[i].missing) c.fail("C20", "exit", sfmt("crashwrite %d ended with status %d without a reason: ", i, res[i].status) + esc(res[i].out, 200)); if (res[i].how == H_EXIT && !res[i].status && q[i].missing) c.fail("C20", "exit", "crashwrite ended with status 0 although the text file does not exist"); }
  std::map<int, int> cnt; std::set<str> ids;
  if (!toss) {
    for (auto &f : fs.files(dir)) {
      if (before.count(f)) continue; bool killed = false, err = false; for (auto &x : res) { killed |= x.how == H_KILLED; err |= !x.fired.empty(); }
      if (!endsWith(f, ".pkt")) { if (!killed && !err) c.fail("C20", "leftover", "file " + f + " is left although no run failed"); continue; }
      str data = fs.read(f), df; Pkt p; str e; int who = -1; if (parsePkt(data, p, e) && !p.msgs.empty()) for (int i = 0; i < n; i++) if (startsWith(p.msgs[0].subj, q[i].uid)) who = i;
      if (who < 0) { c.fail("C20,C18", "incomplete", "file " + f + " is not one of the packets that were asked for: " + (e.empty() ? esc(data, 200) : e)); continue; }
      str id; df = cmpReq(q[who], data, res[who], id); if (!df.empty()) c.fail("C20", "content", "packet " + f + ": " + df); cnt[who]++; if (!id.empty() && !ids.insert(id).second) c.fail("C20,C16", "same-msgid", "two packets have \"" + esc(id) + "\"");
    }
  } else {
    auto r = c.run("crashmail", {"TOSSDIR", dir, "NOSECURITY"}, {}, "C20,C18"); if (r.how != H_EXIT || r.status) c.fail("C20,C18", "toss-exit", sfmt("tossing ended with status %d", r.status));
    for (auto &f : fs.files(dir)) if (f.find(".bad") != str::npos || endsWith(f, ".pkt")) { bool killed = false; for (auto &x : res) killed |= x.how == H_KILLED; (void)killed; c.fail("C20", "incomplete", "the tosser met an incomplete packet and left " + f); }
    for (auto &a : w.cfg.areas) { if (a.base == B_NONE) continue; std::vector<RMsg> v; str err; if (!readBase(fs, a, v, err)) { c.fail("C20,C10,C11", "base", err); continue; } for (auto &x : v) for (int i = 0; i < n; i++) if (startsWith(x.subj, q[i].uid)) { if (!ieq(q[i].area, a.tag)) { bool moved = a.kind == K_BAD; c.fail("C20", "area", "message " + q[i].uid + " for area " + q[i].area + " is in area " + a.tag + (moved ? "" : " instead")); } cnt[i]++; } }
  }
  for (int i = 0; i < n; i++) { bool ok = res[i].how == H_EXIT && !res[i].status; if (ok && cnt[i] != 1) c.fail("C20,C01", cnt[i] ? "twice" : "lost", sfmt("crashwrite %d succeeded but its message exists %d times", i, cnt[i])); if (!ok && cnt[i] > 1) c.fail("C20", "twice", sfmt("message of crashwrite %d exists %d times", i, cnt[i])); if (res[i].how == H_EXIT && res[i].status && cnt[i]) c.fail("C20", "failed-but-there", sfmt("crashwrite %d failed but its packet is there", i)); }
}

// ------------------------------------------------------------ nodelists
struct NlEnt { Addr a; int region, hub; str line; };
struct NlFile { str name; i64 mtime; std::vector<str> lines; str nl = "\r\n"; str data() const { str s; for (auto &l : lines) s += l + nl; return s; } };
struct NlSet { std::map<str, NlFile> files; std::vector<str> prefs; };
static bool nlKey(const str &l, const char *k, str &rest) { size_t n = strlen(k); if (l.size() < n || !ieq(l.substr(0, n), k)) return false; rest = l.substr(n); return true; }
static std::vector<NlEnt> nlParse(const NlFile &f, int zone) {      // meaning of a nodelist as in FTS-5000
  std::vector<NlEnt> v; int net = 0, node = 0, region = 0, hub = 0;
  for (auto &l : f.lines) {
    str r; int pt = 0; if (nlKey(l, "Zone,", r)) { zone = net = atoi(r.c_str()); region = hub = node = 0; } else if (nlKey(l, "Region,", r)) { region = net = atoi(r.c_str()); hub = node = 0; } else if (nlKey(l, "Host,", r)) { net = atoi(r.c_str()); hub = node = 0; } else if (nlKey(l, "Hub,", r)) { hub = node = atoi(r.c_str()); } else if (nlKey(l, "Pvt,", r) || nlKey(l, "Hold,", r) || nlKey(l, ",", r)) node = atoi(r.c_str()); else if (nlKey(l, "Point,", r)) pt = atoi(r.c_str()); else continue;
    v.push_back({{zone, net, node, pt}, region, hub, l});
  }
  return v;
}
static const NlFile *nlFind(const NlSet &s, const str &name) { auto it = s.files.find(name); if (it != s.files.end()) return &it->second; const NlFile *b = nullptr; for (auto &f : s.files) { const str &n = f.first; if (n.size() != name.size() + 4 || !ieq(n.substr(0, name.size()), name) || n[name.size()] != '.' || !isdigit(n[name.size() + 1]) || !isdigit(n[name.size() + 2]) || !isdigit(n[name.size() + 3])) continue; if (!b || b->mtime < f.second.mtime) b = &f.second; } return b; }
static std::vector<NlEnt> nlModel(const NlSet &s) {
  std::vector<NlEnt> v; for (auto &p : s.prefs) { if (p.empty() || p[0] == ';') continue; auto w = words(p); if (w.empty()) continue; str name = w[0]; if (name[0] == '"') name = name.substr(1, name.size() - 2); auto f = nlFind(s, name); if (!f) continue; auto e = nlParse(*f, w.size() > 1 ? atoi(w[1].c_str()) : 0); v.insert(v.end(), e.begin(), e.end()); }
  return v;
}
static str nlAnswer(const std::vector<NlEnt> &m, const Addr &a) {
  for (auto &e : m) if (e.a == a) {
    str l = e.line.substr(0, 199); while (!l.empty() && (u8)l.back() < 33) l.pop_back(); std::vector<str> f; { str cur; for (char ch : l) { if (ch == ',' && f.size() < 7) { f.push_back(cur); cur.clear(); } else cur += ch; } f.push_back(cur); }
    str o = sfmt("Node %s\nRegion %d, Hub %d\nNode is listed as a %s\n", a.s4().c_str(), e.region, e.hub, f[0].empty() ? "Node" : f[0].c_str()); static const char *N[] = {"", "", "Name", "Location", "Sysop", "Phone", "Baud", "Flags"}; for (size_t i = 2; i < f.size() && i < 8; i++) o += str(N[i]) + ": " + f[i] + "\n"; return o;
  }
  return "Node not found\n";
}
static NlFile genNl(Draw &d, bool points, int zone) {
  SPAN(d, "nodelist"); NlFile f; f.nl = d.n(3) ? "\r\n" : "\n"; if (d.n(3)) f.lines.push_back(";A Nodelist for Friday"); int n = 1 + d.n(d.n(4) == 3 ? 60 : 14); bool node = false; int serial = d.n(1000); if (!zone || d.n(3) == 1) f.lines.push_back(sfmt("Zone,%d,World,Earth,Boss,1-2,9600,CM", zone ? zone : 1 + (int)d.n(3)));
  auto rest = [&](const char *nm) { serial++; str s = sfmt(",%s_%d,Some_%d,Sys_Op_%d,1-%d,9600", nm, serial, serial, serial, serial); int k = d.n(12); if (k == 1) return s; s += ",CM,XA,V34"; if (k == 2) s += str(",U,") + str(150, 'x'); if (k == 3) { s += ",U"; while (s.size() < 480) s += ",INA:host"; for (int i = 0, m = d.n(40); i < m; i++) s += ",,5,a"; } return s; };
  for (int i = 0; i < n; i++) {
    int k = d.n(14); auto key = [&](const char *x) { int q = d.n(5); return q == 1 ? upper(x) : q == 2 ? lower(x) : str(x); };
    if (k == 0) f.lines.push_back(key("Zone,") + sfmt("%d", 1 + d.n(3)) + rest("Zone")), node = true; else if (k == 1) f.lines.push_back(key("Region,") + sfmt("%d", 20 + d.n(3)) + rest("Reg")), node = true; else if (k <= 3) f.lines.push_back(key("Host,") + sfmt("%d", 200 + d.n(4)) + rest("Host")), node = true; else if (k == 4) f.lines.push_back(key("Hub,") + sfmt("%d", 100 * (1 + d.n(3))) + rest("Hub")), node = true; else if (k == 5) f.lines.push_back(key("Pvt,") + sfmt("%d", 1 + d.n(6)) + rest("Pvt")), node = true; else if (k == 6) f.lines.push_back(key("Hold,") + sfmt("%d", 1 + d.n(6)) + rest("Hold")), node = true; else if (k == 7) { f.lines.push_back(str(";S comment") + str(d.n(3) == 1 ? 480 + d.n(60) : 3, ',') + "7,x"); } else if (k == 8) { f.lines.push_back(key("Down,") + sfmt("%d", 90 + d.n(6)) + rest("Down")); node = false; } else if (k == 9 && d.n(3) == 1) f.lines.push_back(""); else if (k >= 10 && points && node) f.lines.push_back(key("Point,") + sfmt("%d", 1 + d.n(9)) + rest("Pnt")); else f.lines.push_back(sfmt(",%d", d.n(8) == 1 ? 65535 : 1 + d.n(9)) + rest("Node")), node = true;
  }
  if (d.n(3) == 1) f.lines.push_back("\x1a"); return f;
}
static void nodelistP(Ctx &c) {
  auto &d = c.d; startWorld(c); auto &fs = c.sim.fs; str dir = "/bbs/nl"; fs.mkdirs(dir); NlSet S; static const char *BN[] = {"NODELIST", "REGION20", "BTPOINT", "nl.x"}; static const i64 TICK[] = {50, 5000, 300000}; c.sim.tickUs = TICK[d.n(3)]; int ext = 10; i64 mt = c.sim.now() - 86400 * 60;
  auto add = [&](const str &name, NlFile f) { f.name = name; mt += 3600; f.mtime = mt; S.files[name] = f; fs.put(dir + "/" + name, f.data(), mt); };
  int nl = 1 + d.n(3); for (int i = 0; i < nl; i++) { int zone = i && d.n(2) ? 1 + d.n(3) : 0; bool pts = i && d.n(2); int k = d.n(6); str b = BN[i]; if (k == 1) { add(b, genNl(d, pts, zone)); S.prefs.push_back(b); } else if (k == 2) { str nm = b + sfmt(".%03d", ext); add(nm, genNl(d, pts, zone)); S.prefs.push_back(nm); } else if (k == 3 && d.n(2)) S.prefs.push_back(b); else { add((d.n(4) == 1 ? lower(b) : b) + sfmt(".%03d", ext), genNl(d, pts, zone)); if (d.n(3) == 1) add(b + sfmt(".%03d", ext + 7), genNl(d, pts, zone)); if (d.n(3) == 1) add(b + sfmt(".%03d", ext - 7), genNl(d, pts, zone)); S.prefs.push_back(d.n(4) == 1 ? "\"" + b + "\"" : b); } if (zone) S.prefs.back() += sfmt(" %d", zone); if (d.n(4) == 1) S.prefs.push_back("; comment NODE"); ext += 30; }
  if (d.n(3) == 1) { add(d.n(2) ? "NODE.400" : "NODELISTX.401", genNl(d, true, 0)); } if (d.n(4) == 1) fs.put(dir + "/NODELIST.a12", "Zone,9,x,x,x,x,x\n"); if (d.n(4) == 1) fs.put(dir + "/NODELIST.Z99", "x"); if (d.n(5) == 1) fs.put(dir + "/N.1", "x");
  auto prefs = [&] { str t; for (auto &p : S.prefs) t += p + "\n"; fs.put(dir + "/cmnodelist.prefs", t); }; prefs(); str IDX = dir + "/cmnodelist.index"; bool cwd = d.n(3) == 1;
  auto cl = [&] { RunSpec s; s.prog = "crashlist"; if (cwd) s.cwd = dir; else s.args = {dir}; return s; }; auto gn = [&](const Addr &a) { RunSpec s; s.prog = "crashgetnode"; s.args = {a.p || d.n(2) ? a.s4() : a.s()}; if (d.n(3) == 1) s.env = "CMNODELISTDIR=" + dir + "\n"; else s.args.push_back(dir); return s; };
  std::vector<NlEnt> old, cur; bool have = false; int rounds = 1 + d.n(3); std::set<Addr> pool; Addr zero; str oldIdx;
  for (int k = 0; k < rounds; k++) {
    SPAN(d, "step"); if (k) { int q = d.n(4); if (q == 3) { S.prefs.push_back(BN[d.n(4)]); } else { str b = BN[d.n(nl)]; ext += 7; add(b + sfmt(".%03d", ext % 1000), genNl(d, d.n(2), 0)); } prefs(); }
    old = cur; cur = nlModel(S); for (auto &e : cur) pool.insert(e.a); for (auto &p : S.prefs) c.note("  prefs: " + p); for (auto &f : S.files) c.note(sfmt("  %s (%lld): ", f.first.c_str(), (long long)f.second.mtime) + esc(f.second.data(), 3000));
    auto ask = [&]() -> Addr { int q = d.n(8); if (q == 1 && !pool.empty()) { Addr a = *pool.begin(); a.p = 1 + d.n(9); return a; } if (q == 2) return {1 + (int)d.n(3), 200 + (int)d.n(4), 1 + (int)d.n(9), 0}; if (q == 3) return d.n(3) ? Addr{2, 20 + (int)d.n(3), 0, 0} : zero; if (pool.empty()) return {1, 1, 0, 0}; auto it = pool.begin(); std::advance(it, d.n(pool.size())); return *it; };
    std::vector<RunSpec> specs{cl()}; std::vector<Addr> asked; int na = d.n(3); for (int i = 0; i < na; i++) { Addr a = ask(); asked.push_back(a); specs.push_back(gn(a)); }
    std::vector<ProcResult> dr; if (na) c.sim.preempts = planPreempts(c, specs, 8, &dr); else dr.push_back(c.dry(specs[0])); if (d.n(3) == 1) { specs[0].faults = c.planFaults(dr[0], toolFaults(2)); c.sim.allowFault = toolFaults(1).allow; }
    auto res = c.runAll(specs, "C20,C18"); c.sim.preempts.clear(); c.nontrivial = true; bool ok = res[0].how == H_EXIT && !res[0].status, openErr = false; for (auto &x : res[0].fired) openErr |= x.find("(openr") != str::npos;
    if (!ok && res[0].fired.empty()) c.fail("C20", "exit", sfmt("crashlist ended with status %d: ", res[0].status) + esc(res[0].out, 300)); if (openErr) { c.note("  a nodelist could not be read"); return; }
    // lookups during the compilation answer from the old index or from the new one
    for (int i = 0; i < na; i++) { str a1 = have ? nlAnswer(old, asked[i]) : "Failed to open nodelist index\n", a2 = nlAnswer(cur, asked[i]); const str &o = res[i + 1].out; if (o != a1 && o != a2) c.fail("C20", "lookup-during", "lookup of " + asked[i].s4() + " during compilation gives \"" + esc(o) + "\" instead of \"" + esc(a1) + "\" or \"" + esc(a2) + "\""); bool found = o.find("Node is listed") != str::npos; if ((res[i + 1].status == 0) != found) c.fail("C20", "lookup-status", sfmt("lookup ended with status %d", res[i + 1].status)); }
    str idx; bool ex = fs.get(IDX, idx); if (ok && !ex) c.fail("C20", "no-index", "crashlist ended with status 0 but there is no index"); bool now = ok; if (!ok) { bool same = have ? ex && idx == oldIdx : !ex; if (!same && res[0].how == H_EXIT) c.fail("C20,C18", "index-changed", "crashlist failed but the old index is not there any more"); now = !same; if (!now) cur = old; if (!now && !have) { rounds = 1; continue; } }
    have = ex; oldIdx = idx; if (!ex) continue; int checks = 1 + d.n(5); for (int i = 0; i < checks; i++) { Addr a = ask(); auto r = c.run(gn(a), "C20"); str w = nlAnswer(cur, a); if (r.out != w) c.fail("C20", "lookup", "lookup of " + a.s4() + " gives \"" + esc(r.out, 700) + "\" instead of \"" + esc(w, 700) + "\""); if (fs.read(IDX) != idx) c.fail("C20", "index-changed", "a lookup changed the index"); }
  }
}

// ------------------------------------------------------------ crashexport and crashlistout
static str unitS(u32 v) { return v > 10000000 ? sfmt("%uM", v / 1048576) : v > 10000 ? sfmt("%uK", v / 1024) : sfmt("%u", v); }
static str wantExport(const Cfg &c, int fmt, const str &groups) {
  str o; if (fmt == 0) o += "Default origin ! " + c.sysop + "\n"; std::vector<const AreaC *> v; for (auto &a : c.areas) v.push_back(&a);
  for (auto a : v) {
    if ((a->flags & F_UNCONFIRMED) || a->kind == K_DEFAULT || a->kind == K_DELETED) continue; if (!groups.empty() && (!a->group || upper(groups).find(toupper(a->group)) == str::npos)) continue;
    str aka = c.akas[a->aka].a.s4(), ex; for (auto &l : a->links) ex += (ex.empty() ? "" : " ") + c.nodes[l.node].a.s(); str d = a->desc; for (auto &ch : d) if (ch == '"') ch = '\''; bool net = a->kind == K_NETMAIL, loc = a->kind == K_LOCAL;
    if (fmt == 0) { if (net || loc) continue; o += a->base == B_MSG ? a->path + " " + a->tag + " " + ex : a->base == B_JAM ? "!" + a->path + " " + a->tag + " " + ex : "#" + a->tag + " " + a->tag + " " + ex; o += "\n"; }
    else if (fmt == 1 || fmt == 2) { if (a->kind != K_ECHO) continue; o += a->tag + (fmt == 1 && !a->desc.empty() ? " " + a->desc : "") + "\n"; }
    else { if (a->base == B_NONE) continue; if (fmt == 3) o += "AREADEF " + a->tag + " \"" + d + "\" " + (a->group ? str(1, a->group) : "0") + " " + (net ? "NET" : loc ? "LOCAL" : "ECHO") + " " + (a->base == B_MSG ? "FTS1" : "JAM") + " " + a->path + " " + aka + " " + (net ? "(Loc Pvt)" : "(Loc)") + "\n"; else o += str(net ? "NetArea" : loc ? "LocalArea" : "EchoArea") + " \"" + d + "\" " + a->tag + " " + a->path + " -P" + aka + (a->base == B_JAM ? " -J" : "") + "\n"; }
  }
  return o;
}
static void listingP(Ctx &c) {
  auto &d = c.d; startWorld(c); World w(c); w.genConfig(GO_NETMAIL | GO_AUTOADD); if (d.n(3) == 1) { AreaC a; a.tag = "LOCAL.ONE"; a.kind = K_LOCAL; a.base = d.n(2) ? B_MSG : B_JAM; a.path = "base/loc"; a.desc = "Loc \"quoted\""; if (d.n(2)) a.group = 'B'; w.cfg.areas.push_back(a); } w.install(); c.note("configuration:\n" + w.cfg.text()); auto &fs = c.sim.fs; c.nontrivial = true;
  if (d.n(2)) {      // area lists
    static const char *F[] = {"AREASBBS", "FORWARD", "FORWARDNODESC", "GOLDED", "TIMED"}; int k = d.n(5); str g = d.n(3) == 1 ? "AC" : d.n(3) == 1 ? "b" : ""; RunSpec s; s.prog = "crashexport"; s.args = {"/bbs/crashmail.prefs", "/bbs/areas.out", d.n(2) ? F[k] : lower(F[k])}; if (!g.empty()) { s.args.push_back("GROUP"); s.args.push_back(g); } if (d.n(3) == 1) fs.put("/bbs/areas.out", str(3000, 'z'));
    auto dr = c.dry(s); if (d.n(3) == 1) { s.faults = c.planFaults(dr, toolFaults(2)); c.sim.allowFault = toolFaults(1).allow; } auto r = c.run(s, "C20"); if (r.how != H_EXIT) return; if (r.status) { if (r.fired.empty()) c.fail("C20", "exit", sfmt("crashexport ended with status %d", r.status)); return; }
    str o = fs.read("/bbs/areas.out"), head, w1 = wantExport(w.cfg, k, g); size_t p = o.find("\n\n"); if (p == str::npos || !startsWith(o, "; Generated by CrashExport")) { c.fail("C20,C18", "export", "the area list is \"" + esc(o) + "\" although crashexport ended with status 0"); return; } o = o.substr(p + 2); if (o != w1) { size_t i = 0; while (i < o.size() && i < w1.size() && o[i] == w1[i]) i++; while (i && o[i - 1] != '\n') i--; c.fail("C20,C18", "export", str("area list ") + F[k] + " has \"" + esc(o.substr(i), 200) + "\" where \"" + esc(w1.substr(i), 200) + "\" is expected"); }
    if (fs.read("/bbs/crashmail.prefs") != w.cfg.text()) c.fail("C20", "changed", "crashexport changed the configuration"); return;
  }
  Model m(w.cfg); Round r = w.genRound(4); auto tr = c.run("crashmail", {"TOSS"}, {}, "*"); (void)tr; (void)r;
  std::vector<str> dirs{"/bbs/out"}; for (auto &x : fs.list("/bbs")) if (startsWith(x, "out.")) dirs.push_back("/bbs/" + x); str dir = dirs[d.n(dirs.size())]; int zone = w.cfg.defZone; if (dir.size() > 8) zone = strtol(dir.c_str() + 9, 0, 16);
  { int n = d.n(4); static const char *E[] = {"req", "flo", "hlo", "clo", "REQ", "dut", "bsy", "txt"}; for (int i = 0; i < n; i++) { str b = sfmt("%04x%04x", 200 + d.n(5), d.n(4) == 1 ? 0xfffe : d.n(300)); if (d.n(4) == 1) { b += ".pnt"; fs.mkdirs(dir + "/" + b); b += sfmt("/%08x", 1 + d.n(20)); } else if (d.n(4) == 1) b = upper(b); str e = E[d.n(8)], t; int q = d.n(6); if (lower(e)[1] == 'l' || e[0] == 'r' || e[0] == 'R') for (int j = 0; j < q; j++) { static const char *P[] = {"", "^", "#", "-"}; int z = d.n(5); t += (z == 4 ? str() : str(P[d.n(4)])) + (z == 0 ? "/bbs/crashmail.prefs" : z == 1 ? "attach.zip" : z == 2 ? "/bbs/nosuch" : z == 3 ? "/bbs/" + str(60, 'x') : "") + (d.n(2) ? "\r\n" : "\n"); } else t = str(d.n(20000), 'p'); fs.put(dir + "/" + b + "." + e, t, c.sim.now() - d.n(1000000)); } if (d.n(2)) fs.put(dir + "/attach.zip", str(d.n(3) == 1 ? 12345678 : 5000, 'a')); }
  static const char *PAT[] = {"*", "2:*", "2:203/*", "*:*/*.0", "*:*/1*.*", "*:20?/*.*", "2:203/118.*"}; int pi = d.n(3) == 1 ? d.n(7) : -1; bool verb = d.n(3) == 1; RunSpec s; s.prog = "crashlistout"; s.args = {dir, sfmt("%d", zone)}; if (pi >= 0) { if (d.n(2)) s.args.push_back("PATTERN"); s.args.push_back(PAT[pi]); } if (verb) s.args.push_back("VERBOSE");
  u64 h = fs.hash(); auto res = c.run(s, "C20"); if (res.status) c.fail("C20", "exit", sfmt("crashlistout ended with status %d", res.status)); if (fs.hash() != h) c.fail("C20", "changed", "crashlistout changed files");
  struct Row { Addr a; str text; std::vector<str> more; }; std::vector<Row> rows; u32 files = 0, bytes = 0, reqs = 0; auto norm = [&](const str &l, const str &dd) { return Vfs::norm("/bbs", l.find('/') == str::npos ? dd + "/" + l : l); };
  for (auto &f : fs.files(dir)) {
    str rel = f.substr(dir.size() + 1), leaf = rel.substr(rel.rfind('/') + 1), dd = f.substr(0, f.rfind('/')); if (leaf.size() != 12 || leaf[8] != '.') continue; str e = lower(leaf.substr(9)); Addr a; bool pnt = rel != leaf; if (pnt) { if (rel.size() < 12 || lower(rel.substr(8, 4)) != ".pnt") continue; u32 x = strtoul(rel.substr(0, 8).c_str(), 0, 16); a = {zone, (int)(x >> 16), (int)(x & 65535), (int)strtoul(leaf.substr(0, 8).c_str(), 0, 16)}; } else { u32 x = strtoul(leaf.substr(0, 8).c_str(), 0, 16); a = {zone, (int)(x >> 16), (int)(x & 65535), 0}; }
    const char *ty = e == "req" ? "Request" : e == "clo" || e == "cut" ? "Crash" : e == "dlo" || e == "dut" ? "Direct" : e == "flo" || e == "out" ? "Normal" : e == "hlo" || e == "hut" ? "Hold" : nullptr; if (!ty) continue; if (pi > 0 && !patMatch(pi == 1 ? "2:*/*.*" : pi == 2 ? "2:203/*.0" : PAT[pi], a)) continue;
    str bf; std::vector<str> more; str data = fs.read(f);
    if (e[1] == 'u') bf = unitS(data.size()) + "/1"; else { u32 nb = 0, nf = 0; for (auto l : splitLines(data, '\n')) { while (!l.empty() && (u8)l.back() < 33) l.pop_back(); if (l.empty()) continue; if (e == "req") { reqs++; nf++; more.push_back(" " + l); continue; } str todo = l[0] == '#' || l[0] == '^' ? "(To be truncated)" : l[0] == '-' ? "(To be deleted)" : ""; if (strchr("#^-", l[0])) l = l.substr(1); str p = norm(l, dd); bool ok = fs.exists(p); u32 sz = ok && !fs.isDir(p) ? fs.read(p).size() : 0; if (ok) { nf++; files++; nb += sz; bytes += sz; } more.push_back(sfmt(" %-39.39s %10s   %s", l.c_str(), ok ? unitS(sz).c_str() : "Not found", todo.c_str())); } bf = e == "req" ? sfmt("-/%u", nf) : unitS(nb) + sfmt("/%u", nf); }
    i64 mtm = fs.lookup(f)->mtime; static const char *MN[] = {"Jan","Feb","Mar","Apr","May","Jun","Jul","Aug","Sep","Oct","Nov","Dec"}; time_t tt = mtm + gTz; struct tm tm; gmtime_r(&tt, &tm); str dt = sfmt("%02d-%s-%02d %02d:%02d", tm.tm_mday, MN[tm.tm_mon], tm.tm_year % 100, tm.tm_hour, tm.tm_min);
    rows.push_back({a, sfmt("%-8.8s %-17.17s %-16.16s %7.7s   %s", ty, a.s().c_str(), dt.c_str(), bf.c_str(), rel.c_str()), more});
  }
  std::multiset<str> want, got; for (auto &x : rows) { str t = x.text; if (verb) for (auto &l : x.more) t += "\n" + l; want.insert(t); } std::vector<str> L = splitLines(res.out, '\n'); for (auto &l : L) while (!l.empty() && l.back() == '\n') l.pop_back(); size_t i = 0; while (i < L.size() && !startsWith(L[i], "Type ")) i++; i += 2; Addr last; bool sorted = true; str tot;
  for (; i < L.size(); i++) { if (L[i].empty()) continue; if (startsWith(L[i], "Totally") || startsWith(L[i], "Outbound directory is empty")) { tot = L[i]; break; } str t = L[i]; str as = t.size() > 26 ? t.substr(9, 17) : ""; while (!as.empty() && as.back() == ' ') as.pop_back(); Addr a; if (parseAddr(as, a)) { if (a < last) sorted = false; last = a; } while (verb && i + 1 < L.size() && !L[i + 1].empty() && L[i + 1][0] == ' ') t += "\n" + L[++i]; got.insert(t); }
  for (auto &x : want) if (!got.count(x)) c.fail("C20", "listout", "crashlistout does not show \"" + esc(x) + "\" but \"" + esc(res.out, 2000) + "\""); for (auto &x : got) if (!want.count(x)) c.fail("C20", "listout", "crashlistout shows \"" + esc(x) + "\""); if (!sorted) c.fail("C20", "listout", "crashlistout is not sorted"); str wt = rows.empty() ? "Outbound directory is empty." : "Totally " + unitS(bytes) + sfmt(" bytes in %u files to send, %u requests.", files, reqs); if (tot != wt) c.fail("C20", "listout", "crashlistout says \"" + tot + "\" instead of \"" + wt + "\"");
}
void regTools() { gProfiles.push_back({"write", writeP}); gProfiles.push_back({"nodelist", nodelistP}); gProfiles.push_back({"listing", listingP}); }
