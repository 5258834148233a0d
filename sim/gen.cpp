// Seeded generation of configurations and mail.
#include "world.hpp"
#include <cstring>

static const char *WORDS[] = {"the", "quick", "brown", "fox", "sysop", "node", "echomail", "modem", "zone", "gateway", "hub", "point"};
str World::genName(int max) {
  auto &d = c.d; static const char *N[] = {"John Doe", "All", "Sysop", "A", "Jane Q. Public", "Bj\xc3\xb6rn Stenberg", "x y z"};
  int k = d.n(10); if (k < 7) return str(N[k]).substr(0, max); if (k == 7) return str(max, 'N'); if (k == 8) return str(max - 1, 'm'); return "";
}
str World::genSubj(int max) {
  auto &d = c.d; str u = sfmt("UID%05d", uidNo); int k = d.n(8); str s = u;
  if (k == 1) s = "Re: " + u; else if (k == 2) s = "Re^2: Re: " + u + " hello"; else if (k == 3) s = u + str(max - u.size(), 's'); else if (k == 4) s = "re[3]: " + u; else if (k == 5) s = u + " caf\xe9"; else if (k == 6) s = "Re:" + u; return s.substr(0, max);
}
static str genLine(Draw &d, int len) { str s; while ((int)s.size() < len) { s += WORDS[d.n(12)]; s += ' '; } s.resize(len); if (len && (s[0] == 1)) s[0] = 'x'; return s; }
// text without AREA/SEEN-BY/PATH/Origin parts; ends with CR unless otherwise chosen by the caller
str World::genBody(unsigned) {
  auto &d = c.d; SPAN(d, "body"); str t; int k = d.n(12);
  if (k == 0) return ""; 
  int lines = 1 + d.small(12); if (k == 11) lines = 60 + d.n(300);
  for (int i = 0; i < lines; i++) {
    int lk = d.n(12); str l;
    if (lk < 5) l = genLine(d, d.n(80)); else if (lk == 5) l = ""; else if (lk == 6) l = genLine(d, 194 + d.n(8)); else if (lk == 7) l = genLine(d, 390 + d.n(12)); else if (lk == 8) { l = "> "; for (int j = 0; j < 20; j++) l += (char)(128 + d.n(127)); l += "."; } else if (lk == 9) l = "\t--- tab"; else if (lk == 10) l = "SEEN-BY in text: 2:2/2"; else l = genLine(d, 79);
    if (smallAlphabet && d.n(3) == 1) { l.clear(); int n = 1 + d.n(12); for (int j = 0; j < n; j++) l += "abn"[d.n(3)]; }
    if (!plainText && d.n(40) == 1) l += "\n"; t += l + "\r";
    if (k == 10 && i == 0) { int n = 9700 + d.n(600); while ((int)t.size() < n) t += genLine(d, std::min(78, n - (int)t.size())) + "\r"; }
  }
  return t;
}
static str genKludges(World &w, bool echo, str &msgid) {
  auto &d = w.c.d; str k, mine; int mk = d.n(10);
  if (mk < 7) { msgid = sfmt("2:5020/%d %08x", 1 + d.n(500), 0x10000 + ++w.msgidNo); if (mk == 6) { msgid += " "; msgid += str(60 + d.n(30), 'i'); } k += "\1MSGID: " + msgid + "\r"; mine = msgid; msgid = msgid.substr(0, 79); }
  if (w.msgids.size() && d.n(w.replies) == 1) { size_t n = w.msgids.size(); k += "\1REPLY: " + w.msgids[n - 1 - d.n(std::min<size_t>(n, w.replies * 2))] + "\r"; } else if (d.n(6) == 1) k += sfmt("\1REPLY: 2:5020/%d %08x\r", 1 + d.n(500), 0x10000 + (w.msgidNo > 1 ? 1 + d.n(w.msgidNo) : 7));
  if (d.n(5) == 1) k += "\1PID: GoldED 3.0.1\r"; if (d.n(6) == 1) k += "\1CHRS: LATIN-1 2\r"; if (d.n(8) == 1) k += "\1TZUTC: 0200\r";
  if (!mine.empty()) w.msgids.push_back(mine); return k;
}
Addr World::anyAddr() { auto &d = c.d; int k = d.n(8); Addr a; if (k < 4) a = cfg.nodes[d.n(cfg.nodes.size())].a; else if (k == 4) a = cfg.akas[d.n(cfg.akas.size())].a; else { static const int Z[] = {2, 2, 1, 3}; a.z = Z[d.n(4)]; a.n = a.z == 1 ? 100 + d.n(3) : a.z == 3 ? 640 : d.n(2) ? 203 : 5020; a.f = d.n(5) == 1 ? 0 : 1 + d.n(400); if (d.n(3) == 1) a.p = 1 + d.n(20); } return a; }
Addr World::anyDest() { Addr a = anyAddr(); if (c.d.n(6) == 1) { a = cfg.akas[c.d.n(cfg.akas.size())].a; a.p = 1 + c.d.n(9); } return a; }
static str genDate(World &w) { auto &d = w.c.d; if (d.n(12) == 1) return d.n(2) ? "x" : ""; str f = fidoDate(w.c.sim.now() - d.n(2000000)); if (d.n(12) == 1) { static const char *W[] = {"Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"}; str day = f.substr(0, 2); if (day[0] == '0' && d.n(2)) day[0] = ' '; f = str(W[d.n(7)]) + " " + day + f.substr(2, 7) + " " + f.substr(11, 5); } return f; }
static int genAttr(Draw &d, bool net) { int a = 0; if (d.n(3) == 1) a |= A_PVT; if (d.n(8) == 1) a |= A_CRASH; if (d.n(10) == 1) a |= A_HOLD; if (d.n(8) == 1) a |= A_LOCAL; if (d.n(8) == 1) a |= A_SENT; if (d.n(10) == 1) a |= A_RECD; if (d.n(10) == 1) a |= A_KILL; if (net && d.n(8) == 1) a |= A_RREQ; if (net && d.n(8) == 1) a |= A_AUDIT; if (net && d.n(10) == 1) a |= A_IRRR; if (net && d.n(15) == 1) a |= A_FREQ; if (d.n(20) == 1) a |= A_TRANSIT; return a; }
PMsg World::genEcho(const str &tag, const Addr &from, str &uid) {
  auto &d = c.d; SPAN(d, "echomail"); PMsg m; uid = newUid(); str msgid; m.date = genDate(*this); m.to = genName(35); m.from = genName(35); m.subj = genSubj(71); m.attr = genAttr(d, false); m.cost = d.n(6) == 1 ? d.n(65536) : 0; m.of = from.f; m.on = from.n; m.df = cfg.akas[0].a.f; m.dn = cfg.akas[0].a.n;
  int tk = d.n(10); m.text = "AREA:" + (tk == 1 ? lower(tag) : tk == 2 ? " " + tag + "  " : tag) + "\r";
  m.text += genKludges(*this, true, msgid); if (d.n(25) == 1) m.text += "\1RESCANNED 2:203/1\r";
  str b = genBody(0); bool sbFirst = false; m.text += b;
  if (d.n(3)) { m.text += "--- tearline\r"; } Addr og = anyAddr(); if (d.n(5)) m.text += " * Origin: somewhere (" + (d.n(3) ? og.s() : "FidoNet " + og.s()) + ")\r";
  else if (d.n(3) == 1 && m.text.size() > 40 && b.size() && m.text.back() == '\r' && m.text[m.text.size() - 2] != '\1') { size_t ls = m.text.rfind('\r', m.text.size() - 2); if (ls != str::npos && m.text[ls + 1] != 1) sbFirst = true; }
  // SEEN-BY and PATH
  int sk = d.n(10); std::vector<std::pair<int, int>> sb; int ns = sk < 2 ? 0 : sk < 7 ? d.n(6) : sk == 7 ? 10 + d.n(30) : sk == 8 ? 40 + d.n(70) : 3;
  for (int i = 0; i < ns; i++) { int r = d.n(6); if (r == 0 && !cfg.nodes.empty()) { auto &a = cfg.nodes[d.n(cfg.nodes.size())].a; if (a.p == 0) sb.push_back({a.n, a.f}); } else if (r == 1 && !cfg.akas.empty()) { auto &a = cfg.akas[d.n(cfg.akas.size())].a; sb.push_back({a.n, a.f}); } else if (r < 4) sb.push_back({203, (int)d.n(700)}); else sb.push_back({(int)(1 + d.n(65535)), (int)d.n(65536)}); }
  std::sort(sb.begin(), sb.end()); bool dup = d.n(6) == 1 && !sb.empty(); if (!dup) sb.erase(std::unique(sb.begin(), sb.end()), sb.end());
  if (!sb.empty()) m.text += seenByLines(sb, d.n(4) == 1 ? 60 : 79);
  int pk = d.n(10); int np = pk < 2 ? 0 : pk < 8 ? 1 + d.n(6) : 8 + d.n(25); std::vector<str> path; Addr prev{0, 0, 0, 0};
  for (int i = 0; i < np; i++) { Addr a; a.n = d.n(3) ? 203 : 1 + d.n(65535); a.f = d.n(2) ? 1 + d.n(400) : d.n(65536); if (d.n(12) == 1) a.p = 1 + d.n(30); if (i == np - 1 && d.n(3) == 1) { auto &k = cfg.akas[0].a; a = k; } if (a.n == prev.n && a.f == prev.f && a.p == prev.p) continue; prev = a; pathAppend(path, a); }
  for (auto &l : path) m.text += "\1PATH: " + l + "\r";
  if (sbFirst && path.empty() && sb.empty()) m.text.pop_back();
  if (d.n(40) == 1) m.text = m.text.substr(0, m.text.find('\r') + 1);   // nothing but the area line
  return m;
}
PMsg World::genNet(Addr &orig, Addr &dest, const Addr &porig, const Addr &pdest, str &uid) {
  auto &d = c.d; SPAN(d, "netmail"); PMsg m; uid = newUid(); str msgid; m.date = genDate(*this); m.to = genName(35); m.from = genName(35); m.subj = genSubj(71); m.attr = genAttr(d, true); m.cost = 0; m.of = orig.f; m.on = orig.n; m.df = dest.f; m.dn = dest.n;
  if (tattach && d.n(8) == 1) { static const char *D[] = {"", "", "c:\\files\\", "/home/sysop/", "files/"}; m.attr |= A_FILE; int n = 1 + d.n(3); str s; for (int i = 0; i < n; i++) { str f = i == 0 ? uid + ".zip" : i == 1 ? sfmt("b%d.zip", uidNo % 4) : "x/"; if (i < 2 && d.n(6) && !c.sim.fs.exists("/bbs/in/" + f)) { inFiles[f] = sfmt("attached to %s ", uid.c_str()) + str(d.n(300), 'a'); c.sim.fs.put("/bbs/in/" + f, inFiles[f], c.sim.now() - d.n(1000)); } s += (s.empty() ? "" : d.n(2) ? " " : ",") + str(D[d.n(5)]) + f; } m.subj = s; }
  bool intl = orig.z != porig.z || dest.z != pdest.z || d.n(3) == 1; bool first = d.n(2); str k;
  if (intl) k += sfmt("\1INTL %d:%d/%d %d:%d/%d\r", dest.z, dest.n, dest.f, orig.z, orig.n, orig.f); if (orig.p) k += sfmt("\1FMPT %d\r", orig.p); if (dest.p) k += sfmt("\1TOPT %d\r", dest.p);
  str k2 = genKludges(*this, false, msgid); m.text = first ? k + k2 : k2 + k; m.text += genBody(0);
  if (d.n(6) == 1) m.text += "--- tearline\r * Origin: no (2:1/1)\r";
  if (d.n(8) == 1) m.text += "SEEN-BY: 203/1 2\r";
  int vk = d.n(10); if (vk == 1) m.text += "\1Via 2:5020/1 @20010101.010101 FastEcho 1.46\r"; if (vk == 2) m.text += "\1Via " + cfg.akas[d.n(cfg.akas.size())].a.s() + " @20010101.010101 CrashMail II/Linux 1.2\r"; if (vk == 3) m.text += "\1Via 2:999/9 @20010101.010101 CrashMail II/Linux 1.2\r";
  if (d.n(5) == 1 && m.text.size() > 3) { size_t ls = m.text.rfind('\r', m.text.size() - 2); size_t b = ls == str::npos ? 0 : ls + 1; if (m.text[b] != 1 && m.text.back() == '\r' && m.text.size() - b > 1) m.text.pop_back(); }
  return m;
}
void World::genConfig(unsigned o) {
  auto &d = c.d; opts = o; SPAN(d, "config"); cfg = Cfg(); static const Addr OUR[] = {{2, 203, 118, 0}, {2, 203, 118, 7}, {1, 100, 200, 0}, {2, 5020, 10, 0}, {3, 640, 1, 0}};
  int na = 1 + d.n(3); std::vector<int> idx{0, 1, 2, 3, 4}; for (int i = 0; i < na; i++) { int k = i == 0 ? (d.n(6) == 1 ? d.n(5) : 0) : d.n(idx.size()); if (i == 0) { cfg.akas.push_back({OUR[k]}); idx.erase(idx.begin() + k); } else { cfg.akas.push_back({OUR[idx[k]]}); idx.erase(idx.begin() + k); } }
  cfg.defZone = cfg.akas[0].a.z;
  for (auto &a : cfg.akas) { if (d.n(5) == 1) for (int i = 0, n = 1 + d.n(3); i < n; i++) a.add.push_back({203 + (int)d.n(3), (int)(500 + d.n(20))}); if (d.n(5) == 1) { static const char *R[] = {"203/5?", "5020/*", "203/7", "*/1", "300/*", "203/118"}; for (int i = 0, n = 1 + d.n(2); i < n; i++) a.rem.push_back(R[d.n(6)]); } }
  if (d.n(4) == 1) { cfg.domains = true; const char *D[] = {"domfido", "domother", "domthird"}; for (size_t i = 0; i < cfg.akas.size(); i++) if (d.n(3)) cfg.akas[i].domain = cfg.akas[i].a.z == cfg.akas[0].a.z && d.n(3) ? D[0] : D[cfg.akas[i].a.z % 3]; }
  int nn = 2 + d.n(5); std::set<Addr> used; for (auto &a : cfg.akas) used.insert(a.a);
  for (int i = 0; i < nn; i++) {
    SPAN(d, "node"); NodeC n; int k = d.n(10); Addr a; auto &m = cfg.akas[0].a;
    if (k < 4) a = {m.z, m.n, (int)(1 + d.n(300)), 0}; else if (k == 4) a = {m.z, m.n, m.f, (int)(1 + d.n(20))}; else if (k == 5) a = {m.z, 5020, (int)(1 + d.n(300)), 0}; else if (k == 6) a = {1, 100, (int)(1 + d.n(300)), 0}; else if (k == 7) a = {3, 640, (int)(1 + d.n(30)), 0}; else if (k == 8 && !cfg.nodes.empty()) { a = cfg.nodes[0].a; a.p = 1 + d.n(5); } else if (!cfg.nodes.empty() && d.n(2)) { a = cfg.nodes[d.n(cfg.nodes.size())].a; a.z = a.z == 3 ? 2 : a.z + 1; } else a = {m.z, m.n + 1, (int)d.n(2) * 100, 0};
    while (used.count(a)) a.f++; used.insert(a); n.a = a; n.packer = (o & GO_NOBUNDLE) ? false : d.n(4) != 1; n.packerIdx = 0;
    int pk = d.n(6); n.pw = pk == 1 ? "secret" : pk == 2 ? "PW345678" : pk == 3 ? "MixCase" : "";
    if (d.n(8) == 1) n.flags |= N_PASSIVE; if (d.n(8) == 1) n.flags |= N_NOSEENBY; if (d.n(8) == 1) n.flags |= N_TINYSEENBY; if (d.n(5) == 1) n.flags |= N_PACKNETMAIL; if (d.n(3) == 1 && (o & GO_AUTOADD)) n.flags |= N_AUTOADD; if (d.n(6) == 1) n.flags |= N_NONETMAILPW;
    n.pri = "NNNCDH"[d.n(6)]; if (d.n(6) == 1) { n.hasPktFrom = true; n.pktFrom = cfg.akas[d.n(cfg.akas.size())].a; if (d.n(2) == 0) n.pktFrom.p = 5; }
    if (d.n(2)) { n.defgroup = 'A' + d.n(3); n.groups = "AB"; if (d.n(3) == 1) n.addgroups = d.n(2) ? "A" : "BC"; if (d.n(4) == 1) n.rogroups = "A"; n.afpw = "afpw"; }
    cfg.nodes.push_back(n);
  }
  int ne = 1 + d.n(4); static const char *TAG[] = {"TEST.AREA", "R50.SYSOP", "A", "LONG.AREA.NAME.WITH.MANY.CHARACTERS.THAT.GOES.ON.AND.ON.UP.TO.LIMIT", "fido_lower", "GOLDED"};
  auto genLinks = [&](AreaC &a) { for (size_t i = 0; i < cfg.nodes.size(); i++) if (d.n(3)) { unsigned f = 0; int k = d.n(10); if (k == 1) f = L_RO; else if (k == 2) f = L_WO; else if (k == 3) f = L_FEED; a.links.push_back({(int)i, f}); } };
  auto genBase = [&](AreaC &a, const char *nm) { int k = d.n(5); if ((o & GO_PASSTHRU) || k == 4) { a.base = B_NONE; return; } a.base = (o & GO_JAM) ? (k == 3 ? B_MSG : B_JAM) : k < 3 ? B_MSG : B_JAM; a.path = str("base/") + nm; };
  for (int i = 0; i < ne; i++) { SPAN(d, "area"); AreaC a; a.tag = TAG[i]; a.aka = d.n(3) == 1 ? d.n(cfg.akas.size()) : 0; genLinks(a); genBase(a, sfmt("e%d", i).c_str()); if (d.n(8) == 1) a.flags |= F_IGNOREDUPES; if (d.n(6) == 1) a.flags |= F_IGNORESEENBY; if (d.n(15) == 1) a.flags |= F_UNCONFIRMED; if (d.n(3) == 1) a.group = 'A' + d.n(3); if (d.n(4) == 1) a.desc = "About " + str(TAG[i]).substr(0, 10); cfg.areas.push_back(a); }
  if (d.n(10) != 1) { AreaC a; a.tag = "BAD"; a.kind = K_BAD; a.base = d.n(4) == 1 ? B_JAM : B_MSG; a.path = "base/bad"; cfg.areas.insert(cfg.areas.begin() + d.n(cfg.areas.size() + 1), a); }
  if (o & GO_NETMAIL) { int k = d.n(10) == 1 ? 0 : 1 + d.n(2); for (int i = 0; i < k; i++) { AreaC a; a.tag = sfmt("NETMAIL%d", i); a.kind = K_NETMAIL; a.aka = i < (int)cfg.akas.size() ? i : 0; a.base = d.n(3) == 1 ? B_JAM : B_MSG; a.path = sfmt("base/n%d", i); if (d.n(4) == 1) { Addr x = anyAddr(); if (x.p == 0 && d.n(2)) x.p = 3; a.imports.push_back(x); } cfg.areas.insert(cfg.areas.begin() + d.n(cfg.areas.size() + 1), a); } }
  if ((o & GO_AUTOADD) && d.n(4)) { AreaC a; a.tag = d.n(5) == 1 ? "DEFAULT_AB" : "DEFAULT"; a.kind = K_DEFAULT; a.base = d.n(3) == 1 ? B_JAM : d.n(4) == 1 ? B_NONE : B_MSG; a.path = d.n(2) ? "base/%a" : "base/%l"; if (d.n(3) == 1) genLinks(a); if (d.n(4) == 1) a.flags |= F_DEFRO; if (d.n(4) == 1) a.flags |= F_MANDATORY; if (d.n(6) == 1) a.keepNum = 100; if (d.n(6) == 1) a.flags |= F_IGNOREDUPES; if (a.base == B_NONE) a.path.clear(); cfg.areas.push_back(a); }
  // nodelist
  gNl = nullptr; if ((o & GO_NETMAIL) && d.n(4) == 1) {
    SPAN(d, "nodes"); cfg.nodelist = true; gNl = &cfg; std::map<std::pair<int, int>, std::set<int>> nets; for (auto &a : cfg.akas) nets[{a.a.z, a.a.n}].insert(a.a.f); for (auto &n : cfg.nodes) nets[{n.a.z, n.a.n}].insert(n.a.f); for (int i = 0; i < 6; i++) { Addr a = anyAddr(); nets[{a.z, a.n}].insert(a.f); }
    int last = 0, reg = 0, no = 0; auto line = [&](const char *k, int n) { cfg.nlText += sfmt("%s,%d,System_%d,Town,Sys_Op,1-2-%d,9600,CM\r\n", k, n, ++no, no); };
    for (auto &x : nets) {
      int z = x.first.first, net = x.first.second, hub = 0; if (z != last) { line("Zone", z); cfg.nl.insert({{z, z, 0, 0}, {0, 0}}); last = z; reg = 0; } if (d.n(3)) { reg = 20 + d.n(4); line("Region", reg); cfg.nl.insert({{z, reg, 0, 0}, {reg, 0}}); }
      line("Host", net); cfg.nl.insert({{z, net, 0, 0}, {reg, 0}}); for (int f : x.second) { if (d.n(4) == 1) { hub = 100 * (1 + d.n(4)); line("Hub", hub); cfg.nl.insert({{z, net, hub, 0}, {reg, hub}}); } int k = d.n(8); if (k == 1) continue; if (!f) continue; line(k == 2 ? "Pvt" : k == 3 ? "Hold" : "", f); cfg.nl.insert({{z, net, f, 0}, {reg, hub}}); }
    }
    if (d.n(2)) cfg.bounces.push_back(d.n(2) ? "*:*/*.*" : d.n(2) ? "2:*/*.*" : "ZONE 1");
  }
  // routing
  { SPAN(d, "routes"); int nr = d.n(4); for (int i = 0; i < nr; i++) { RouteC r; int k = d.n(8); Addr a = anyAddr(); r.pat = k == 0 ? sfmt("%d:*/*.*", a.z) : k == 1 ? sfmt("%d:%d/*.*", a.z, a.n) : k == 2 ? sfmt("%d:%d/%d.*", a.z, a.n, a.f) : k == 3 ? a.s() : k == 4 ? sfmt("NET %d:%d", a.z, a.n) : k == 5 ? sfmt("ZONE %d", a.z) : k == 6 ? sfmt("*:%d/1?*.*", a.n) : sfmt("NODE %d:%d/%d", a.z, a.n, a.f); int q = d.n(8); if (cfg.nodelist && d.n(4) == 1) r.pat = d.n(2) ? sfmt("REGION %d:%d", a.z, 20 + d.n(4)) : sfmt("HUB %d:%d/%d", a.z, a.n, 100 * (int)d.n(5)); r.dest = q < 3 ? cfg.nodes[d.n(cfg.nodes.size())].a.s4() : q == 3 ? "*:*/*.0" : q == 4 ? "*:*/*.*" : q == 5 ? "NODE" : q == 6 ? "NET" : "ZONE"; if (cfg.nodelist && d.n(4) == 1) r.dest = d.n(2) ? "REGION" : "HUB"; r.aka = d.n(cfg.akas.size()); cfg.routes.push_back(r); }
    if (d.n(12) != 1) { RouteC r; r.pat = "*:*/*.*"; r.dest = d.n(3) == 1 ? "*:*/*.*" : cfg.nodes[0].a.s4(); r.aka = 0; cfg.routes.push_back(r); } 
    int nc = d.n(3) == 1 ? 1 + d.n(2) : 0; static const char *T[] = {"*", "NORMAL", "CRASH", "HOLD,DIRECT", "NORMAL,CRASH", "DIRECT"}; static const char *TT[] = {"CRASH", "HOLD", "DIRECT", "NORMAL"}; for (int i = 0; i < nc; i++) { Addr a = anyAddr(); cfg.changes.push_back({T[d.n(6)], d.n(2) ? sfmt("%d:*/*.*", a.z) : sfmt("%d:%d/%d.*", a.z, a.n, a.f), TT[d.n(4)]}); }
    if (d.n(3)) cfg.fileattach.push_back(d.n(2) ? "*:*/*.*" : "2:*/*.*"); }
  static const char *SW[] = {"STRIPRE", "FORCEINTL", "NOROUTE", "ANSWERRECEIPT", "ANSWERAUDIT", "CHECKSEENBY", "CHECKPKTDEST", "PATH3D", "IMPORTEMPTYNETMAIL", "NODIRECTATTACH", "BOUNCEPOINTS", "IMPORTSEENBY", "WEEKDAYNAMING", "BOUNCEHEADERONLY", "FLOWCRLF"};
  static const int SP[] = {4, 5, 25, 3, 3, 2, 4, 3, 3, 4, 6, 3, 4, 3, 5}; { SPAN(d, "switches"); for (int i = 0; i < 15; i++) if (d.n(SP[i]) == 1) cfg.sw.insert(SW[i]); }
  int dk = d.n(6); if (dk) { cfg.dupeSize = dk == 1 ? 1 + d.n(4) : dk == 2 ? 5 + d.n(10) : 200; cfg.dupeMode = d.n(2) ? "KILL" : "BAD"; }
  int lk = d.n(3); cfg.loopMode = lk == 0 ? "IGNORE" : lk == 1 ? "LOG" : "LOG+BAD";
  if (d.n(3) == 1) cfg.maxPkt = 1 + d.n(8); if (d.n(3) == 1) cfg.maxBundle = 1 + d.n(8);
  static const char *JS[] = {"JAM_LINK", "JAM_QUICKLINK", "JAM_HIGHWATER", "MSG_HIGHWATER"}; for (int i = 0; i < 4; i++) if (d.n(3) == 1) cfg.sw.insert(JS[i]);
  cfg.comments = d.n(2); cfg.logLevel = d.n(4) == 1 ? 6 : 1;
}
void World::install() {
  auto &fs = c.sim.fs; for (const char *p : {"/bbs/in", "/bbs/out", "/bbs/temp", "/bbs/create", "/bbs/packets", "/bbs/base"}) fs.mkdirs(p);
  writeConfig(); gNl = cfg.nodelist ? &cfg : nullptr;
  if (cfg.nodelist) { fs.put("/bbs/nodelist/cmnodelist.prefs", "NODELIST\n"); fs.put("/bbs/nodelist/NODELIST.100", cfg.nlText); c.run("crashlist", {"/bbs/nodelist"}, {}, "C20"); }
  for (auto &n : cfg.nodes) { universe.insert(n.a); } 
}
