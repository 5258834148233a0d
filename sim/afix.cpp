#include "afix.hpp"
#include <cstring>

// ------------------------------------------------------------------ reading the configuration file
str jbWord(const str &s, size_t &p, size_t max, bool &ok) {
  while (p < s.size() && (s[p] == ' ' || s[p] == '\t')) p++; bool q = p < s.size() && s[p] == '"'; if (q) p++; str r;
  while (p < s.size() && s[p] != '\n' && !(q ? s[p] == '"' : s[p] == ' ' || s[p] == '\t')) { if (s[p] == '\\' && p + 1 < s.size() && s[p + 1] != '\n') p++; if (r.size() < max - 1) r += s[p]; p++; }
  if (p < s.size() && (s[p] == ' ' || s[p] == '\t' || s[p] == '"')) p++; ok = q || !r.empty(); return r;
}
static std::vector<str> confWords(const str &l) { std::vector<str> v; size_t p = 0; for (;;) { bool ok; str x = jbWord(l, p, 4000, ok); if (!ok) return v; v.push_back(x); } }
static bool isAreaKey(const str &k) { static const std::set<str> S{"IGNORESEENBY", "IGNOREDUPES", "DEFREADONLY", "MANDATORY", "UNCONFIRMED", "KEEPNUM", "KEEPDAYS", "GROUP", "DESCRIPTION", "BANNED", "EXPORT", "IMPORT"}; return S.count(k) > 0; }
static bool isNodeKey(const str &k) { static const std::set<str> S{"DEFAULTGROUP", "REMOTESYSOP", "REMOTEAF", "AREAFIXINFO", "PKTFROM"}; return S.count(k) > 0; }
ConfFile parseConf(const str &text) {
  ConfFile f; int la = -1, ln = -1;
  for (auto raw : splitLines(text, '\n')) {
    str l = raw; while (!l.empty() && (l.back() == '\n')) l.pop_back(); auto wd = confWords(l); if (wd.empty() || (wd[0].empty() && wd.size() == 1)) continue; str k = upper(wd[0]);
    if (k == "NODE" && wd.size() > 1) { Addr a; parseAddr(wd[1], a); ConfBlock b; b.id = "N:" + a.s4(); b.lines.push_back(l); f.order.push_back(b.id); f.blocks.push_back(b); ln = f.blocks.size() - 1; }
    else if ((k == "AREA" || k == "NETMAIL" || k == "LOCALAREA") && wd.size() > 1) { ConfBlock b; b.area = true; b.id = "A:" + upper(wd[1]); b.lines.push_back(l); f.order.push_back(b.id); f.blocks.push_back(b); la = f.blocks.size() - 1; }
    else if (isAreaKey(k) && la >= 0) f.blocks[la].lines.push_back(l); else if (isNodeKey(k) && ln >= 0) f.blocks[ln].lines.push_back(l); else f.order.push_back("L:" + l);
  }
  return f;
}
static bool addr4(const str &s, Addr &a, const Addr *tpl) {   // Z:N/F.P where leading parts may be left out
  if (s.find('/') != str::npos || !tpl) { if (s.find(':') != str::npos) return parseAddr(s, a); if (!tpl) return false; return parseAddr(sfmt("%d:", tpl->z) + s, a); }
  return parseAddr(sfmt("%d:%d/", tpl->z, tpl->n) + s, a);
}
bool parseAreaBlock(const Cfg &c, const ConfBlock &b, AreaC &a, str &err) {
  a = AreaC(); auto h = confWords(b.lines[0]); str k = upper(h[0]); if (h.size() < 3) { err = "area line too short"; return false; } a.tag = h[1].substr(0, 79);
  a.kind = k == "NETMAIL" ? K_NETMAIL : k == "LOCALAREA" ? K_LOCAL : ieq(a.tag, "BAD") ? K_BAD : ieq(a.tag, "DEFAULT") || startsWith(upper(a.tag), "DEFAULT_") ? K_DEFAULT : K_ECHO;
  Addr ak; if (!parseAddr(h[2], ak)) { err = "bad address " + h[2]; return false; } a.aka = -1; for (size_t i = 0; i < c.akas.size(); i++) if (c.akas[i].a == ak) a.aka = i; if (a.aka < 0) { err = "unknown AKA " + h[2]; return false; }
  if (h.size() > 3) { str t = upper(h[3]); a.base = t == "MSG" ? B_MSG : t == "JAM" ? B_JAM : B_NONE; if (a.base == B_NONE || h.size() < 5) { err = "bad message base"; return false; } a.path = h[4]; }
  auto node = [&](const str &s, const Addr *tpl, Addr &x) { if (!addr4(s, x, tpl)) return -1; for (size_t i = 0; i < c.nodes.size(); i++) if (c.nodes[i].a == x) return (int)i; return -1; };
  for (size_t i = 1; i < b.lines.size(); i++) {
    auto v = confWords(b.lines[i]); str q = upper(v[0]); Addr tpl, x;
    if (q == "EXPORT") for (size_t j = 1; j < v.size(); j++) { str s = v[j]; unsigned f = 0; while (!s.empty() && strchr("!@%", s[0])) { f |= s[0] == '!' ? L_RO : s[0] == '@' ? L_WO : L_FEED; s = s.substr(1); } int n = node(s, &tpl, x); if (n < 0) { err = "unknown link " + v[j]; return false; } tpl = x; tpl.p = 0; a.links.push_back({n, f}); }
    else if (q == "BANNED") for (size_t j = 1; j < v.size(); j++) { int n = node(v[j], &tpl, x); if (n < 0) { err = "unknown system " + v[j]; return false; } tpl = x; tpl.p = 0; a.banned.push_back(n); }
    else if (q == "IMPORT") for (size_t j = 1; j < v.size(); j++) { if (!addr4(v[j], x, &tpl)) { err = "bad address"; return false; } tpl = x; a.imports.push_back(x); }
    else if (q == "GROUP") a.group = v.size() > 1 && !v[1].empty() ? toupper(v[1][0]) : 0; else if (q == "DESCRIPTION") a.desc = v.size() > 1 ? v[1].substr(0, 79) : ""; else if (q == "KEEPNUM") a.keepNum = atoi(v.size() > 1 ? v[1].c_str() : "0"); else if (q == "KEEPDAYS") a.keepDays = atoi(v.size() > 1 ? v[1].c_str() : "0");
    else if (q == "UNCONFIRMED") a.flags |= F_UNCONFIRMED; else if (q == "MANDATORY") a.flags |= F_MANDATORY; else if (q == "DEFREADONLY") a.flags |= F_DEFRO; else if (q == "IGNOREDUPES") a.flags |= F_IGNOREDUPES; else if (q == "IGNORESEENBY") a.flags |= F_IGNORESEENBY;
  }
  return true;
}
static const std::pair<unsigned, const char *> NFL[] = {{N_PASSIVE, "PASSIVE"}, {N_NOSEENBY, "NOSEENBY"}, {N_TINYSEENBY, "TINYSEENBY"}, {N_PACKNETMAIL, "PACKNETMAIL"}, {N_AUTOADD, "AUTOADD"}, {N_NONETMAILPW, "NONETMAILPASSWORD"}, {N_NOTIFY, "NOTIFY"}, {N_FORWARDREQ, "FORWARDREQ"}, {N_SENDAREAFIX, "SENDAREAFIX"}, {N_SENDTEXT, "SENDTEXT"}};
bool parseNodeBlock(const ConfBlock &b, NodeC &n, str &err) {
  n = NodeC(); auto h = confWords(b.lines[0]); if (h.size() < 4) { err = "node line too short"; return false; } if (!parseAddr(h[1], n.a)) { err = "bad address"; return false; } n.packer = !h[2].empty(); n.packerIdx = ieq(h[2], "OTHER"); if (n.packer && !ieq(h[2], "OTHER") && !ieq(h[2], "SIM")) { err = "unknown packer " + h[2]; return false; } n.pw = h[3].substr(0, 8);
  for (size_t i = 4; i < h.size(); i++) { str k = upper(h[i]); bool ok = false; for (auto &f : NFL) if (k == f.second) { n.flags |= f.first; ok = true; } if (k == "CRASH" || k == "DIRECT" || k == "HOLD") { n.pri = k[0]; ok = true; } if (!ok) { err = "unknown switch " + h[i]; return false; } }
  for (size_t i = 1; i < b.lines.size(); i++) {
    auto v = confWords(b.lines[i]); str q = upper(v[0]); auto at = [&](size_t j) { return j < v.size() ? v[j] : str(); };
    if (q == "PKTFROM") { n.hasPktFrom = parseAddr(at(1), n.pktFrom); } else if (q == "AREAFIXINFO") { n.afpw = at(1).substr(0, 39); n.groups = upper(at(2)); n.rogroups = upper(at(3)); n.addgroups = upper(at(4)); } else if (q == "REMOTEAF") { n.rafName = at(1).substr(0, 35); n.rafPw = at(2).substr(0, 71); if (ieq(at(3), "NEEDSPLUS")) n.flags |= N_NEEDSPLUS; } else if (q == "REMOTESYSOP") n.sysop = at(1).substr(0, 35); else if (q == "DEFAULTGROUP") n.defgroup = toupper(at(1)[0]);
  }
  return true;
}
str diffArea(const Cfg &c, const AreaC &e, const AreaC &g) {
#define F(x, what) if (e.x != g.x) return what;
  F(tag, "name") F(kind, "type") F(aka, "address") F(base, "message base type") if (e.path != g.path) return "path: expected " + e.path + ", found " + g.path; F(flags, "flags") F(group, "group") if (e.desc != g.desc) return "description: expected \"" + e.desc + "\", found \"" + g.desc + "\""; F(keepNum, "KEEPNUM") F(keepDays, "KEEPDAYS") F(imports, "IMPORT") F(banned, "banned systems")
#undef F
  auto show = [&](const std::vector<LinkC> &v) { str s; for (auto &l : v) s += str(l.flags & L_RO ? "!" : "") + (l.flags & L_WO ? "@" : "") + (l.flags & L_FEED ? "%" : "") + c.nodes[l.node].a.s() + " "; return s; };
  if (show(e.links) != show(g.links)) return "links: expected " + show(e.links) + ", found " + show(g.links); return "";
}
str diffNode(const NodeC &e, const NodeC &g) {
#define F(x, what) if (e.x != g.x) return what;
  F(a, "address") F(packer, "packer") F(packerIdx * e.packer, "packer name") F(pw, "password") F(flags, "flags") F(pri, "priority") F(hasPktFrom, "PKTFROM") if (e.hasPktFrom) F(pktFrom, "PKTFROM address") F(afpw, "AreaFix password") F(groups, "groups") F(rogroups, "read-only groups") F(addgroups, "add groups") F(defgroup, "default group") F(rafName, "remote AreaFix name") F(rafPw, "remote AreaFix password") F(sysop, "sysop name")
#undef F
  return "";
}
str messyConfig(Draw &d, const str &text) {
  SPAN(d, "layout"); str t; static const char *CM[] = {"; a comment", ";", "  ; AREA \"LOOKS.LIKE.ONE\" 2:1/1", ";NODE 2:1/1 \"\" \"\"", "\t; tab \"quote"};
  for (auto l : splitLines(text, '\n')) {
    int k = d.n(24); if (k == 1) t += str(CM[d.n(5)]) + "\n"; else if (k == 2) t += "\n"; else if (k == 3) t += " \t\n";
    if (!l.empty() && l[0] != ';' && l.size() > 2) { int q = d.n(16); if (q == 1) l = "\t" + l; else if (q == 2) l = "  " + l; else if (q == 3) { size_t e = l.find_first_of(" \n"); for (size_t i = 0; i < e && i < l.size(); i++) l[i] = tolower(l[i]); } else if (q == 4) { size_t e = l.find(' '); if (e != str::npos) l.insert(e, "  "); } else if (q == 5) l.insert(l.size() - 1, " "); }
    t += l;
  }
  if (d.n(8) == 1 && t.size() > 2 && t.back() == '\n') t.pop_back(); return t;
}
// what is wrong with 'text' as the successor of 'old' ("" if nothing)
str confDiff(World &w, Model &m, const str &old, const str &text, bool) {
  ConfFile a = parseConf(old), b = parseConf(text); auto &c = w.cfg;
  // sequence of headers and other lines
  std::map<str, int> byTag; for (size_t i = 0; i < c.areas.size(); i++) if (c.areas[i].kind != K_DELETED) byTag["A:" + upper(c.areas[i].tag)] = i;
  std::vector<str> exp; std::set<str> had; for (auto &o : a.order) { if (startsWith(o, "A:")) { had.insert(o); if (!byTag.count(o)) continue; } exp.push_back(o); }
  for (size_t i = 0; i < c.areas.size(); i++) if (c.areas[i].kind != K_DELETED && !had.count("A:" + upper(c.areas[i].tag))) exp.push_back("A:" + upper(c.areas[i].tag));
  for (size_t i = 0; i < exp.size() || i < b.order.size(); i++) { str e = i < exp.size() ? exp[i] : "(end)", g = i < b.order.size() ? b.order[i] : "(end)"; if (e != g) return "expected \"" + esc(e, 80) + "\", found \"" + esc(g, 80) + "\""; }
  std::map<str, const ConfBlock *> ob; for (auto &x : a.blocks) ob[x.id] = &x;
  for (auto &x : b.blocks) {
    str err; auto o = ob.find(x.id);
    if (x.area) {
      int ai = byTag[x.id]; AreaC g; if (!parseAreaBlock(c, x, g, err)) return "definition of area " + x.id.substr(2) + ": " + err;
      if (c.areas[ai].anyPath && m.touchedAreas.count(ai) && c.areas[ai].isNew) { for (auto &y : b.blocks) if (y.area && y.id != x.id) { AreaC h; if (parseAreaBlock(c, y, h, err) && h.base != B_NONE && h.kind != K_DEFAULT && ieq(h.path, g.path)) return "areas " + x.id.substr(2) + " and " + y.id.substr(2) + " have the same path " + g.path; } c.areas[ai].path = g.path; }
      str df = diffArea(c, c.areas[ai], g); if (!df.empty()) return "area " + x.id.substr(2) + ": " + df;
      if (!m.touchedAreas.count(ai) && (o == ob.end() || o->second->lines != x.lines)) return "definition of area " + x.id.substr(2) + " was rewritten though nothing in it changed";
    } else {
      int ni = -1; for (size_t i = 0; i < c.nodes.size(); i++) if ("N:" + c.nodes[i].a.s4() == x.id) ni = i; if (ni < 0) return "unknown system " + x.id; NodeC g; if (!parseNodeBlock(x, g, err)) return "definition of " + x.id.substr(2) + ": " + err;
      str df = diffNode(c.nodes[ni], g); if (!df.empty()) return "system " + x.id.substr(2) + ": " + df;
      if (!m.touchedNodes.count(ni) && (o == ob.end() || o->second->lines != x.lines)) return "definition of system " + x.id.substr(2) + " was rewritten though nothing in it changed";
    }
  }
  return "";
}
void cmpOrder(World &w, const str &t) {
  auto f = parseConf(t); for (size_t i = 0; i < f.blocks.size(); i++) if (f.blocks[i].area) for (auto &x : w.cfg.areas) if (x.kind != K_DELETED && "A:" + upper(x.tag) == f.blocks[i].id) x.pos = i;
}
void cmpConfig(World &w, Model &m, const str &old, const str &oldBak, const str &tags) {
  auto &c = w.c; auto &fs = c.sim.fs; str t = fs.read("/bbs/crashmail.prefs"), bak = fs.read("/bbs/crashmail.prefs.bak");
  if (m.touchedAreas.empty() && m.touchedNodes.empty() && !m.cfgChanged) { if (t != old) c.fail("C14,C15" + tags, "config-changed", "the configuration was changed by a run that had nothing to change: " + confDiff(w, m, old, t, true)); if (bak != oldBak) c.fail("C14" + tags, "config-backup", "the backup of the configuration was changed by a run that had nothing to change"); return; }
  str df = confDiff(w, m, old, t, true); if (!df.empty()) c.fail("C14,C15" + tags, "config", "configuration after the run: " + df);
  if (t != old && bak != old) c.fail("C14" + tags, "config-backup", "the backup does not hold the previous version of the configuration");
  if (fs.exists("/bbs/crashmail.prefs.tmp")) c.fail("C14" + tags, "config-temp", "temporary configuration file left");
  cmpOrder(w, t);
  m.touchedAreas.clear(); m.touchedNodes.clear(); m.cfgChanged = false;
}
// ------------------------------------------------------------------ configuration and files
static const char *LONG90 = "AREA.WITH.A.NAME.THAT.HAS.NO.ROOM.0123456789.0123456789.0123456789.0123456789.0123456789", *LONG79 = "AREA.WITH.A.NAME.THAT.JUST.FITS.IN.0123456789.0123456789.0123456789.0123456789";
void AfixWorld::config(bool exotic) {
  auto &d = c.d; auto &g = w.cfg; SPAN(d, "areafix config"); static const char *PW[] = {"afpw", "Secret", "two words", "q\"uote", "back\\slash", ""}; static const char *GR[] = {"A", "AB", "ABC", "C", "", "BD"};
  for (auto &n : g.nodes) {
    n.afpw = PW[d.n(exotic ? 6 : 2)]; n.groups = GR[d.n(6)]; n.rogroups = d.n(3) == 1 ? GR[d.n(6)] : ""; if (d.n(2)) n.flags |= N_FORWARDREQ; if (d.n(3) == 1) n.flags |= N_NOTIFY; if (d.n(3) == 1) n.flags |= N_SENDAREAFIX; if (d.n(3) == 1) n.flags |= N_SENDTEXT;
    if (d.n(3)) { n.rafName = d.n(3) == 1 ? "Area Manager" : "AreaFix"; n.rafPw = sfmt("RAF%u", d.n(3)); if (exotic && d.n(4) == 1) n.rafPw = "RAF\"x\\"; if (d.n(3) == 1) n.flags |= N_NEEDSPLUS; } if (d.n(2)) n.sysop = d.n(4) == 1 ? "John \"Jack\" Doe" : "John Doe";
    if (n.afpw.empty() && n.groups.empty()) n.groups = "A";
  }
  for (auto &a : g.areas) if (a.kind == K_ECHO || a.kind == K_DEFAULT) {
    if (d.n(5)) a.group = 'A' + d.n(4); if (d.n(5) == 1) a.flags |= F_MANDATORY; if (d.n(5) == 1) a.flags |= F_DEFRO; if (d.n(3) == 1 && a.kind == K_ECHO) { int b = d.n(g.nodes.size()); a.banned.push_back(b); } if (d.n(4) == 1) a.desc = d.n(3) ? "Area of \"quoted\" things" : "back\\slash and a description that is longer than 33 characters"; if (d.n(5) == 1) a.keepNum = 50; if (d.n(5) == 1) a.keepDays = 9;
    if (a.kind == K_ECHO && d.n(3) == 1 && a.links.size() > 1) { for (auto &l : a.links) if (l.flags == L_FEED) l.flags = 0; a.links[d.n(a.links.size())].flags = L_FEED; }
    if (a.kind == K_ECHO && d.n(4) == 1) { while (a.links.size() > 2) a.links.pop_back(); if (!a.links.empty() && d.n(2)) a.links[0].flags = L_FEED; }
  }
  static const char *SW[] = {"REMOVEWHENFEED", "AREAFIXREMOVE", "ALLOWRESCAN", "FORWARDPASSTHRU", "INCLUDEFORWARD", "IMPORTAREAFIX"}; static const int SP[] = {3, 2, 2, 3, 2, 4}; for (int i = 0; i < 6; i++) if (d.n(SP[i]) == 1) g.sw.insert(SW[i]);
  int mk = d.n(5); if (mk == 1) maxLines = 5 + d.n(6); if (mk == 2) maxLines = 20; if (maxLines) g.extra += sfmt("AREAFIXMAXLINES %d\n", maxLines);
  for (char ch : str("ABC")) if (d.n(2)) { groupNames[ch] = sfmt("Group of %c \"things\"", ch); g.extra += sfmt("GROUPNAME %c \"Group of %c \\\"things\\\"\"\n", ch, ch); }
  help = d.n(4) != 1; if (help) g.extra += "AREAFIXHELP \"afix.help\"\n"; if (d.n(3) == 1) g.afNames.push_back("Allfix Manager");
  int nl = d.n(3); for (int i = 0; i < nl; i++) { ListC l; l.node = d.n(g.nodes.size()); l.file = sfmt("list%d.txt", i); l.fwd = d.n(4) != 1; l.desc = d.n(2); l.group = d.n(5) ? 'A' + d.n(3) : 0; static const char *T[] = {"FWD.ONE", "fwd_two", "FWD/3", "FWD_3", "TEST.AREA", "REMOTE.LONG.AREA.NAME.OF.MORE.THAN.28", LONG90, LONG79}; for (int j = 0; j < 8; j++) if (d.n(3)) l.areas.push_back({T[j], d.n(2) ? sfmt("Description of %s", T[j]) : ""}); lists.push_back(l); g.arealists.push_back(sfmt("AREALIST %s \"%s\"%s%s", g.nodes[l.node].a.s4().c_str(), l.file.c_str(), l.fwd ? " FORWARD" : "", l.desc ? " DESC" : "") + (l.group ? sfmt(" GROUP %c", l.group) : "")); }
}
void AfixWorld::files() { auto &d = c.d; for (auto &l : lists) { str t; for (auto &a : l.areas) t += a.first + (a.second.empty() ? "" : (d.n(2) ? " " : "\t\t") + a.second) + (d.n(4) == 1 ? "\r\n" : "\n"); c.sim.fs.put("/bbs/" + l.file, t, c.sim.now()); } if (help && d.n(5)) { int n = 1 + d.n(12); str t; for (int i = 0; i < n; i++) { helpLines.push_back(d.n(4) ? sfmt("Help line %d 100%% sure", i) : ""); t += helpLines.back() + "\n"; } c.sim.fs.put("/bbs/afix.help", t, c.sim.now()); } else help = false; }
// ------------------------------------------------------------------ replies
void AfixWorld::autoMail(const Addr &from, const Addr &to, const str &toName, const str &subj, const str &body) {
  MM r; r.orig = from; r.dest = to; r.to = toName; r.from = w.cfg.sysop; r.subj = subj; r.attr = A_PVT; r.autogen = true; r.uid = keyOf(subj, ""); r.reply = "areafix"; r.text = "*"; r.body = body; m.handle(r);
}
void AfixWorld::send(Reply &r) { autoMail(r.from, r.dest, r.to, r.part == 1 ? r.subj : r.subj + sfmt(" (part %d)", r.part), r.text); }
void AfixWorld::line(Reply &r, const str &s) {
  if (maxLines && r.lines >= maxLines - 2) { r.text += "\r(Continued in next message)\r"; send(r); r.text = "(Continued from previous message)\r\r"; r.lines = 2; r.part++; }
  r.text += s + "\r"; r.lines++;
}
void AfixWorld::cmd(Reply &r, const str &cm, const str &s) { if (cm.size() <= 30) line(r, sfmt("%-30s %s", cm.c_str(), s.c_str())); else { line(r, cm); line(r, sfmt("%-30s %s", "", s.c_str())); } }
static bool inGr(char g, const str &s) { return g && s.find(g) != str::npos; }
void AfixWorld::addRemote(int node, const str &cm) { for (auto &x : remote) if (x.first == node) { x.second.push_back(cm.substr(0, 70)); return; } remote.push_back({node, {cm.substr(0, 70)}}); }
void AfixWorld::sendRemote() {
  std::stable_sort(remote.begin(), remote.end(), [](const std::pair<int, std::vector<str>> &a, const std::pair<int, std::vector<str>> &b) { return a.first < b.first; });
  for (auto &x : remote) { auto &n = w.cfg.nodes[x.first]; const RouteC *rt = nullptr; for (auto &r : w.cfg.routes) if (patMatch(r.pat, n.a)) { rt = &r; break; } if (!rt) continue; str b; for (auto &s : x.second) b += s + "\r"; autoMail(w.cfg.akas[rt->aka].a, n.a, n.rafName, n.rafPw, b + "---\rGenerated by CrashMail\r"); }
  remote.clear();
}
void AfixWorld::removeMessages(int ai) {
  auto a = w.cfg.areas[ai]; for (auto &l : a.links) { auto &n = w.cfg.nodes[l.node]; Addr me = w.cfg.akas[a.aka].a;
    if (n.flags & N_SENDAREAFIX) autoMail(me, n.a, n.rafName, n.rafPw, "-" + a.tag + "\r---\rGenerated by CrashMail\r");
    if ((n.flags & N_SENDTEXT) && !(l.flags & L_FEED)) autoMail(me, n.a, n.sysop, "Area removed", "The area \"" + a.tag + "\" has been removed by the uplink.\r" + ((n.flags & N_SENDAREAFIX) ? "A message has been sent to your AreaFix.\r" : "")); }
}
void AfixWorld::removeArea(int ai) { removeMessages(ai); m.removeArea(ai); }
void AfixWorld::sendList(int type, int ni, const str &to, const Addr &from) {
  auto &g = w.cfg; auto &n = g.nodes[ni]; Reply r = init(from, to, n.a, "AreaFix list of areas"); line(r, str("This is a list of all ") + (type == 'Q' ? "connected" : type == 'U' ? "unlinked" : "available") + " areas at " + from.s4() + ":"); line(r, "");
  struct E { str tag, desc; char group; bool att, feed; }; std::vector<E> v;
  for (auto &a : g.areas) if (a.kind == K_ECHO) { const LinkC *l = nullptr; for (auto &x : a.links) if (x.node == ni) { l = &x; break; } bool acc = inGr(a.group, n.groups) || inGr(a.group, n.rogroups); if (type == 'Q' ? l != nullptr : type == 'U' ? !l && acc : l || acc) v.push_back({a.tag, a.desc, a.group, l != nullptr, l && (l->flags & L_FEED)}); }
  if (g.has("INCLUDEFORWARD") && type != 'Q' && (n.flags & N_FORWARDREQ)) for (auto &L : lists) if (L.fwd && inGr(L.group, n.groups)) for (auto &x : L.areas) { bool have = false; for (auto &a : g.areas) have |= ieq(a.tag, x.first); for (auto &e : v) have |= ieq(e.tag, x.first); if (!have) v.push_back({x.first, L.desc ? x.second : "", L.group, false, false}); }
  std::stable_sort(v.begin(), v.end(), [](const E &a, const E &b) { if (a.group != b.group) return a.group < b.group; return lower(a.tag) < lower(b.tag); });
  bool first = true; char last = 0; int total = 0, linked = 0;
  for (auto &e : v) {
    if (first || last != e.group) { if (!first) line(r, ""); line(r, " Group: " + (e.group ? groupNames[e.group] : "<No group>")); line(r, ""); line(r, " Tagname                       Description                         KB/week"); line(r, " ----------------------------  ---------------------------------   -------"); } first = false; last = e.group;
    char ast = ' '; if (type == 'F' && e.att) { ast = '*'; linked++; } if (e.feed) ast = '%'; total++;
    if (e.tag.size() <= 28) line(r, sfmt("%c%-28.28s  %-33.33s  %8.8s", ast, e.tag.c_str(), e.desc.c_str(), "?")); else { line(r, sfmt("%c%-70.70s", ast, e.tag.c_str())); line(r, sfmt(" %-28.28s  %-33.33s  %8.8s", "", e.desc.c_str(), "?")); }
  }
  if (type == 'Q') { line(r, sfmt("\r%d linked areas.", total)); line(r, "A '%' means that you are the feed for the area."); } else if (type == 'U') line(r, sfmt("\r%d unlinked areas.", total)); else { line(r, sfmt("\rTotally %d areas, you are connected to %d of them.", total, linked)); line(r, "A '*' means that you are connected to the area."); line(r, "A '%' means that you are the feed for the area."); }
  send(r);
}
void AfixWorld::sendHelp(int ni, const str &to, const Addr &from) { Reply r = init(from, to, w.cfg.nodes[ni].a, "AreaFix help"); if (!help) line(r, "*** Error *** : Couldn't open help file"); else for (auto &l : helpLines) line(r, l); send(r); }
void AfixWorld::sendInfo(int ni, const str &to, const Addr &from) {
  auto &n = w.cfg.nodes[ni]; Reply r = init(from, to, n.a, "AreaFix configuration info"); line(r, "Configuration for " + n.a.s4() + ":"); line(r, ""); line(r, "           Sysop: " + n.sysop); line(r, "Packet  password: " + pw8(n.pw)); line(r, "Areafix password: " + n.afpw); line(r, str("          Packer: ") + (n.packer ? n.packerIdx ? "OTHER" : "SIM" : "No packer")); line(r, "");
  if (n.flags & N_PASSIVE) line(r, " * You are passive and will not receive any echomail messages"); if (n.flags & N_TINYSEENBY) line(r, " * You receive messages with tiny SEEN-BY lines"); if (n.flags & N_NOSEENBY) line(r, " * You receive messages without SEEN-BY lines"); if (n.flags & N_FORWARDREQ) line(r, " * You may do forward-requests"); if (n.flags & N_NOTIFY) line(r, " * You will receive notifications"); if (n.flags & N_PACKNETMAIL) line(r, " * Netmail to you will be packed"); if (n.flags & N_AUTOADD) line(r, " * New areas from you will be auto-added");
  line(r, ""); line(r, "You have full access to these groups:"); line(r, ""); for (char ch = 'A'; ch <= 'Z'; ch++) if (inGr(ch, n.groups) && !inGr(ch, n.rogroups)) line(r, groupNames[ch].empty() ? str(1, ch) : str(1, ch) + ": " + groupNames[ch]);
  line(r, ""); line(r, "You have read-only access to these groups:"); line(r, ""); for (char ch = 'A'; ch <= 'Z'; ch++) if (inGr(ch, n.rogroups)) line(r, str(1, ch) + ": " + groupNames[ch]); send(r);
}
void AfixWorld::command(int type, int ni) { auto &n = w.cfg.nodes[ni]; const RouteC *rt = nullptr; for (auto &r : w.cfg.routes) if (patMatch(r.pat, n.a)) { rt = &r; break; } if (!rt) return; Addr me = w.cfg.akas[rt->aka].a; if (type == 'H') sendHelp(ni, n.sysop, me); else if (type == 'I') sendInfo(ni, n.sysop, me); else sendList(type, ni, n.sysop, me); }
const ListC *AfixWorld::findForward(const str &tag, const str &groups) { for (auto &l : lists) if (l.fwd && inGr(l.group, groups)) for (auto &a : l.areas) if (ieq(a.first, tag)) return &l; return nullptr; }
void AfixWorld::hook() {
  m.areafix = [this](MM &mm) { areafix(mm); };
  m.descHook = [this](const str &tag, int node, str &desc) { if (node < 0) return false; for (auto &l : lists) if (l.node == node && l.desc) for (auto &a : l.areas) if (ieq(a.first, tag) && !a.second.empty()) { desc = a.second.substr(0, 77); return true; } return false; };
}
static bool afMatch(const str &p, const str &s) { size_t i = 0; for (; i < p.size(); i++) { if (p[i] == '*') return true; if (i >= s.size()) return false; if (p[i] != '?' && tolower(p[i]) != tolower(s[i])) return false; } return i == s.size(); }
static str trim(str s, bool lead = true) { while (!s.empty() && (u8)s.back() <= 32) s.pop_back(); if (lead) { size_t i = 0; while (i < s.size() && s[i] == 32) i++; s = s.substr(i); } return s; }
void AfixWorld::areafix(MM &mm) {
  auto &g = w.cfg; const RouteC *rt = nullptr; for (auto &r : g.routes) if (patMatch(r.pat, mm.orig)) { rt = &r; break; } if (!rt) return; Addr me = g.akas[rt->aka].a; Reply r = init(me, mm.from, mm.orig, "AreaFix response"); c.nontrivial = true;
  int ni = g.findNode(mm.orig); if (ni < 0) { line(r, "Sorry, your node is not configured here."); send(r); return; }
  auto &n = g.nodes[ni]; size_t p = 0; bool ok; str pw = jbWord(mm.subj, p, 100, ok); if (!ieq(pw, n.afpw)) { line(r, "Sorry, wrong password."); send(r); return; }
  bool list = false, query = false, unl = false, hlp = false, info = false, done = false, global = false, stop = false; str w2 = jbWord(mm.subj, p, 100, ok);
  if (ok && (ieq(w2, "-q") || ieq(w2, "-l"))) { done = list = true; cmd(r, w2, "Sending list of all areas"); }
  auto touchN = [&] { m.touchedNodes.insert(ni); m.cfgChanged = true; };
  for (auto raw : splitLines(mm.text, '\r')) {
    if (stop) break; for (auto b : splitLines(raw, '\n')) {
    while (!b.empty() && (b.back() == '\r' || b.back() == '\n')) b.pop_back(); if (stop) break; b = b.substr(0, 99); if (startsWith(b, "---")) stop = true; b = trim(b); if (b.empty() || b[0] == 1) continue; c.note("      request: " + b);
    if (b[0] == '%') {
      size_t q = 0; bool o2; str k = upper(jbWord(b, q, 100, ok));
      if (k == "%PAUSE") { if (n.flags & N_PASSIVE) cmd(r, b, "Your system is already passive"); else { n.flags |= N_PASSIVE; touchN(); done = true; cmd(r, b, "Your system is marked as passive"); cmd(r, "", "Send %RESUME to get echomail again"); } }
      else if (k == "%RESUME") { if (n.flags & N_PASSIVE) { n.flags &= ~N_PASSIVE; touchN(); done = true; cmd(r, b, "Your system is active again"); } else cmd(r, b, "Your system is not paused"); }
      else if (k == "%PWD") { str x = jbWord(b, q, 40, o2); if (o2) { n.afpw = x; touchN(); done = true; cmd(r, b, "AreaFix password changed"); } else cmd(r, b, "No new password specified"); }
      else if (k == "%RESCAN") { if (g.has("ALLOWRESCAN")) { cmd(r, b, "Will rescan all areas added after this line"); global = true; } else cmd(r, b, "No rescanning allowed"); }
      else if (k == "%COMPRESS") { str x = jbWord(b, q, 40, o2); if (o2) { bool got = false; if (x.empty() || x[0] != '?') { if (ieq(x, "NONE")) { n.packer = false; got = true; } else if (ieq(x, "SIM") || ieq(x, "OTHER")) { n.packer = true; n.packerIdx = ieq(x, "OTHER"); got = true; } else cmd(r, b, "Unknown packer. Choose from this list:"); } else cmd(r, b, "Sending list of packers:"); if (got) { touchN(); cmd(r, b, "Packed changed"); } else { cmd(r, "", "SIM"); cmd(r, "", "OTHER"); cmd(r, "", "NONE"); } done = true; } else cmd(r, b, "No new method specified"); }
      else if (k == "%LIST") { list = done = true; cmd(r, b, "Sending list of all areas"); } else if (k == "%QUERY") { query = done = true; cmd(r, b, "Sending query"); } else if (k == "%UNLINKED") { unl = done = true; cmd(r, b, "Sending list of all unlinkedareas"); } else if (k == "%HELP") { hlp = done = true; cmd(r, b, "Sending help file"); } else if (k == "%INFO") { info = done = true; cmd(r, b, "Sending configuration info"); } else { done = true; cmd(r, b, "Unknown command"); }
      continue;
    }
    done = true; str name = b, opt; size_t comma = name.rfind(','); if (comma != str::npos) { opt = name.substr(comma + 1); name = name.substr(0, comma); while (!opt.empty() && opt[0] == ' ') opt = opt.substr(1); } name = trim(name, false); opt = trim(opt, false);
    char co = '+'; if (name[0] == '-') { co = '-'; name = name.substr(1); } else if (name[0] == '=') { co = '='; name = name.substr(1); } else if (name[0] == '+') name = name.substr(1); name = name.substr(0, 79);
    bool wild = name.find_first_of("*?") != str::npos, pdone = false, exists = false; int resc = -1; if (wild) { line(r, b); line(r, ""); }
    std::vector<int> ord; for (size_t i = 0; i < g.areas.size(); i++) ord.push_back(i); std::stable_sort(ord.begin(), ord.end(), [&](int x, int y) { return g.areas[x].pos < g.areas[y].pos; });
    for (size_t ai : ord) {
      if (g.areas[ai].kind != K_ECHO || !afMatch(name, g.areas[ai].tag)) continue; exists = true; auto &a = g.areas[ai]; int li = -1; for (size_t i = 0; i < a.links.size(); i++) if (a.links[i].node == ni) { li = i; break; }
      auto say = [&](const str &wildText, const str &plain) { if (wild) line(r, "   " + wildText + " " + a.tag); else cmd(r, b, plain); };
      if (co == '+') {
        if (li >= 0) { pdone = true; say("You are already attached to", "You are already attached to that area"); continue; }
        if (!inGr(a.group, n.groups) && !inGr(a.group, n.rogroups)) { if (!wild) cmd(r, b, "You don't have access to that area"); continue; }
        pdone = true; bool ban = false; for (int x : a.banned) ban |= x == ni; if (ban) { say("You have been banned from", "You have been banned from that area"); continue; }
        bool ro = (a.flags & F_DEFRO) || inGr(a.group, n.rogroups); if (wild) line(r, "   Attached to " + a.tag + (ro ? " as read-only" : "")); else cmd(r, b, ro ? "Attached as read-only" : "Attached");
        a.links.push_back({ni, ro ? (unsigned)L_RO : 0u}); m.touchedAreas.insert(ai); m.cfgChanged = true; resc = ai;
      } else if (co == '-') {
        if (li < 0) { if (!wild) { cmd(r, b, "You are not attached to that area"); pdone = true; } continue; }
        pdone = true; bool feed = a.links[li].flags & L_FEED; if ((a.flags & F_MANDATORY) && !feed) { say("You are not allowed to detach from", "You are not allowed to detach from that area"); continue; }
        say("Detached from", "Detached"); a.links.erase(a.links.begin() + li); m.touchedAreas.insert(ai); m.cfgChanged = true;
        if (feed && g.has("REMOVEWHENFEED")) { removeMessages(ai); m.removeArea(ai); }
        else if (g.has("AREAFIXREMOVE") && a.base == B_NONE && (a.links.empty() || (a.links.size() == 1 && (a.links[0].flags & L_FEED)))) { if (!a.links.empty()) addRemote(a.links[0].node, "-" + a.tag.substr(0, 78)); m.removeArea(ai); }
      } else if (li >= 0) { pdone = true; if (wild) line(r, "   Nothing to do with " + a.tag); else { cmd(r, b, "Will rescan area"); resc = ai; } }
    }
    if (co != '-' && !wild && pdone && resc >= 0) {
      bool dor = false; u32 num = 0; if (ieq(opt.substr(0, 2), "r=")) { num = atoi(opt.c_str() + 2); dor = true; } else if (!opt.empty()) line(r, sfmt("%-30.30s Unknown option %s", "", opt.c_str()));
      if (global || dor) { if (!g.has("ALLOWRESCAN")) line(r, sfmt("%-30.30s No rescanning allowed", "")); else if (g.areas[resc].base == B_NONE) line(r, sfmt("%-30.30s Can't rescan, area is pass-through", "")); else { int cnt = modelRescan(w, m, resc, ni, num); line(r, sfmt("%-30.30s Rescanned %u messages", "", cnt)); } }
    }
    if (co == '+' && !pdone) {
      if (wild) line(r, "   There were no matching areas to connect to");
      else { if (!exists && (n.flags & N_FORWARDREQ)) { const ListC *L = findForward(name, n.groups); if (L) { cmd(r, b, "Request sent to " + g.nodes[L->node].a.s4()); addRemote(L->node, ((g.nodes[L->node].flags & N_NEEDSPLUS) ? "+" : "") + name.substr(0, 78)); int ai = m.addArea(name, g.nodes[L->node].a, me, true, g.has("FORWARDPASSTHRU")); auto &a = g.areas[ai]; a.group = L->group; bool have = false; for (auto &l : a.links) have |= l.node == ni; if (!have) a.links.push_back({ni, inGr(a.group, n.rogroups) ? (unsigned)L_RO : 0u}); exists = true; } } if (!exists) cmd(r, b, "Unknown area"); }
    } else if (co == '-' && !pdone) { if (wild) line(r, "   There were no matching areas to detach from"); else cmd(r, b, "Unknown area"); }
    else if (co == '=') { if (!pdone) { if (wild) line(r, "   There were no matching areas"); else cmd(r, b, "You are not attached to this area"); } else if (resc >= 0 && !global && opt.empty()) cmd(r, b, "Nothing to do"); }
    if (wild) line(r, "");
  } }
  if (!done) line(r, "Nothing to do."); send(r);
  if (list) sendList('F', ni, mm.from, me); if (query) sendList('Q', ni, mm.from, me); if (unl) sendList('U', ni, mm.from, me); if (hlp) sendHelp(ni, mm.from, me); if (info) sendInfo(ni, mm.from, me); sendRemote();
}
PMsg AfixWorld::request(int ni, Addr &from) {
  auto &d = c.d; auto &g = w.cfg; SPAN(d, "request"); PMsg pm; str uid = w.newUid(); Addr o = ni >= 0 ? g.nodes[ni].a : w.anyAddr(); if (!o.z) o.z = 2; from = o; Addr de = g.akas[d.n(g.akas.size())].a;
  pm.date = fidoDate(c.sim.now()); pm.to = g.afNames[d.n(g.afNames.size())]; if (d.n(5) == 1) pm.to = upper(pm.to); pm.from = d.n(6) ? "John Doe" : str(35, 'N'); pm.attr = d.n(2) ? A_PVT : 0; pm.of = o.f; pm.on = o.n; pm.df = de.f; pm.dn = de.n;
  auto quoted = [&](const str &s) { str r = "\""; for (char ch : s) { if (ch == '"' || ch == '\\') r += '\\'; r += ch; } return r + "\""; };
  int kn = g.findNode(o); str pw = kn >= 0 ? g.nodes[kn].afpw : "none"; int pk = d.n(12); if (pk == 1) pw = "wrong"; else if (pk == 2) pw = ""; else if (pk == 3) pw = upper(pw); else if (pk == 4) pw += "x"; else if (pk == 5 && g.nodes.size() > 1) pw = g.nodes[d.n(g.nodes.size())].afpw;
  pm.subj = pw.find_first_of(" \"\\") != str::npos || (pw.empty() && d.n(2)) || d.n(6) == 1 ? quoted(pw) : pw; int sk = d.n(10); if (sk == 1) pm.subj += " -q"; else if (sk == 2) pm.subj += " -L"; else if (sk == 3) pm.subj += " junk"; if (g.has("IMPORTAREAFIX") || d.n(2)) pm.subj += " " + uid;
  pm.text = sfmt("\1INTL %d:%d/%d %d:%d/%d\r", de.z, de.n, de.f, o.z, o.n, o.f); if (o.p) pm.text += sfmt("\1FMPT %d\r", o.p); if (de.p) pm.text += sfmt("\1TOPT %d\r", de.p); pm.text += "\1PID: " + uid + "\r";
  int nl = 1 + d.small(8); if (d.n(12) == 1) nl = 0; static const char *PC[] = {"%PAUSE", "%resume", "%PWD newpw", "%PWD \"new \\\"pw\"", "%PWD", "%RESCAN", "%COMPRESS NONE", "%COMPRESS ?", "%COMPRESS sim", "%COMPRESS other", "%COMPRESS zip", "%COMPRESS", "%LIST", "%QUERY", "%UNLINKED", "%HELP", "%INFO", "%BOGUS command that is longer than thirty characters"};
  for (int i = 0; i < nl; i++) {
    int k = d.n(10); str l;
    if (k < 7) {
      std::vector<str> tags; for (auto &a : g.areas) if (a.kind != K_DELETED) tags.push_back(a.tag); for (auto &L : lists) for (auto &a : L.areas) tags.push_back(a.first); tags.push_back("NO.SUCH.AREA"); tags.push_back("NEW_3_X");
      str t = tags[d.n(tags.size())]; if (d.n(5) == 1) t = lower(t); int wk = d.n(7); if (wk == 1) t = "*"; else if (wk == 2) t = t.substr(0, 1) + "*"; else if (wk == 3 && t.size() > 1) { t[d.n(t.size())] = '?'; } static const char *CO[] = {"", "+", "-", "=", "-", "+"}; l = CO[d.n(6)] + t; if (!rescans && l[0] == '=') l[0] = '+';
      int ok = d.n(8); if (ok == 1) { l += ","; if (rescans) l += d.n(2) ? " R=" : "r="; else l += " X="; l += sfmt("%u", d.n(5)); } else if (ok == 2) l += ", bogus"; if (d.n(10) == 1) l = "  " + l; if (d.n(10) == 1) l += "  ";
    } else if (k < 9) { l = PC[d.n(18)]; if (!rescans && l == "%RESCAN") l = "%LIST"; } else { int q = d.n(4); l = q == 0 ? "" : q == 1 ? "---" : q == 2 ? "hello, please add this area" : str(60 + d.n(90), 'x'); }
    pm.text += l + "\r"; if (d.n(20) == 1) pm.text += "\n";
  }
  if (d.n(3)) pm.text += "--- tearline\r-*\r * Origin: x (2:1/1)\r"; return pm;
}
