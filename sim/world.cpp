#include "world.hpp"
#include <cstring>

// ------------------------------------------------------------------ configuration text
static str q(const str &s) { str r = "\""; for (char ch : s) { if (ch == '"' || ch == '\\') r += '\\'; r += ch; } return r + "\""; }
str renderArea(const Cfg &c, const AreaC &a) {
  str t; const char *kw = a.kind == K_NETMAIL ? "NETMAIL" : a.kind == K_LOCAL ? "LOCALAREA" : "AREA";
  t += sfmt("%s %s %s", kw, q(a.tag).c_str(), c.akas[a.aka].a.s4().c_str());
  if (a.base == B_MSG) t += " MSG " + q(a.path); else if (a.base == B_JAM) t += " JAM " + q(a.path);
  t += "\n";
  if (a.kind == K_NETMAIL) { for (auto &i : a.imports) t += "IMPORT " + i.s4() + "\n"; }
  else {
    str line; int prev = -1;
    for (size_t i = 0; i < a.links.size(); i++) {
      auto &l = a.links[i]; str w; if (l.flags & L_RO) w = "!"; else if (l.flags & L_WO) w = "@"; if (l.flags & L_FEED) w = "%" + w;
      const Addr &n = c.nodes[l.node].a;
      if (prev >= 0 && !line.empty() && c.nodes[prev].a.z == n.z && c.nodes[prev].a.n == n.n && (i % 2)) w += n.p ? sfmt("%d.%d", n.f, n.p) : sfmt("%d", n.f);
      else w += n.s4();
      if (line.empty()) line = "EXPORT"; line += " " + w; prev = l.node;
      if (line.size() > 60) { t += line + "\n"; line.clear(); prev = -1; }
    }
    if (!line.empty()) t += line + "\n";
  }
  if (a.flags & F_UNCONFIRMED) t += "UNCONFIRMED\n";
  if (a.flags & F_MANDATORY) t += "MANDATORY\n";
  if (a.flags & F_DEFRO) t += "DEFREADONLY\n";
  if (a.flags & F_IGNOREDUPES) t += "IGNOREDUPES\n";
  if (a.flags & F_IGNORESEENBY) t += "IGNORESEENBY\n";
  for (int b : a.banned) t += "BANNED " + c.nodes[b].a.s4() + "\n";
  if (!a.desc.empty()) t += "DESCRIPTION " + q(a.desc) + "\n";
  if (a.group) t += sfmt("GROUP %c\n", a.group);
  if (a.keepNum) t += sfmt("KEEPNUM %d\n", a.keepNum);
  if (a.keepDays) t += sfmt("KEEPDAYS %d\n", a.keepDays);
  return t;
}
str Cfg::text() const {
  str t; if (comments) t += "; configuration of the simulated system\n\n";
  t += "SYSOP " + q(sysop) + "\nLOGFILE \"crashmail.log\"\n" + sfmt("LOGLEVEL %d\n", logLevel);
  if (dupeSize) t += sfmt("DUPEFILE \"dupes\" %d\nDUPEMODE %s\n", dupeSize, dupeMode.c_str()); else t += "DUPEFILE \"dupes\" 100\nDUPEMODE IGNORE\n";
  t += "LOOPMODE " + loopMode + "\n" + sfmt("DEFAULTZONE %d\n", defZone);
  if (nodelist) t += "NODELIST nodelist CMNL\n";
  t += "INBOUND /bbs/in\nOUTBOUND /bbs/out\nTEMPDIR /bbs/temp\nCREATEPKTDIR /bbs/create\nPACKETDIR /bbs/packets\n";
  if (hasStats) t += "STATSFILE " + q(stats) + "\n";
  if (maxPkt) t += sfmt("MAXPKTSIZE %d\n", maxPkt); if (maxBundle) t += sfmt("MAXBUNDLESIZE %d\n", maxBundle);
  t += "PACKER \"SIM\" \"simzip %a %f\" \"simunzip %a\" \"SIMZ\"\nPACKER \"OTHER\" \"simzip %a %f\" \"simunzip %a\" \"$ff$fe\"\n";
  for (auto &s : sw) t += s + "\n";
  for (auto &s : afNames) t += "AREAFIXNAME " + q(s) + "\n";
  for (auto &a : akas) { t += "AKA " + a.a.s4() + "\n"; if (!a.domain.empty()) t += "DOMAIN " + q(a.domain) + "\n"; if (!a.add.empty()) { t += "ADDNODE"; for (auto &x : a.add) t += sfmt(" %d/%d", x.first, x.second); t += "\n"; } if (!a.rem.empty()) { t += "REMNODE"; for (auto &x : a.rem) t += " " + q(x); t += "\n"; } }
  if (comments) t += "\n; nodes\n";
  for (auto &n : nodes) {
    t += "NODE " + n.a.s4() + " " + (n.packer ? (n.packerIdx ? "\"OTHER\"" : "\"SIM\"") : "\"\"") + " " + q(n.pw);
    static const std::pair<unsigned, const char *> FL[] = {{N_PASSIVE, "PASSIVE"}, {N_NOSEENBY, "NOSEENBY"}, {N_TINYSEENBY, "TINYSEENBY"}, {N_PACKNETMAIL, "PACKNETMAIL"}, {N_AUTOADD, "AUTOADD"}, {N_NONETMAILPW, "NONETMAILPASSWORD"}, {N_NOTIFY, "NOTIFY"}, {N_FORWARDREQ, "FORWARDREQ"}, {N_SENDAREAFIX, "SENDAREAFIX"}, {N_SENDTEXT, "SENDTEXT"}};
    for (auto &f : FL) if (n.flags & f.first) t += str(" ") + f.second;
    t += n.pri == 'C' ? " CRASH" : n.pri == 'D' ? " DIRECT" : n.pri == 'H' ? " HOLD" : ""; t += "\n";
    if (n.hasPktFrom) t += "PKTFROM " + n.pktFrom.s4() + "\n";
    if (!n.afpw.empty() || !n.groups.empty() || !n.rogroups.empty() || !n.addgroups.empty()) t += "AREAFIXINFO " + q(n.afpw) + " " + q(n.groups) + " " + q(n.rogroups) + " " + q(n.addgroups) + "\n";
    if (n.defgroup) t += sfmt("DEFAULTGROUP %c\n", n.defgroup);
    if (!n.sysop.empty()) t += "REMOTESYSOP " + q(n.sysop) + "\n";
    if (!n.rafName.empty()) t += "REMOTEAF " + q(n.rafName) + " " + q(n.rafPw) + (n.flags & N_NEEDSPLUS ? " NEEDSPLUS" : "") + "\n";
  }
  for (auto &r : routes) t += "ROUTE " + q(r.pat) + " " + q(r.dest) + " " + akas[r.aka].a.s4() + "\n";
  for (auto &r : changes) t += "CHANGE " + r.types + " " + q(r.pat) + " " + r.to + "\n";
  for (auto &b : bounces) t += "BOUNCE " + q(b) + "\n";
  for (auto &b : fileattach) t += "FILEATTACH " + q(b) + "\n";
  for (auto &b : arealists) t += b + "\n";
  t += extra;
  if (comments) t += "\n; areas follow\n\n";
  for (auto &a : areas) if (a.kind != K_DELETED) { t += renderArea(*this, a); if (comments) t += "\n"; }
  t += filters;
  return t;
}
// ------------------------------------------------------------------ patterns
static bool compMatch(const str &pat, int num) {
  str b = sfmt("%d", num); if (pat.empty()) return true; size_t c = 0;
  for (; c < pat.size(); c++) { if (pat[c] == '*') return true; char x = c < b.size() ? b[c] : 0; if (pat[c] != x && pat[c] != '?') return false; if (x == 0) return false; }
  return c == b.size();
}
static void splitPat(const str &p, str &z, str &n, str &f, str &pt) {
  z = n = f = pt = "*"; if (p == "*") return; str t; bool gz = false, gn = false, gf = false;
  for (char ch : p) { if (ch == ':') { z = t; gz = true; t.clear(); } else if (ch == '/') { n = t; gn = true; t.clear(); } else if (ch == '.') { f = t; pt = ""; gf = true; t.clear(); } else t += ch; }
  if (gz && !gn) n = t; else if (gf) pt = t; else { f = t; pt = "0"; }
}
const Cfg *gNl = nullptr;
static bool nlGet(const Addr &a, int &region, int &hub) { if (!gNl || !gNl->nodelist) return false; auto it = gNl->nl.find({a.z, a.n, a.f, 0}); if (it == gNl->nl.end()) return false; region = it->second.first; hub = it->second.second; return true; }
bool patMatch(const str &pat, const Addr &a) {
  str z, n, f, p;
  auto zone = [&] { return a.z == 0 || compMatch(z, a.z); };
  if (startsWith(pat, "ZONE ")) return compMatch(pat.substr(5), a.z);
  if (startsWith(pat, "NET ")) { splitPat(pat.substr(4), z, n, f, p); return zone() && compMatch(n, a.n); }
  int rg, hb; if (startsWith(pat, "REGION ")) { splitPat(pat.substr(7), z, n, f, p); return nlGet(a, rg, hb) && zone() && compMatch(n, rg); }
  if (startsWith(pat, "HUB ")) { splitPat(pat.substr(4), z, n, f, p); return nlGet(a, rg, hb) && zone() && compMatch(n, a.n) && compMatch(f, hb); }
  if (startsWith(pat, "NODE ")) { splitPat(pat.substr(5), z, n, f, p); return zone() && compMatch(n, a.n) && compMatch(f, a.f); }
  splitPat(pat, z, n, f, p); return zone() && compMatch(n, a.n) && compMatch(f, a.f) && compMatch(p, a.p);
}
static bool isWild(const str &s) { return s.find_first_of("*?") != str::npos; }
Addr patExpand(const str &pat, const Addr &a) {
  if (pat == "ZONE") return {a.z, a.z, 0, 0}; if (pat == "NET") return {a.z, a.n, 0, 0}; if (pat == "NODE") return {a.z, a.n, a.f, 0};
  int rg = 0, hb = 0; if (pat == "REGION") { nlGet(a, rg, hb); return {a.z, rg ? rg : a.n, 0, 0}; } if (pat == "HUB") { nlGet(a, rg, hb); return {a.z, a.n, hb, 0}; }
  str z, n, f, p; splitPat(pat, z, n, f, p); Addr r;
  r.z = isWild(z) ? a.z : atoi(z.c_str()); r.n = isWild(n) ? a.n : atoi(n.c_str()); r.f = isWild(f) ? a.f : atoi(f.c_str()); r.p = isWild(p) ? a.p : atoi(p.c_str()); return r;
}
static bool pat2D(const str &pat, int net, int node) {
  if (pat == "*") return true; size_t s = pat.find('/'); if (s == str::npos) return compMatch(pat, node); return compMatch(pat.substr(0, s), net) && compMatch(pat.substr(s + 1), node);
}
bool wildMatch(const str &p, const str &s) {
  if (p.empty()) return s.empty(); if (p[0] == '*') { for (size_t i = 0; i <= s.size(); i++) if (wildMatch(p.substr(1), s.substr(i))) return true; return false; }
  if (s.empty()) return false; return (p[0] == '?' || tolower(p[0]) == tolower(s[0])) && wildMatch(p.substr(1), s.substr(1));
}
// ------------------------------------------------------------------ message parsing in the model
str uidOf(const str &t) { size_t p = t.find("UID"); while (p != str::npos) { if (p + 8 <= t.size()) { bool ok = true; for (int i = 3; i < 8; i++) ok &= isdigit((u8)t[p + i]) != 0; if (ok) return t.substr(p, 8); } p = t.find("UID", p + 1); } return ""; }
str keyOf(const str &subj, const str &text) { if (startsWith(subj, "AreaFix ") || subj == "Area removed" || startsWith(subj, "RAF")) return subj; if (subj == "Bounced message" || subj == "Receipt" || subj == "Audit") { str u = uidOf(text); return u.empty() ? subj : u + "/" + subj; } str u = uidOf(subj); return u.empty() ? uidOf(text) : u; }
static str stripTrail(str s) { while (!s.empty() && (u8)s.back() <= 32) s.pop_back(); return s; }
static str stripBoth(str s) { s = stripTrail(s); size_t i = 0; while (i < s.size() && (u8)s[i] <= 32) i++; return s.substr(i); }
static int pint(const char *s) { return atoi(s); }
void mmLine(MM &m, const str &l) {
  bool e = !m.area.empty();
  if (e && startsWith(l, "SEEN-BY:")) {
    int lastnet = 0; for (auto &w : words(l.size() > 9 ? stripTrail(l.substr(9)) : "")) { size_t i = 0; long num = 0; while (i < w.size() && isdigit((u8)w[i])) num = num * 10 + (w[i++] - '0'); std::pair<int, int> x; if (i < w.size() && w[i] == '/') { lastnet = num & 0xffff; x = {lastnet, atoi(w.c_str() + i + 1) & 0xffff}; } else if (i == w.size()) x = {lastnet, (int)(num & 0xffff)}; else continue; bool have = false; for (auto &y : m.sb) have |= y == x; if (!have) m.sb.push_back(x); }
    return;
  }
  if (e && startsWith(l, "\1PATH:")) { str p = l.size() > 7 ? l.substr(7, 99) : ""; if (!p.empty()) m.path.push_back(stripTrail(p)); return; }
  if (e && startsWith(l, " * Origin: ")) { size_t p = l.rfind('('); if (p != str::npos) { size_t b = l.find_first_of("0123456789", p), en = l.find(')', p); if (b != str::npos && en != str::npos && b < en) { Addr a; str s = l.substr(b, en - b); size_t at = s.find('@'); if (at != str::npos) s = s.substr(0, at); if (parseAddr(s, a)) { if (!a.z) a.z = m.porig.z; m.origin = a; } } } }
  else if (!l.empty() && l[0] == 1) {
    auto val = [&](size_t from, size_t max) { str v = l.size() > from ? l.substr(from) : ""; size_t c = v.find('\r'); if (c != str::npos) v = v.substr(0, c); return v.substr(0, max); };
    if (startsWith(l, "\1RESCANNED")) m.rescanned = true;
    if (startsWith(l, "\1MSGID:")) m.msgid = val(8, 79);
    if (startsWith(l, "\1REPLY:")) m.reply = val(8, 79);
    if (!e) {
      if (startsWith(l, "\1FMPT")) m.orig.p = pint(val(6, 20).c_str());
      if (startsWith(l, "\1TOPT")) m.dest.p = pint(val(6, 20).c_str());
      if (startsWith(l, "\1INTL")) { auto w = words(val(l[5] == ':' ? 7 : 6, 200)); Addr a; if (w.size() > 0 && parseAddr(w[0], a)) { m.dest.z = a.z; m.dest.n = a.n; m.dest.f = a.f; } if (w.size() > 1 && parseAddr(w[1], a)) { m.orig.z = a.z; m.orig.n = a.n; m.orig.f = a.f; } }
    }
  }
  m.text += l;
}
void mmText(MM &m, const str &t, bool first) {
  size_t i = 0;
  while (i < t.size()) {
    size_t j = i; str l; while (j < t.size() && t[j] != '\r' && t[j] != '\n' && l.size() < 198) l += t[j++];
    if (l.size() < 198 && j < t.size() && (t[j] == '\r' || t[j] == '\n')) l += t[j++];
    if (first && startsWith(l, "AREA:")) m.area = stripBoth(l.substr(5, 79)); else mmLine(m, l);
    first = false; i = j;
  }
}
MM toMM(const Pkt &p, const PMsg &pm, const Cfg &c, bool nosec) {
  MM m; m.porig = p.orig; m.pdest = p.dest;
  if (!m.porig.z) { int i = c.findNode(m.porig); if (i >= 0) m.porig.z = c.nodes[i].a.z; } if (!m.pdest.z) for (auto &k : c.akas) if (k.a.same(m.pdest)) { m.pdest.z = k.a.z; break; }
  if (!m.porig.z) m.porig.z = c.defZone; if (!m.pdest.z) m.pdest.z = c.defZone;
  m.orig = {m.porig.z, pm.on, pm.of, 0}; m.dest = {m.pdest.z, pm.dn, pm.df, 0}; m.attr = pm.attr; m.cost = pm.cost; m.date = pm.date; m.to = pm.to; m.from = pm.from; m.subj = pm.subj; m.nosec = nosec; m.tossed = true; m.uid = uidOf(pm.subj); if (m.uid.empty()) m.uid = uidOf(pm.text);
  mmText(m, pm.text, true); return m;
}
std::vector<std::pair<int, int>> sbSet(std::vector<std::pair<int, int>> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); v.erase(std::remove(v.begin(), v.end(), std::make_pair(0, 0)), v.end()); return v; }
std::vector<Addr> pathAddrs(const std::vector<str> &lines) { bool ok; return parsePath(lines, ok); }
void pathAppend(std::vector<str> &path, const Addr &a) {
  bool ok = true; std::vector<Addr> v; if (!path.empty()) v = parsePath({path.back()}, ok);
  if (ok && !v.empty() && v.back().n == a.n && v.back().f == a.f && v.back().p == a.p) return;
  str full = sfmt("%d/%d", a.n, a.f), pt = a.p ? sfmt(".%d", a.p) : "";
  str tok = (ok && !v.empty() && v.back().n == a.n ? sfmt("%d", a.f) : full) + pt;
  if (!path.empty() && path.back().size() + tok.size() <= 70) path.back() += " " + tok; else path.push_back(full + pt);
}
str pw8(const str &s) { return s.substr(0, 8); }
// ------------------------------------------------------------------ model
int Model::addArea(const str &tag, const Addr &from, const Addr &my, bool active, bool passthru) {
  AreaC a; a.tag = tag; a.isNew = true; int cn = c.findNode(from); a.aka = 0; for (size_t i = 0; i < c.akas.size(); i++) if (c.akas[i].a.same(my)) { a.aka = i; break; }
  auto match = [](char g, const str &s) { return g && s.find(g) != str::npos; };
  int def = -1; if (cn >= 0 && c.nodes[cn].defgroup) for (size_t i = 0; i < c.areas.size(); i++) if (startsWith(upper(c.areas[i].tag), "DEFAULT_") && match(c.nodes[cn].defgroup, c.areas[i].tag.substr(8))) { def = i; break; }
  if (def < 0) for (size_t i = 0; i < c.areas.size(); i++) if (ieq(c.areas[i].tag, "DEFAULT")) { def = i; break; }
  auto link = [&](int n, unsigned f) { for (auto &l : a.links) if (l.node == n) return; a.links.push_back({n, f}); };
  if (def >= 0) {
    auto &d = c.areas[def]; str nm; for (char ch : tag) nm += (u8)ch < 33 || (u8)ch > 126 || strchr("\"#'`()*,./:;<>|", ch) ? '_' : ch; a.base = passthru ? B_NONE : d.base; a.desc = d.desc; a.keepNum = d.keepNum; a.keepDays = d.keepDays; a.flags = d.flags & (F_MANDATORY | F_DEFRO | F_IGNOREDUPES | F_IGNORESEENBY);
    str p; for (size_t i = 0; i < d.path.size(); i++) if (d.path[i] == '%' && i + 1 < d.path.size() && (d.path[i + 1] | 32) == 'a') { p += nm; i++; } else if (d.path[i] == '%' && i + 1 < d.path.size() && (d.path[i + 1] | 32) == 'l') { p += lower(nm); i++; } else p += d.path[i]; a.path = p.substr(0, 79);
    for (auto &l : d.links) link(l.node, l.flags);
  }
  if (descHook) descHook(tag, cn, a.desc);
  if (!active) a.flags = F_UNCONFIRMED;
  if (cn >= 0) { a.group = c.nodes[cn].defgroup; link(cn, L_FEED); for (size_t i = 0; i < c.nodes.size(); i++) if (match(a.group, c.nodes[i].addgroups)) link(i, (a.flags & F_DEFRO) || match(a.group, c.nodes[i].rogroups) ? L_RO : 0); }
  if (a.base == B_NONE) a.path.clear();
  int ni = c.areas.size(); if (a.base != B_NONE) for (size_t i = 0; i < c.areas.size(); i++) { auto &x = c.areas[i]; if (x.base == B_NONE || x.kind == K_DEFAULT || !ieq(x.path, a.path)) continue; if (x.kind != K_DELETED) a.anyPath = true; }
  if (a.base != B_NONE && !a.anyPath) for (size_t i = 0; i < c.areas.size(); i++) { auto &x = c.areas[i]; if (x.kind == K_DELETED && x.base == a.base && x.path == a.path) { stored[ni] = stored[i]; stored.erase(i); x.base = B_NONE; } }   // the base of an area removed earlier is used again
  c.areas.push_back(a); as.push_back({}); cfgChanged = true; touchedAreas.insert(ni); return ni;
}
void Model::removeArea(int ai) { auto &a = c.areas[ai]; a.kind = K_DELETED; a.oldTag = a.tag; a.tag = "\1"; a.links.clear(); cfgChanged = true; touchedAreas.insert(ai); }
void Model::store(MM &m, int ai, const str &bad) {
  auto &a = c.areas[ai]; BMsg b; b.uid = m.uid; b.from = m.from; b.to = m.to; b.subj = m.subj; b.date = m.date; b.attr = m.attr; b.cost = m.cost; b.net = m.area.empty(); b.text = m.text; b.bad = bad; b.origin = m.origin; b.msgid = m.msgid; b.reply = m.reply; b.autogen = m.autogen;
  if (b.net) { b.orig = m.orig; b.dest = m.dest; }
  if (!b.net && c.has("IMPORTSEENBY")) b.sb = sbSet(m.sb); b.path = pathAddrs(m.path);
  if (!bad.empty()) {
    str pre; if (m.area.empty()) pre = "DEST:" + m.dest.s4() + "\rORIG:" + m.orig.s4() + "\r"; else pre = "AREA:" + m.area + "\r"; pre += "PKTORIG:" + m.porig.s4() + "\rPKTDEST:" + m.pdest.s4() + "\rERROR:" + bad + "\r"; b.text = pre + b.text;
  }
  if (a.base != B_NONE) stored[ai].push_back(b);
}
void Model::writeBad(MM &m, const str &reason) { int b = c.badArea(); if (b < 0) { lost++; return; } store(m, b, reason); as[b].newTexts++; }
bool Model::dupe(const MM &m) {
  if (m.msgid.empty()) return false; str k = m.msgid + '\0' + m.area;
  for (auto &d : dupes) if (d == k) return true; dupes.push_back(k); while ((int)dupes.size() > c.dupeSize) dupes.erase(dupes.begin()); return false;
}
void Model::sendEcho(MM &m, int ni, const Addr &aka) {
  auto &n = c.nodes[ni]; Addr from = n.hasPktFrom ? n.pktFrom : aka; QMsg x; x.dest = n.a; x.porig = from; x.pw = pw8(n.pw); x.type = 'E'; x.area = m.area; x.uid = m.uid; x.body = m.text; x.seq = seq++;
  x.m.of = from.f; x.m.on = from.n; x.m.df = n.a.f; x.m.dn = n.a.n; x.m.attr = m.attr; x.m.cost = m.cost; x.m.date = m.date; x.m.to = m.to; x.m.from = m.from; x.m.subj = m.subj;
  if (n.a.z != aka.z || (n.flags & N_TINYSEENBY)) { if (!n.a.p) x.sb.push_back({n.a.n, n.a.f}); if (!aka.p) x.sb.push_back({aka.n, aka.f}); x.sb = sbSet(x.sb); } else if (!(n.flags & N_NOSEENBY)) x.sb = sbSet(m.sb);
  x.path = pathAddrs(m.path); out.push_back(x); ns[ni].sentE++; ns[ni].sentEB += m.text.size();
}
void Model::echo(MM &m) {
  if (!m.text.empty() && m.text.back() != '\r') m.text += '\r';
  int cn = c.findNode(m.porig), ai = c.findArea(m.area);
  if (ai < 0) { bool act = cn >= 0 && (c.nodes[cn].flags & N_AUTOADD); ai = addArea(m.area, m.porig, m.pdest, act); autoAdded.insert(ai); }
  if (c.areas[ai].flags & F_UNCONFIRMED) return writeBad(m, "Unknown area (auto-added but not confirmed)");
  if (!m.exported && !m.nosec) {
    int li = -1; for (size_t i = 0; i < c.areas[ai].links.size(); i++) if (c.nodes[c.areas[ai].links[i].node].a.same(m.porig)) { li = i; break; }
    if (li < 0) return writeBad(m, "Node does not receive this area");
    if (c.areas[ai].links[li].flags & L_RO) return writeBad(m, "Node is not allowed to write in this area");
  }
  auto &a = c.areas[ai]; auto &ak = c.akas[a.aka]; const Addr aka = ak.a;
  if (aka.z != m.porig.z) m.sb.clear();
  std::set<int> seen; bool chk = c.has("CHECKSEENBY") && !(a.flags & F_IGNORESEENBY);
  auto in = [&](int net, int node) { for (auto &x : m.sb) if (x.first == net && x.second == node) return true; return false; };
  auto add = [&](int net, int node) { if (!in(net, node)) m.sb.push_back({net, node}); };
  if (chk) for (auto &l : a.links) { auto &n = c.nodes[l.node]; if (n.a.z == aka.z && n.a.p == 0 && in(n.a.n, n.a.f)) seen.insert(l.node); }
  for (auto &l : a.links) { auto &n = c.nodes[l.node]; if (n.a.p == 0 && n.a.z == aka.z && !(n.flags & N_PASSIVE) && !(l.flags & L_WO)) add(n.a.n, n.a.f); }
  for (auto &r : ak.rem) for (auto &x : m.sb) if (pat2D(r, x.first, x.second)) x = {0, 0};
  for (auto &x : ak.add) add(x.first, x.second);
  if (!aka.p) add(aka.n, aka.f);
  if (!aka.p || c.has("PATH3D")) pathAppend(m.path, aka);
  if (c.dupeSize && c.dupeMode != "IGNORE" && m.tossed && !(a.flags & F_IGNOREDUPES) && dupe(m)) { as[ai].newDupes++; if (cn >= 0) ns[cn].dupes++; if (c.dupeMode == "BAD") writeBad(m, "Duplicate message"); return; }
  if (filter) { filter(m); if (m.kill) return; }
  as[ai].newTexts++;
  if (!m.rescanned) for (size_t i = 0; i < c.areas[ai].links.size(); i++) { auto l = c.areas[ai].links[i]; auto &n = c.nodes[l.node]; if (n.a.same(m.porig) || (n.flags & N_PASSIVE) || (l.flags & L_WO) || (chk && seen.count(l.node))) continue; sendEcho(m, l.node, aka); }
  if (m.twit) return;
  if (!m.exported && c.areas[ai].base != B_NONE) { MM t = m; if (c.has("STRIPRE")) { for (;;) { str &s = t.subj; if (ieq(s.substr(0, 3), "Re:")) s = s.substr(3); else if (ieq(s.substr(0, 3), "Re^") && s.size() > 4 && s[4] == ':') s = s.substr(5); else if (ieq(s.substr(0, 3), "Re[") && s.size() > 5 && s[4] == ']' && s[5] == ':') s = s.substr(6); else break; if (!s.empty() && s[0] == ' ') s = s.substr(1); } } t.attr = (t.attr | A_SENT) & ~A_LOCAL; store(t, ai, ""); }
}
void Model::sendNet(MM &m, const Addr &dest, const Addr &aka) {
  QMsg x; int cn = c.findNode(dest); Addr from = aka; if (cn >= 0) { ns[cn].sentN++; ns[cn].sentNB += m.text.size(); if (m.autogen) ns[cn].autoN++; if ((c.nodes[cn].flags & N_PACKNETMAIL) && m.type == 'N') m.type = 'E'; if (c.nodes[cn].hasPktFrom) from = c.nodes[cn].pktFrom; if (m.type == 'E' || !(c.nodes[cn].flags & N_NONETMAILPW)) x.pw = pw8(c.nodes[cn].pw); }
  x.dest = dest; x.porig = from; x.type = m.type; x.uid = m.uid; x.body = m.text; x.seq = seq++;
  x.m.of = m.orig.f; x.m.on = m.orig.n; x.m.df = m.dest.f; x.m.dn = m.dest.n; x.m.attr = m.attr; x.m.cost = m.cost; x.m.date = m.date; x.m.to = m.to; x.m.from = m.from; x.m.subj = m.subj; x.viaLine = true; x.viaAka = aka;
  if (m.autogen) { x.kind = m.reply; if (!m.body.empty()) { x.must = {m.body}; x.fo = m.orig; x.fd = m.dest; } } out.push_back(x);
}
void Model::handle(MM &m) { if (++depth > 8) { depth--; return; } if (m.area.empty()) netmail(m); else echo(m); depth--; }
// automatically created replies: the body is checked loosely ('must' strings), kind in MM.reply
static MM autoReply(Model &md, const MM &m, const Addr &to, const char *kind, bool &ok, int attr) {
  MM r; ok = false; const RouteC *rt = nullptr; for (auto &x : md.c.routes) if (patMatch(x.pat, to)) { rt = &x; break; } if (!rt) return r; ok = true;
  r.dest = to; r.orig = md.c.akas[rt->aka].a; r.to = m.from; r.from = md.c.sysop; r.subj = kind; r.attr = attr; r.autogen = true; r.uid = m.uid.empty() ? str(kind) : m.uid + "/" + kind; r.reply = kind; r.text = "*"; return r;
}
void Model::bounce(MM &m, const str &, bool) { if (m.autogen) return; bool ok; MM r = autoReply(*this, m, m.area.empty() ? m.orig : m.origin, "Bounced message", ok, A_PVT); if (ok) handle(r); }
void Model::netmail(MM &m) {
  if (!m.dest.z) m.dest.z = m.pdest.z; if (!m.orig.z) m.orig.z = m.porig.z;
  if (!m.autogen && !m.text.empty() && m.text.back() != '\r') m.text += '\r';
  if (filter) { filter(m); if (m.kill) return; }
  bool me = c.isAka(m.dest);
  if (me && !m.autogen) { for (auto &n : c.afNames) if (ieq(n, m.to)) { if (areafix) areafix(m); afRequests.push_back(m.uid); if (!c.has("IMPORTAREAFIX")) return; break; } }
  int ai = -1; for (size_t i = 0; i < c.areas.size() && ai < 0; i++) if (c.areas[i].kind == K_NETMAIL) { if (c.akas[c.areas[i].aka].a.same(m.dest)) ai = i; for (auto &x : c.areas[i].imports) if (x.same(m.dest)) ai = i; }
  if (ai < 0 && (me || c.has("NOROUTE"))) for (size_t i = 0; i < c.areas.size() && ai < 0; i++) if (c.areas[i].kind == K_NETMAIL) ai = i;
  if (ai >= 0) {
    if (m.twit) return;
    if (c.has("STRIPRE")) { for (;;) { str &s = m.subj; if (ieq(s.substr(0, 3), "Re:")) s = s.substr(3); else if (ieq(s.substr(0, 3), "Re^") && s.size() > 4 && s[4] == ':') s = s.substr(5); else if (ieq(s.substr(0, 3), "Re[") && s.size() > 5 && s[4] == ']' && s[5] == ':') s = s.substr(6); else break; if (!s.empty() && s[0] == ' ') s = s.substr(1); } }
    bool text = c.has("IMPORTEMPTYNETMAIL"); if (!text) for (auto &l : splitLines(m.text, '\r')) if (!l.empty() ? l[0] != 1 : false) text = true; if (!text && !m.autogen) { size_t p = 0; while (p < m.text.size()) { if (m.text[p] != 1) text = true; size_t e = m.text.find('\r', p); if (e == str::npos) break; p = e + 1; } }
    if (m.autogen) text = true;
    if (text) { as[ai].newTexts++; if (c.areas[ai].base != B_NONE) { m.attr = (m.attr | A_SENT) & ~A_LOCAL; store(m, ai, ""); } }
    if ((m.attr & A_RREQ) && c.has("ANSWERRECEIPT")) { bool ok; MM r = autoReply(*this, m, m.orig, "Receipt", ok, A_PVT | A_IRRR); if (ok) handle(r); }
    return;
  }
  m.attr &= A_PVT | A_CRASH | A_FILE | A_HOLD | A_RREQ | A_IRRR | A_AUDIT; if (m.tossed) m.attr &= ~(A_CRASH | A_HOLD);
  m.type = 'N'; if (m.attr & A_CRASH) m.type = 'C'; if (m.attr & A_HOLD) m.type = 'H'; if ((m.attr & A_FILE) && !c.has("NODIRECTATTACH") && m.type == 'N') m.type = 'D';
  const RouteC *rt = nullptr; for (auto &x : c.routes) if (patMatch(x.pat, m.dest)) { rt = &x; break; }
  if (!rt) return writeBad(m, "No routing for destination node");
  Addr d = m.type == 'N' ? patExpand(rt->dest, m.dest) : m.dest; char old = m.type;
  for (auto &ch : c.changes) if (patMatch(ch.pat, d)) { bool hit = ch.types == "*"; static const std::pair<char, const char *> T[] = {{'N', "NORMAL"}, {'C', "CRASH"}, {'D', "DIRECT"}, {'H', "HOLD"}}; for (auto &t : T) if (old == t.first && ("," + ch.types + ",").find("," + str(t.second) + ",") != str::npos) hit = true; if (hit) m.type = ch.to[0]; }
  if (d.p && (m.type == 'D' || m.type == 'C')) d.p = 0;
  if (c.loopMode != "IGNORE" && !m.exported) {
    bool loop = false; for (auto &l : splitLines(m.text, '\r')) if (startsWith(l, "\1Via") && l.find("CrashMail") != str::npos) { str t; for (char ch : l.substr(0, 150) + " ") if (isdigit((u8)ch) || ch == ':' || ch == '/' || ch == '.') { if (t.size() < 19) t += ch; } else { Addr a; if (t.find(':') != str::npos && t.find('/') != str::npos && parseAddr(t, a) && a.z && a.n && c.isAka(a)) loop = true; t.clear(); } }
    if (loop && c.loopMode == "LOG+BAD") { MM t = m; t.text.clear(); size_t p = 0; while (p < m.text.size()) { size_t e = m.text.find('\r', p); str l = m.text.substr(p, e == str::npos ? str::npos : e - p + 1); if (l[0] == 1) t.text += "@" + l.substr(1); if (e == str::npos) break; p = e + 1; } t.sb.clear(); t.path.clear(); writeBad(t, "Possible loopmail"); }
  }
  if (c.nodelist) { bool pat = false; for (auto &b : c.bounces) pat |= patMatch(b, m.dest); Addr n = m.dest; n.p = 0; if (pat && !c.nl.count(n)) return bounce(m, "", c.has("BOUNCEHEADERONLY")); }
  if (c.has("BOUNCEPOINTS")) { Addr n = m.dest; n.p = 0; for (auto &k : c.akas) if (k.a.p == 0 && k.a.same(n) && c.findNode(m.dest) < 0) return bounce(m, "", c.has("BOUNCEHEADERONLY")); }
  if ((m.attr & A_FILE) && !m.exported) { bool ok = false; for (auto &b : c.fileattach) ok |= patMatch(b, m.dest); if (!ok) return bounce(m, "", c.has("BOUNCEHEADERONLY")); }
  if (m.attr & A_FILE) { str s; for (char &ch : m.subj) { if (ch == ',') ch = ' '; if (ch == '\\') ch = '/'; } for (auto &w : words(m.subj)) { size_t p = w.rfind('/'); str b = p == str::npos ? w : w.substr(p + 1); if (b.empty()) continue; if (attachHook) attachHook(w, d, m.type, m.exported); s += (s.empty() ? "" : " ") + b; } m.subj = s; }
  Addr aka = c.akas[rt->aka].a; bool audit = (m.attr & A_AUDIT) && c.has("ANSWERAUDIT") && m.tossed;
  sendNet(m, d, aka);
  if (audit) { bool ok; MM r = autoReply(*this, m, m.orig, "Audit", ok, A_PVT); if (ok) handle(r); }
}
// ------------------------------------------------------------------ readers
str baseName(const Cfg &c, const Addr &a) {
  const RouteC *rt = nullptr; for (auto &x : c.routes) if (patMatch(x.pat, a)) { rt = &x; break; }
  bool same = !rt || c.akas[rt->aka].domain.empty() || c.akas[0].domain.empty() || ieq(c.akas[rt->aka].domain, c.akas[0].domain);
  str b = "/bbs/out"; if (!same) { b = "/bbs/" + c.akas[rt->aka].domain; for (auto &k : c.akas) if (ieq(k.domain, c.akas[rt->aka].domain)) { if (k.a.z != a.z) b += sfmt(".%03x", a.z); break; } } else if (a.z != c.akas[0].a.z) b += sfmt(".%03x", a.z);
  b += sfmt("/%04x%04x", a.n, a.f); if (a.p) b += sfmt(".pnt/%08x", a.p); return b;
}
static bool isBundle(const str &n) { if (n.size() != 12) return false; str e = lower(n.substr(8)); if (e[0] != '.') return false; str d = e.substr(1, 2); return d == "mo" || d == "tu" || d == "we" || d == "th" || d == "fr" || d == "sa" || d == "su"; }
// files that hold mail (other files in the packet directories are indexes of the program)
bool isMailFile(const str &leaf) { str l = lower(leaf); return isBundle(leaf) || endsWith(l, ".pkt") || endsWith(l, ".pkttmp") || endsWith(l, ".newpkt") || endsWith(l, ".orphan"); }
Outbound readOutbound(const Vfs &fs, const Cfg &c, const std::set<Addr> &universe) {
  Outbound o; std::set<str> expectFiles; std::map<str, str> owner;
  auto addPkt = [&](std::vector<WireMsg> &v, const str &data, const str &file, const Addr &a, bool isNet) {
    Pkt p; str err; if (!parsePkt(data, p, err)) { o.problems.push_back("malformed packet queued for " + a.s() + ": " + file + ": " + err); return; }
    if (p.dest != a) o.problems.push_back("packet " + file + " queued for " + a.s() + " is addressed to " + p.dest.s());
    for (auto &m : p.msgs) { WireMsg w; w.porig = p.orig; w.pdest = p.dest; w.pw = p.pw; w.m = m; w.file = file; v.push_back(w); }
  };
  std::map<str, Addr> seenBase;
  for (auto &a : universe) {
    str b = baseName(c, a); if (seenBase.count(b)) continue; seenBase[b] = a; NodeOut &n = o.nodes[a];
    for (char ch : str("ohdc")) { str f = b + "." + ch + "ut", d; if (fs.get(f, d)) { expectFiles.insert(f); addPkt(n.ut[ch], d, f, a, true); } }
    for (char ch : str("fhdc")) {
      str f = b + "." + ch + "lo", d; if (!fs.get(f, d)) continue; expectFiles.insert(f);
      if (!d.empty() && d.back() != '\n' && !(c.openFlow.count(f) && c.openFlow.at(f) == d)) o.problems.push_back("flow file " + f + " ends in an unterminated line");
      for (auto l : splitLines(d, '\n')) {
        while (!l.empty() && (l.back() == 10 || l.back() == 13)) l.pop_back(); if (l.empty()) continue; char pre = 0; if (strchr("#~^-", l[0])) { pre = l[0]; l = l.substr(1); }
        str p = Vfs::norm("/bbs", l); if (pre == '~' || l.empty()) continue;
        if (owner.count(p) && startsWith(p, "/bbs/packets/")) o.problems.push_back("file " + p + " is named in two flow entries: " + owner[p] + " and " + f); owner[p] = f; o.referenced.insert(p);
        str data; str leaf = p.substr(p.rfind('/') + 1);
        bool mail = startsWith(p, "/bbs/packets/") && (isBundle(leaf) || (leaf.size() == 12 && endsWith(lower(leaf), ".pkt")));
        if (!fs.get(p, data)) { if (mail) o.problems.push_back("flow file " + f + " names " + p + " which does not exist"); n.files[ch].push_back({p, pre}); continue; }
        if (mail && isBundle(leaf)) {
          if (pre != '^' && pre != '#') o.problems.push_back("bundle " + p + " is queued without the delete-after-sending mark");
          std::vector<std::pair<str, str>> mem; if (!simzUnpack(data, mem)) { o.problems.push_back("bundle " + p + " queued for " + a.s() + " is not a complete archive"); continue; }
          std::set<str> nm; for (auto &m : mem) { if (!nm.insert(lower(m.first)).second) o.problems.push_back("bundle " + p + " holds two members " + m.first); addPkt(n.flow[ch], m.second, p + "(" + m.first + ")", a, false); n.packets[ch]++; }
        } else if (mail) { if (pre != '^' && pre != '#') o.problems.push_back("packet " + p + " is queued without the delete-after-sending mark"); addPkt(n.flow[ch], data, p, a, false); n.packets[ch]++; }
        else n.files[ch].push_back({p, pre});
      }
    }
    if (fs.exists(b + ".bsy")) expectFiles.insert(b + ".bsy");
  }
  for (auto &d : fs.list("/bbs")) if (d == "out" || startsWith(d, "out.") || startsWith(d, "dom")) for (auto &f : fs.files("/bbs/" + d)) if (!expectFiles.count(f)) o.problems.push_back("unexpected file in outbound: " + f);
  for (auto &f : fs.files("/bbs/packets")) { str leaf = f.substr(f.rfind('/') + 1); if (o.referenced.count(f) || !isMailFile(leaf)) continue; o.pending.push_back(f); }
  for (auto &f : fs.files("/bbs/create")) if (isMailFile(f.substr(f.rfind('/') + 1))) o.pending.push_back(f);
  return o;
}
bool readBase(const Vfs &fs, const AreaC &a, std::vector<RMsg> &out, str &err, const std::set<int> *killed) {
  out.clear(); str path = Vfs::norm("/bbs", a.path);
  auto split = [&](const str &t, RMsg &r) {  // body, SEEN-BY, PATH
    size_t p = 0; while (p < t.size()) { size_t e = t.find('\r', p); str l = t.substr(p, e == str::npos ? str::npos : e - p + 1); p = e == str::npos ? t.size() : e + 1;
      if (a.kind != K_NETMAIL && startsWith(l, "SEEN-BY:")) { MM m; m.area = "x"; mmLine(m, l); for (auto &x : m.sb) r.sb.push_back(x); } else if (a.kind != K_NETMAIL && startsWith(l, "\1PATH:")) { r.pathLines.push_back(stripBoth(l.substr(6))); } else r.text += l; }
  };
  if (a.base == B_MSG) {
    std::map<u32, str> files; for (auto &n : fs.list(path)) { size_t d = n.find('.'); if (killed && endsWith(n, ".tmp") && killed->count(fs.lookup(path + "/" + n)->writer)) continue; if (d == str::npos || !ieq(n.substr(d), ".msg")) { err = "unexpected file " + n; return false; } u32 num = atoi(n.c_str()); if (num == 1 && !files.count(1)) { continue; } files[num] = n; }
    for (auto &kv : files) { StoredMsg s; str d = fs.read(path + "/" + kv.second); bool part = killed && killed->count(fs.lookup(path + "/" + kv.second)->writer); if (!parseMsg(d, s, err)) { if (part) { err.clear(); RMsg r; r.num = kv.first; r.partial = true; out.push_back(r); continue; } err = path + "/" + kv.second + ": " + err; return false; } RMsg r; r.num = kv.first; r.partial = part; r.raw = d; r.from = s.from; r.to = s.to; r.subj = s.subj; r.date = s.date; r.attr = s.attr; r.cost = s.cost; r.orig = {s.oz, s.on, s.of, s.op}; r.dest = {s.dz, s.dn, s.df, s.dp}; split(s.text, r); r.path = pathAddrs(r.pathLines); r.uid = keyOf(r.subj, r.text); out.push_back(r); }
    return true;
  }
  if (a.base == B_JAM) {
    JamBase b; if (!parseJam(fs, path, b, err, !killed || killed->empty())) return false;
    for (auto &m : b.m) { if (!m.present || (m.attr & J_DELETED)) continue; RMsg r; r.num = m.num; r.jattr = m.attr; r.processed = m.processed; r.from = m.field(JF_FROM); r.to = m.field(JF_TO); r.subj = m.field(JF_SUBJ); r.text = m.text; if (r.text == str(1, 0)) r.text.clear(); r.cost = m.cost; r.date = fidoDate(m.written); r.oaddr = m.field(JF_OADDR); r.daddr = m.field(JF_DADDR); parseAddr(r.oaddr, r.orig); parseAddr(r.daddr, r.dest); r.msgid = m.field(JF_MSGID); r.reply = m.field(JF_REPLY); r.pid = m.field(JF_PID); r.flags = m.field(JF_FLAGS); r.kl = m.fields(JF_KLUDGE); for (auto &s : m.fields(JF_SEENBY)) { MM x; x.area = "x"; mmLine(x, "SEEN-BY: " + s); for (auto &y : x.sb) r.sb.push_back(y); } r.pathLines = m.fields(JF_PATH); r.path = pathAddrs(r.pathLines); r.uid = keyOf(r.subj, r.text); out.push_back(r); }
    return true;
  }
  return true;
}
