#include "filt.hpp"
#include <cstring>

static bool strPat(const str &p, const str &s) { size_t i = 0; for (; i < p.size(); i++) { if (p[i] == '*') return true; if (i >= s.size()) return false; if (p[i] != '?' && tolower((u8)p[i]) != tolower((u8)s[i])) return false; } return i == s.size(); }
static bool sub(const str &p, const str &s) { return lower(s).find(lower(p)) != str::npos; }
static FExpr mkLeaf(const str &v, const str &o = "", const str &d = "") { FExpr e; e.var = v; e.oper = o; e.data = d; return e; }
static FExpr mkOp(FExpr::Op o, std::vector<FExpr> s) { FExpr e; e.op = o; e.sub = s; return e; }
FExpr Filters::leaf(bool net, bool echo) {
  auto &d = w.c.d; SPAN(d, "leaf"); auto &cfg = w.cfg; auto recase = [&](str s) { int k = d.n(4); return k == 1 ? upper(s) : k == 2 ? lower(s) : s; };
  int k = d.n(16);
  auto wrapNet = [&](FExpr e) { return net ? e : mkOp(FExpr::AND, {mkLeaf("TYPE", "=", "NETMAIL"), e}); };
  auto addrPat = [&] { Addr a = w.anyAddr(); int q = d.n(cfg.nodelist ? 9 : 7); return q == 7 ? sfmt("REGION %d:%d", a.z, 20 + d.n(4)) : q == 8 ? sfmt("HUB %d:%d/%d", a.z, a.n, 100 * (int)d.n(5)) : q == 0 ? sfmt("%d:*/*.*", a.z) : q == 1 ? a.s4() : q == 2 ? sfmt("%d:%d/*.*", a.z, a.n) : q == 3 ? sfmt("NET %d:%d", a.z, a.n) : q == 4 ? sfmt("%d:%d/%d.*", a.z, a.n, a.f) : q == 5 ? sfmt("ZONE %d", a.z) : sfmt("*:%d/1*.*", a.n); };
  if (k == 0) return mkLeaf("SUBJECT", "|", recase(sfmt("UID%05d", 1 + d.n(12)))); 
  if (k == 1) { static const char *S[] = {"Re:", "hello", "sss", "caf\xe9", "d0", "00", "]:", "lo", "ell"}; return mkLeaf("SUBJECT", "|", recase(S[d.n(9)])); }
  if (k == 2) { static const char *S[] = {"UID*", "Re*", "UID0000?", "re[3]*", "UID0000? hello", "*", "UID*x"}; return mkLeaf("SUBJECT", "=", recase(S[d.n(7)])); }
  if (k == 3 || k == 4) { str v = k == 3 ? "FROMNAME" : "TONAME"; if (d.n(2)) { static const char *S[] = {"John Doe", "All", "S*", "??l", "Jane Q. Public", "", "A", "x ? z", "NNN*"}; return mkLeaf(v, "=", recase(S[d.n(9)])); } static const char *S[] = {"oh", "n Do", "ss", "op", "z", "\xb6r", "mm", "public", "l"}; return mkLeaf(v, "|", recase(S[d.n(9)])); }
  if (k == 5) return mkLeaf("FROMADDR", "=", addrPat());
  if (k == 6) return wrapNet(mkLeaf("TOADDR", "=", addrPat()));
  if (k == 7) { static const char *V[] = {"TOLOCALAKA", "TOLOCALPOINT", "EXISTSCFG_TOADDR", "EXISTSCFG_TOBOSS", "FILEATTACH"}; int q = d.n(3); str v = V[d.n(5)]; if (cfg.nodelist && d.n(2)) v = d.n(2) ? "EXISTSNL_TOADDR" : "EXISTSNL_TOBOSS"; return wrapNet(mkLeaf(v, q ? "=" : "", q == 1 ? "TRUE" : q == 2 ? "FALSE" : "")); }
  if (k == 8) { static const char *V[] = {"FROMLOCALAKA", "FROMLOCALPOINT", "EXISTSCFG_FROMADDR", "EXISTSCFG_FROMBOSS"}; int q = d.n(3); str v = V[d.n(4)]; if (cfg.nodelist && d.n(2)) v = d.n(2) ? "EXISTSNL_FROMADDR" : "EXISTSNL_FROMBOSS"; return mkLeaf(v, q ? "=" : "", q == 1 ? "true" : q == 2 ? "False" : ""); }
  if (k == 9 || k == 10 || k == 11) { int q = d.n(6); str s; if (q < 2) { static const char *S[] = {"quick", "brown fox", "the the", "gateway hub", "echomail", "SEEN-BY in", "tab", "tearline", "Origin:", "zone ", "node node", "odem", "m modem", "hub hub", "point p", "oto", "the q", "ee"}; s = S[d.n(18)]; } else { int n = 1 + d.n(4); for (int i = 0; i < n; i++) s += "abn"[d.n(3)]; } return mkLeaf("TEXT", "|", recase(s)); }
  if (k == 12) { static const char *S[] = {"MSGID", "GoldED 3", "REPLY: 2:5020", "5020/1", "TZUTC", "000100", "CHRS: LATIN", "i"}; return mkLeaf("KLUDGES", "|", recase(S[d.n(8)])); }
  if (k == 13) { int q = d.n(4); if (q == 3) return mkLeaf("AREA", "=", ""); std::vector<str> t; for (auto &a : cfg.areas) if (a.kind == K_ECHO) t.push_back(a.tag); str s = t.empty() ? "X" : t[d.n(t.size())]; if (q == 0) return mkLeaf("AREA", "=", recase(s.substr(0, 60))); if (q == 1) return mkLeaf("AREA", "|", recase(s.substr(s.size() / 2, 30))); return mkLeaf("AREA", "=", s.substr(0, 2) + "*"); }
  if (k == 14) return mkLeaf("TYPE", "=", recase(d.n(2) ? "NETMAIL" : "ECHOMAIL"));
  static const char *S[] = {"TOSSED", "EXPORTED", "CRASHMAIL", "*"}; return mkLeaf("SOURCE", "=", recase(S[d.n(4)]));
}
FExpr Filters::expr(int depth, bool net, bool echo) {
  auto &d = w.c.d; int k = depth <= 0 ? 0 : d.n(6); if (k < 2) return leaf(net, echo); if (k == 2) return mkOp(FExpr::NOT, {expr(depth - 1, net, echo)});
  std::vector<FExpr> v; int n = 2 + (d.n(3) == 1); for (int i = 0; i < n; i++) v.push_back(expr(depth - 1, net, echo)); return mkOp(k & 1 ? FExpr::AND : FExpr::OR, v);
}
str Filters::render(const FExpr &e, bool nested) {
  auto &d = w.c.d; auto kw = [&](const char *s) { return d.n(3) == 1 ? str(s) : d.n(2) ? lower(s) : upper(s); };
  if (e.op == FExpr::LEAF) { str v = d.n(4) == 1 ? lower(e.var) : e.var; if (e.oper.empty()) return v; bool qn = e.data.empty() || e.data.find_first_of(" ()\"") != str::npos || d.n(2); return v + e.oper + (qn ? "\"" + e.data + "\"" : e.data); }
  if (e.op == FExpr::NOT) { auto &s = e.sub[0]; str r = kw("NOT") + " "; if (s.op == FExpr::LEAF) return r + (d.n(3) == 1 ? "(" + render(s, false) + ")" : render(s, false)); return r + "(" + render(s, false) + ")"; }
  str r; for (auto &s : e.sub) { if (!r.empty()) r += " " + kw(e.op == FExpr::AND ? "AND" : "OR") + " "; str x = render(s, true); if (s.op == FExpr::AND || s.op == FExpr::OR) x = "(" + x + ")"; r += x; } return r;
}
void Filters::gen(const str &source) {
  auto &d = w.c.d; SPAN(d, "filters"); auto &cfg = w.cfg; for (const char *s : {"ANSWERRECEIPT", "ANSWERAUDIT", "BOUNCEPOINTS"}) cfg.sw.erase(s); cfg.bounces.clear();
  int nl = 1 + d.n(2); std::vector<str> loc; for (int i = 0; i < nl; i++) { AreaC a; a.tag = sfmt("COPIES.%d", i + 1); a.kind = K_LOCAL; a.base = d.n(3) == 1 ? B_JAM : B_MSG; a.path = sfmt("base/l%d", i); loc.push_back(a.tag); cfg.areas.insert(cfg.areas.begin() + d.n(cfg.areas.size() + 1), a); }
  int nf = 1 + d.n(4); str t;
  for (int i = 0; i < nf; i++) {
    SPAN(d, "filter"); FFilter x; int scope = d.n(5); bool net = scope == 2, echo = scope == 3; FExpr e = expr(2, net, echo); bool wantBounce = false;
    int nc = 1 + (d.n(3) == 1 ? 1 + d.n(2) : 0); 
    for (int k = 0; k < nc; k++) {
      SPAN(d, "command"); FCmd c; int q = d.n(12); bool src = scope >= 1 && scope <= 3;
      str codes = src ? " %x" : ""; if (net) codes += " to %d";
      if (q == 0) c.cmd = "KILL"; else if (q == 1) c.cmd = "TWIT"; else if (q < 4) { c.cmd = "COPY"; c.arg = loc[d.n(loc.size())]; if (d.n(4) == 1) c.arg = lower(c.arg); }
      else if (q == 4) { c.cmd = "WRITELOG"; c.arg = "FLOG from %f (%o) to %t in [%a] about %s" + codes + " 100%%"; }
      else if (q == 5) { c.cmd = "WRITEBAD"; c.arg = d.n(2) ? "Filtered out" : "Warning: %f is bad"; }
      else if (q == 6 || q == 7) { c.cmd = q == 6 ? "BOUNCEMSG" : "BOUNCEHEADER"; c.arg = "Your message %s" + codes + " from %o was not wanted, %f"; wantBounce = true; }
      else if (q == 8) { c.cmd = "EXECUTE"; c.rc = d.n(3) == 1 ? 0 : d.n(2) ? 10 : 5; int z = d.n(4); c.arg = sfmt("simexec %d ", c.rc) + (z == 1 && src ? "M=%m " : z == 2 && src && net ? "R=%r " : "") + "[%a] [%s] [%f] [%t] [%o]" + codes; }
      else if (q < 11 && (scope == 2 || scope == 3)) { c.cmd = q == 9 ? "REMAPMSG" : "MASQUERADE"; static const char *N[] = {"*", "New Name", "A much longer name of 35 characters"}; c.arg = N[d.n(3)]; Addr a = w.anyAddr(); int z = d.n(6); c.pat = scope == 3 || z < 3 ? a.s4() : z == 3 ? "2:5020/*.*" : z == 4 ? "*:*/*.0" : "3:65001/65002.65003"; }
      else { c.cmd = "COPY"; c.arg = loc[0]; }
      x.cmds.push_back(c);
    }
    // bounces of echomail need an origin address that can be answered
    if (wantBounce && !net) e = mkOp(FExpr::AND, {mkOp(FExpr::OR, {mkLeaf("TYPE", "=", "NETMAIL"), mkLeaf("EXISTSCFG_FROMADDR")}), e});
    if (scope >= 1 && scope <= 3) { std::vector<FExpr> v{mkLeaf("SOURCE", "=", source)}; if (net) v.push_back(mkLeaf("TYPE", "=", "NETMAIL")); if (echo) v.push_back(mkLeaf("TYPE", "=", "ECHOMAIL")); v.push_back(e); e = mkOp(FExpr::AND, v); } else if (scope == 4) e = d.n(2) ? mkLeaf("SOURCE", "=", "CRASHMAIL") : mkOp(FExpr::AND, {mkLeaf("SOURCE", "=", "CRASHMAIL"), e});
    str r = render(e, false); if (r.size() > 390) continue; x.e = e; f.push_back(x);
    t += "FILTER " + r + "\n"; for (auto &c : x.cmds) { t += c.cmd; if (!c.arg.empty()) t += " \"" + c.arg + "\""; if (!c.pat.empty()) t += " " + c.pat; t += "\n"; }
  }
  cfg.filters = t;
  w.c.sim.onSystem = [this](const str &cmd, const str &) { int rc = 127; if (!startsWith(cmd, "simexec ")) return rc; FExec x; x.cmd = cmd; for (char k : str("MR")) { size_t p = cmd.find(str(" ") + k + "="); if (p == str::npos || p > 12) continue; size_t e = cmd.find(' ', p + 3); str path = cmd.substr(p + 3, e - p - 3); x.kind = k; if (!w.c.sim.fs.get(Vfs::norm("/bbs", path), x.file)) x.file = "(no such file)"; x.cmd = cmd.substr(0, p + 3) + cmd.substr(e); } got.push_back(x); return atoi(cmd.c_str() + 8); };
}
bool Filters::eval(const FExpr &e, const MM &m, Model &md) {
  if (e.op == FExpr::NOT) return !eval(e.sub[0], m, md); if (e.op == FExpr::AND) { bool r = true; for (auto &s : e.sub) r &= eval(s, m, md); return r; } if (e.op == FExpr::OR) { bool r = false; for (auto &s : e.sub) r |= eval(s, m, md); return r; }
  auto &c = md.c; Addr from = m.area.empty() ? m.orig : m.origin, fb = from, tb = m.dest; fb.p = tb.p = 0; auto st = [&](const str &v) { return e.oper == "|" ? sub(e.data, v) : strPat(e.data, v); }; auto bl = [&](bool b) { return e.oper.empty() || ieq(e.data, "TRUE") ? b : !b; };
  auto localPoint = [&](const Addr &a, const Addr &b) { if (!a.p) return false; for (auto &k : c.akas) if (k.a.p == 0 && k.a.same(b)) return true; return false; };
  const str &v = e.var;
  if (v == "SUBJECT") return st(m.subj); if (v == "FROMNAME") return st(m.from); if (v == "TONAME") return st(m.to); if (v == "AREA") return st(m.area); if (v == "TYPE") return st(m.area.empty() ? "NETMAIL" : "ECHOMAIL"); if (v == "SOURCE") return st(m.tossed ? "TOSSED" : m.autogen ? "CRASHMAIL" : m.exported ? "EXPORTED" : "OTHER");
  if (v == "FROMADDR") return patMatch(e.data, from); if (v == "TOADDR") return patMatch(e.data, m.dest);
  if (v == "FILEATTACH") return bl(m.attr & A_FILE); if (v == "TOLOCALAKA") return bl(c.isAka(m.dest)); if (v == "FROMLOCALAKA") return bl(c.isAka(from)); if (v == "TOLOCALPOINT") return bl(localPoint(m.dest, tb)); if (v == "FROMLOCALPOINT") return bl(localPoint(from, fb));
  if (startsWith(v, "EXISTSNL_")) return bl(c.nl.count(v == "EXISTSNL_TOADDR" ? m.dest : v == "EXISTSNL_TOBOSS" ? tb : v == "EXISTSNL_FROMADDR" ? from : fb) > 0);
  if (v == "EXISTSCFG_TOADDR") return bl(c.findNode(m.dest) >= 0); if (v == "EXISTSCFG_TOBOSS") return bl(c.findNode(tb) >= 0); if (v == "EXISTSCFG_FROMADDR") return bl(c.findNode(from) >= 0); if (v == "EXISTSCFG_FROMBOSS") return bl(c.findNode(fb) >= 0);
  if (v == "TEXT" || v == "KLUDGES") { for (auto &l : splitLines(m.text, '\r')) { size_t k = l.find_first_not_of('\n'); if (k != str::npos && (l[k] == 1) == (v == "KLUDGES") && sub(e.data, l.substr(k))) return true; } return false; }
  return false;
}
static str expand(const str &t, const MM &m) {
  str r; Addr o = m.area.empty() ? m.orig : m.origin; for (size_t i = 0; i < t.size(); i++) { if (t[i] != '%' || i + 1 >= t.size()) { r += t[i]; continue; } switch (t[++i]) { case 'a': r += m.area; break; case 's': r += m.subj; break; case 'f': r += m.from; break; case 't': r += m.to; break; case 'o': r += o.s(); break; case 'd': r += m.dest.s(); break; case 'x': r += m.date; break; case 'm': case 'r': break; default: r += t[i]; } } return r;
}
static str netKludges(const Cfg &c, const MM &m) { str k; if (m.orig.p) k += sfmt("\1FMPT %d\r", m.orig.p); if (m.dest.p) k += sfmt("\1TOPT %d\r", m.dest.p); if (m.orig.z != m.dest.z || c.has("FORCEINTL")) k += sfmt("\1INTL %d:%d/%d %d:%d/%d\r", m.dest.z, m.dest.n, m.dest.f, m.orig.z, m.orig.n, m.orig.f); return k; }
void Filters::apply(Model &md, MM &m) {
  auto &cfg = md.c;
  for (auto &x : f) {
    if (!eval(x.e, m, md)) { misses++; continue; } matches++;
    for (auto &c : x.cmds) {
      w.c.note("      filter matches " + m.uid + ": " + c.cmd + " " + c.arg);
      if (c.cmd == "KILL") m.kill = true; else if (c.cmd == "TWIT") m.twit = true;
      else if (c.cmd == "COPY") { MM t = m; if (!t.area.empty()) t.text = "AREA:" + t.area + "\r" + t.text; int ai = cfg.findArea(c.arg); md.store(t, ai, ""); md.as[ai].newTexts++; }
      else if (c.cmd == "WRITELOG") logExpect.push_back(expand(c.arg, m));
      else if (c.cmd == "WRITEBAD") md.writeBad(m, c.arg);
      else if (c.cmd == "EXECUTE") { FExec e; e.cmd = expand(c.arg, m); e.m = m; expect.push_back(e); if (c.rc == 0) m.kill = true; }
      else if (startsWith(c.cmd, "BOUNCE")) {
        if (m.autogen) continue; Addr to = m.area.empty() ? m.orig : m.origin; const RouteC *rt = nullptr; for (auto &r : cfg.routes) if (patMatch(r.pat, to)) { rt = &r; break; } if (!rt) continue;
        MM r; r.dest = to; r.orig = cfg.akas[rt->aka].a; r.to = m.from; r.from = cfg.sysop; r.subj = "Bounced message"; r.attr = A_PVT; r.autogen = true; r.uid = m.uid + "/Bounced message"; r.reply = "Bounced message";
        bool ho = c.cmd == "BOUNCEHEADER"; str b = expand(c.arg, m).substr(0, 390) + "\r\r" + (ho ? "This is the header of the message that was bounced:\r\r" : "This is the message that was bounced:\r\r");
        if (!m.area.empty()) b += "Area: " + m.area + "\rFrom: " + m.from + " (" + to.s4() + ")\r  To: " + m.to + "\r"; else b += "From: " + m.from + " (" + to.s4() + ")\r  To: " + m.to + " (" + m.dest.s4() + ")\r";
        b += "Subj: " + m.subj + "\rDate: " + m.date + "\r\r"; if (!ho) for (char ch : m.text) b += ch == 1 ? '@' : ch; r.body = b; r.text = netKludges(cfg, r) + (cfg.has("ADDTID") ? "\1TID: CrashMail\r" : "") + b; md.handle(r);
      } else if (c.cmd == "REMAPMSG") {
        if (!m.area.empty()) continue; str ot = m.to; Addr od = m.dest; m.dest = patExpand(c.pat, m.dest); if (c.arg != "*") m.to = c.arg; Addr my; for (auto &r : cfg.routes) if (patMatch(r.pat, m.dest)) { my = cfg.akas[r.aka].a; break; }
        str t = netKludges(cfg, m); for (auto &l : splitLines(m.text, '\r')) if (!startsWith(l, "\1INTL") && !startsWith(l, "\1FMPT") && !startsWith(l, "\1TOPT")) t += l;
        t += "\1Remapped to " + m.to + " at " + m.dest.s4() + " by " + my.s4() + "\r\1Message originally to " + ot + " at " + od.s4() + "\r"; m.text = t;
      } else if (c.cmd == "MASQUERADE") {
        Addr no = patExpand(c.pat, m.orig); if (c.arg != "*") m.from = c.arg; str t; bool net = m.area.empty(); auto re = [&](str &id, const char *nm) { size_t p = id.find(' '); if (p == str::npos) return; id = (no.s4() + id.substr(p)).substr(0, 79); t += str("\1") + nm + ": " + id + "\r"; };
        re(m.msgid, "MSGID"); if (net) re(m.reply, "REPLY"); m.orig = no; if (net) t += netKludges(cfg, m); else m.origin = no;
        for (auto &l : splitLines(m.text, '\r')) { bool skip = startsWith(l, "\1MSGID") || (net && startsWith(l, "\1REPLY")) || startsWith(l, "\1INTL") || startsWith(l, "\1FMPT") || startsWith(l, "\1TOPT") || startsWith(l, "\1Via"); if (skip) continue; size_t a, b; if (startsWith(l, " * Origin") && (a = l.rfind('(')) != str::npos && (b = l.find(')', a)) != str::npos) { t += l.substr(0, a + 1) + no.s4() + l.substr(b); continue; } t += l; }
        m.text = t; m.sb.clear(); m.path.clear(); if (net) continue; m.sb = {{no.n, no.f}}; Addr q = no; q.p = 0; pathAppend(m.path, q);
      }
      if (m.kill) return;
    }
  }
}
void Filters::attach(Model &m) { m.filter = [this, &m](MM &x) { apply(m, x); }; }
str Filters::fileDiff(const FExec &e, const FExec &g) {
    if (g.kind == 'M') { StoredMsg s; str err; if (!parseMsg(g.file, s, err)) return "file for " + e.m.uid + " is no *.msg: " + err; MM x; x.area = e.m.area; str txt, sbp; for (auto &l : splitLines(s.text, '\r')) if (!x.area.empty() && (startsWith(l, "SEEN-BY:") || startsWith(l, "\1PATH:"))) sbp += l; else txt += l;
      if (s.from != e.m.from || s.to != e.m.to || s.subj != e.m.subj || s.date != e.m.date || s.attr != (e.m.attr | A_SENT)) return "file for " + e.m.uid + " has another header"; if (normTid(txt) != normTid(e.m.text)) return "file for " + e.m.uid + " has another text: \"" + esc(txt, 200) + "\"";
      if (x.area.empty() && (Addr{s.oz, s.on, s.of, s.op} != e.m.orig || Addr{s.dz, s.dn, s.df, s.dp} != e.m.dest)) return "file for " + e.m.uid + " has other addresses"; }
    if (g.kind == 'R') { std::vector<str> L = splitLines(g.file, '\n'); str dom = "FidoNet"; for (auto &k : w.cfg.akas) if (k.a.same(e.m.dest)) { if (!k.domain.empty()) dom = k.domain; break; } std::vector<str> E{"From: " + e.m.orig.s4() + "@" + dom + " (" + e.m.from + ")\n", "To: " + e.m.dest.s4() + "@" + dom + " (" + e.m.to + ")\n", "Subject: " + e.m.subj + "\n", "Date: " + e.m.date + "\n"}; if (!e.m.msgid.empty()) E.push_back("Message-ID: <" + e.m.msgid + ">\n"); if (!e.m.reply.empty()) E.push_back("References: <" + e.m.reply + ">\n"); { str l; for (char ch : e.m.text + "\r") { if (ch != '\r' && ch != '\n') { l += ch; continue; } if (l.size() > 1 && l[0] == 1) E.push_back("X-Fido-" + l.substr(1) + "\n"); l.clear(); } } E.push_back("\n"); for (size_t k = 0; k < E.size(); k++) if (k >= L.size() || (L[k] != E[k] && !(startsWith(E[k], "X-Fido-TID: CrashMail") && startsWith(L[k], "X-Fido-TID: CrashMail")))) return "file for " + e.m.uid + ": expected \"" + esc(E[k]) + "\", found \"" + esc(k < L.size() ? L[k] : "") + "\"";
      size_t h = g.file.find("\n\n"); str body = h == str::npos ? "" : g.file.substr(h + 1), want; for (auto &l : splitLines(e.m.text, '\r')) { size_t k = l.find_first_not_of('\n'); if (k != str::npos && l[k] != 1) want += l; } if (words(body) != words(want)) return "file for " + e.m.uid + " has another text: \"" + esc(body, 2000) + "\", expected the words of \"" + esc(want, 2000) + "\""; }
  return "";
}
void Filters::checkFaulted(const Filters &loose, const std::set<str> &excused, const std::set<str> &skip) {
  auto &c = w.c; std::map<str, std::vector<const FExec *>> by; for (auto &e : expect) by[e.cmd].push_back(&e); for (auto &e : loose.expect) by[e.cmd].push_back(&e); std::map<str, std::vector<const FExec *>> have;
  for (auto &g : got) { have[g.cmd].push_back(&g); auto it = by.find(g.cmd); if (it == by.end()) { if (skip.count(uidOf(g.cmd))) continue; c.fail("C19,C01", "executed", "the command \"" + esc(g.cmd, 200) + "\" was executed without reason"); continue; } str df; bool ok = false; for (auto e : it->second) { df = fileDiff(*e, g); if (df.empty() || skip.count(e->m.uid)) { ok = true; break; } } if (!ok) c.fail("C19,C01", "exec-file", df); }
  for (auto &e : expect) { if (excused.count(e.m.uid.substr(0, 8)) || skip.count(e.m.uid)) continue; bool ok = false; for (auto g : have[e.cmd]) ok |= fileDiff(e, *g).empty(); if (!ok) c.fail("C19,C01,C18", "not-executed", "the command \"" + esc(e.cmd, 200) + "\" was not executed for " + e.m.uid); }
}
void Filters::check(const str &tags) {
  auto &c = w.c; str T = "C19" + tags;
  for (size_t i = 0; i < std::max(expect.size(), got.size()); i++) {
    if (i >= got.size()) { c.fail(T, "not-executed", "the command \"" + esc(expect[i].cmd, 200) + "\" was not executed"); break; } if (i >= expect.size()) { c.fail(T, "executed", "the command \"" + esc(got[i].cmd, 200) + "\" was executed without reason"); break; }
    auto &e = expect[i]; auto &g = got[i]; if (e.cmd != g.cmd) { c.fail(T, "executed", "executed \"" + esc(g.cmd, 300) + "\", expected \"" + esc(e.cmd, 300) + "\""); break; }
    str df = fileDiff(e, g); if (!df.empty()) c.fail(T, "exec-file", df);
  }
  for (auto &fl : c.sim.fs.files("/tmp")) c.fail(T + ",C18", "temp-left", "file " + fl + " left behind");
  std::vector<str> L; for (auto l : splitLines(c.sim.fs.read("/bbs/crashmail.log"), '\n')) { size_t p = l.find("FLOG "); if (p != str::npos) { while (!l.empty() && l.back() == '\n') l.pop_back(); L.push_back(l.substr(p)); } }
  for (size_t i = 0; i < std::max(L.size(), logExpect.size()); i++) { if (i >= L.size()) { c.fail(T, "not-logged", "log line \"" + esc(logExpect[i], 200) + "\" is missing"); break; } if (i >= logExpect.size() || L[i] != logExpect[i]) { c.fail(T, "logged", "log line \"" + esc(L[i], 200) + "\", expected \"" + esc(i < logExpect.size() ? logExpect[i] : "none", 200) + "\""); break; } }
}
// ---- profile: tossing with filters
static void filterP(Ctx &c) {
  auto &d = c.d; startWorld(c); World w(c); w.genConfig(GO_NETMAIL | (d.n(3) == 1 ? GO_AUTOADD : 0)); if (d.n(3) == 1) w.cfg.sw.insert("ADDTID"); c.sim.fs.mkdirs("/tmp"); Filters fl(w); fl.gen("TOSSED"); w.smallAlphabet = true; w.install(); Model m(w.cfg); fl.attach(m); c.note("configuration:\n" + w.cfg.text());
  int rounds = 1 + d.n(3);
  for (int k = 0; k < rounds; k++) {
    Round r = w.genRound(5); w.modelRound(m, r); std::vector<str> args{"TOSS"}; if (r.nosec) args.push_back("NOSECURITY");
    auto res = c.run("crashmail", args, {}, "C19"); if (res.how != H_EXIT || res.status != 0) c.fail("C19", "exit", sfmt("toss ended with status %d: ", res.status) + esc(res.out, 300));
    cmpQueue(w, m, ",C19"); cmpBases(w, m, ",C19"); fl.check("");
    std::set<str> left; for (auto &n : c.sim.fs.list("/bbs/in")) left.insert(n);
    for (auto &l : left) { size_t p = l.find(".bad"); if (p == str::npos || !r.expectBad.count(l.substr(0, p))) c.fail("C05,C01,C19", "inbound-left", "file " + l + " is left in inbound after a completed toss"); c.sim.fs.del("/bbs/in/" + l); }
    c.sim.nowUs += (i64)(1 + d.n(20)) * 1000000; for (auto &a : std::set<Addr>(w.universe)) if (d.n(3)) w.mailerTakes(&m, a);
  }
}
void regFilter() { gProfiles.push_back({"filter", filterP}); }
