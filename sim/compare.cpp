// Comparison of the real state with the reference model.
#include "world.hpp"
#include <cstring>

str describe(const QMsg &q) { return sfmt("%s %s to %s (%c, from packet address %s, subject \"%s\")", q.uid.c_str(), q.area.empty() ? "netmail" : ("echomail " + q.area).c_str(), q.dest.s().c_str(), q.type, q.porig.s().c_str(), esc(q.m.subj, 40).c_str()); }
str describe(const WireMsg &x) { return sfmt("%s in %s (from %s, subject \"%s\")", keyOf(x.m.subj, x.m.text).c_str(), x.file.c_str(), x.porig.s().c_str(), esc(x.m.subj, 40).c_str()); }
static str sbStr(const std::vector<std::pair<int, int>> &v) { str s; for (auto &x : v) s += sfmt("%d/%d ", x.first, x.second); return s; }
static str paStr(const std::vector<Addr> &v) { str s; for (auto &x : v) s += sfmt("%d/%d.%d ", x.n, x.f, x.p); return s; }
static bool pathEq(const std::vector<Addr> &a, const std::vector<Addr> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i].n != b[i].n || a[i].f != b[i].f || a[i].p != b[i].p) return false; return true; }
static str firstDiff(const str &a, const str &b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++; size_t f = i > 30 ? i - 30 : 0; return sfmt("at byte %zu of %zu/%zu: expected \"%s\", found \"%s\"", i, a.size(), b.size(), esc(a.substr(f, 80)).c_str(), esc(b.substr(f, 80)).c_str()); }

str normTid(const str &t) { str r; size_t i = 0; for (;;) { size_t p = t.find("TID: CrashMail", i); if (p == str::npos) return r + t.substr(i); size_t e = t.find('\r', p); r += t.substr(i, p - i) + "TID: CrashMail"; if (e == str::npos) return r; i = e; } }
// the traffic column of lists of areas and the version of the program are not compared
static str normAuto(const str &subj, const str &t0) {
  str t = normTid(t0);
  str r; bool list = startsWith(subj, "AreaFix list"); for (auto l : splitLines(t, '\r')) { if (!l.empty() && l.back() == '\r') l.pop_back(); if (list && l.size() == 74 && l[0] != '-') l = l.substr(0, 66); if (startsWith(l, "Generated by CrashMail")) l = "Generated by CrashMail"; r += l + "\r"; } return r;
}
str diffQueued(const QMsg &q, const WireMsg &x, bool checkOrig) {
#define F(cond, what, e, g) if (cond) return str(what) + ": expected " + (e) + ", found " + (g)
  F(x.pw != q.pw, "packet password", q.pw, x.pw);
  if (checkOrig) F(x.porig != q.porig, "packet origin address", q.porig.s(), x.porig.s());
  if (!q.kind.empty()) {   // automatic reply: header only, body must quote the original
    F(x.m.to != q.m.to, "to", q.m.to, x.m.to); F(x.m.from != q.m.from, "from", q.m.from, x.m.from); F(x.m.df != q.m.df || x.m.dn != q.m.dn, "destination", sfmt("%d/%d", q.m.dn, q.m.df), sfmt("%d/%d", x.m.dn, x.m.df)); F(x.m.attr != q.m.attr, "attributes", sfmt("%x", q.m.attr), sfmt("%x", x.m.attr));
    if (q.must.empty()) return "";
    // the whole text: kludges, body, Via
    F(x.m.subj != q.m.subj, "subject", esc(q.m.subj), esc(x.m.subj)); F(x.m.of != q.m.of || x.m.on != q.m.on, "origin address", sfmt("%d/%d", q.m.on, q.m.of), sfmt("%d/%d", x.m.on, x.m.of));
    str t = x.m.text; Pkt pk; pk.orig = x.porig; pk.dest = x.pdest; Cfg none; MM mm = toMM(pk, x.m, none, false); if (!mm.orig.z) mm.orig.z = x.porig.z; if (t.find("\1INTL") == str::npos) { mm.dest.z = x.pdest.z; if (q.fo.z == q.fd.z) mm.dest.z = mm.orig.z = q.fd.z; }
    if (checkOrig || t.find("\1INTL") != str::npos) F(mm.orig != q.fo, "origin address with point", q.fo.s4(), mm.orig.s4()); F(mm.orig.p != q.fo.p, "origin point", q.fo.s4(), mm.orig.s4()); F(mm.dest != q.fd, "destination address", q.fd.s4(), mm.dest.s4());
    while (!t.empty() && t[0] == 1) { size_t e = t.find('\r'); t = e == str::npos ? "" : t.substr(e + 1); }
    size_t v = t.rfind("\1Via "); if (v != str::npos) t = t.substr(0, v); else return "no Via line";
    str a = normAuto(q.m.subj, q.must[0]), b = normAuto(q.m.subj, t); if (a != b) return "text " + firstDiff(a, b); return "";
  }
  F(x.m.date != q.m.date, "date", esc(q.m.date), esc(x.m.date)); F(x.m.to != q.m.to, "to", esc(q.m.to), esc(x.m.to)); F(x.m.from != q.m.from, "from", esc(q.m.from), esc(x.m.from)); F(x.m.subj != q.m.subj, "subject", esc(q.m.subj), esc(x.m.subj));
  F(x.m.attr != q.m.attr, "attributes", sfmt("%x", q.m.attr), sfmt("%x", x.m.attr)); F(x.m.cost != q.m.cost, "cost", sfmt("%d", q.m.cost), sfmt("%d", x.m.cost));
  F(x.m.of != q.m.of || x.m.on != q.m.on, "origin address", sfmt("%d/%d", q.m.on, q.m.of), sfmt("%d/%d", x.m.on, x.m.of)); F(x.m.df != q.m.df || x.m.dn != q.m.dn, "destination address", sfmt("%d/%d", q.m.dn, q.m.df), sfmt("%d/%d", x.m.dn, x.m.df));
  if (!q.area.empty()) {
    EchoText e = parseEchoText(x.m.text); if (!e.err.empty()) return "echomail text: " + e.err;
    F(e.area != q.area, "area line", q.area, e.area);
    str eb = normTid(e.body), qb = normTid(q.body); if (eb != qb) return "body " + firstDiff(qb, eb);
    auto s = e.seenby; F(s != q.sb, "SEEN-BY", sbStr(q.sb), sbStr(s)); if (e.maxSbLine > 79) return sfmt("SEEN-BY line of %zu characters", e.maxSbLine);
    F(!pathEq(e.path, q.path), "PATH", paStr(q.path), paStr(e.path));
    for (auto &l : e.pathLines) if (l.size() > 100) return "PATH line too long";
  } else {
    str t = normTid(x.m.text);
    if (t.compare(0, q.body.size(), q.body) != 0) return "body " + firstDiff(q.body, t);
    str rest = t.substr(q.body.size());
    if (!startsWith(rest, "\1Via " + q.viaAka.s()) || rest.find("CrashMail") == str::npos || rest.back() != '\r' || rest.find('\r') != rest.size() - 1) return "Via line: expected one for " + q.viaAka.s() + ", found \"" + esc(rest) + "\"";
  }
#undef F
  return "";
}
void cmpQueue(World &w, Model &m, const str &xt, const Outbound *before) {
  auto &c = w.c; auto &cfg = w.cfg; std::set<Addr> uni = w.universe; for (auto &q : m.out) uni.insert(q.dest); w.universe = uni;
  Outbound o = readOutbound(c.sim.fs, cfg, uni);
  if (before) for (auto &n : before->nodes) { auto &t = o.nodes[n.first]; for (auto &kv : n.second.ut) t.ut[kv.first].insert(t.ut[kv.first].begin(), kv.second.begin(), kv.second.end()); for (auto &kv : n.second.flow) t.flow[kv.first].insert(t.flow[kv.first].begin(), kv.second.begin(), kv.second.end()); }
  for (auto &p : o.problems) c.fail("C08,C16,C03" + xt, "outbound", p);
  for (auto &p : o.pending) c.fail("C08,C01,C16" + xt, "unqueued", "file " + p + " is in no flow file after a completed run");
  for (auto &d : uni) {
    std::map<str, std::vector<const QMsg *>> exp; std::map<str, std::vector<const WireMsg *>> got; int cn = cfg.findNode(d);
    for (auto &q : m.out) if (q.dest == d) { char ch; if (q.type == 'E') { char p = cn >= 0 ? cfg.nodes[cn].pri : 'N'; ch = p == 'N' ? 'f' : tolower(p); exp[str("flow ") + ch].push_back(&q); } else { ch = q.type == 'N' ? 'o' : tolower(q.type); exp[str("ut ") + ch].push_back(&q); } }
    auto it = o.nodes.find(d); if (it != o.nodes.end()) { for (auto &kv : it->second.ut) for (auto &x : kv.second) got[str("ut ") + kv.first].push_back(&x); for (auto &kv : it->second.flow) for (auto &x : kv.second) got[str("flow ") + kv.first].push_back(&x); }
    if (!w.looseAttach) { std::map<str, const Attach *> ea; for (auto &x : m.attach) if (x.dest == d) ea[sfmt("%clo ", x.ch) + x.path] = &x; std::map<str, int> ga; if (it != o.nodes.end()) for (auto &kv : it->second.files) for (auto &f : kv.second) { str k = sfmt("%clo ", kv.first) + f.path; ga[k]++; auto e = ea.find(k); if (e == ea.end()) c.fail("C06,C08" + xt, "attach-extra", "flow entry " + k + " of " + d.s() + " belongs to no message"); else { if (e->second->prefix != f.prefix) c.fail("C06,C08" + xt, "attach-mark", "flow entry " + k + " of " + d.s() + " has the wrong mark"); if (e->second->have && c.sim.fs.read(f.path) != e->second->data) c.fail("C06,C08" + xt, "attach-content", "attached file " + f.path + " queued for " + d.s() + " has other content"); } }
      for (auto &kv : ea) if (ga[kv.first] != 1) c.fail("C06,C08,C01" + xt, "attach-missing", sfmt("flow entry %s of %s is there %d times", kv.first.c_str(), d.s().c_str(), ga[kv.first])); }
    std::set<str> chans; for (auto &kv : exp) chans.insert(kv.first); for (auto &kv : got) chans.insert(kv.first);
    for (auto &ch : chans) {
      auto &E = exp[ch]; auto &G = got[ch]; std::map<str, std::vector<const WireMsg *>> byUid; for (auto g : G) byUid[keyOf(g->m.subj, g->m.text)].push_back(g);
      std::map<str, int> need; for (auto e : E) need[e->uid]++;
      for (auto e : E) if (!byUid.count(e->uid) || (int)byUid[e->uid].size() < need[e->uid]) c.fail((e->area.empty() ? "C06,C01" : "C02,C01,C04") + xt, "missing", "queue '" + ch + "' of " + d.s() + " lacks " + describe(*e));
      for (auto g : G) { str u = keyOf(g->m.subj, g->m.text); if ((int)byUid[u].size() > need[u]) c.fail(((startsWith(g->m.text, "AREA:")) ? "C02,C04" : "C06") + xt, "extra", sfmt("queue '%s' of %s holds %zu copies of a message that should be there %d times: ", ch.c_str(), d.s().c_str(), byUid[u].size(), need[u]) + describe(*g)); }
      // automatic messages have no identity of their own: every one expected must be there
      { std::set<const WireMsg *> used; for (auto e : E) { if (e->must.empty() || (int)byUid[e->uid].size() != need[e->uid]) continue; str df, first; bool ok = false; for (auto g : byUid[e->uid]) if (!used.count(g)) { df = diffQueued(*e, *g, ch[0] == 'f'); if (df.empty()) { used.insert(g); ok = true; break; } if (first.empty()) first = df; } if (!ok) c.fail("C15,C06" + xt, "reply", describe(*e) + ": " + first); } }
      // order within each packet source address
      std::map<Addr, std::vector<const QMsg *>> grp; for (auto e : E) grp[e->porig].push_back(e);
      for (auto &kv : grp) { std::map<str, int> pos; int i = 0; for (auto g : G) pos[keyOf(g->m.subj, g->m.text)] = i++; int last = -1; const QMsg *le = nullptr; for (auto e : kv.second) { if (need[e->uid] > 1 || !byUid.count(e->uid)) continue; int p = pos[e->uid]; if (p < last) c.fail("C17" + xt, "order", "in queue '" + ch + "' of " + d.s() + " " + describe(*e) + " comes before " + le->uid); last = p; le = e; } }
      for (auto e : E) { if (need[e->uid] > 1 || !e->must.empty()) continue; if (byUid[e->uid].empty()) continue; str df = diffQueued(*e, *byUid[e->uid][0], ch[0] == 'f'); if (!df.empty()) c.fail((e->area.empty() ? "C06" : "C03") + xt, "content", describe(*e) + ": " + df); }
    }
  }
}
// the text a base should hold
str expectStoredText(const BMsg &b, BType t, bool) {
  if (t == B_MSG) return b.text;
  str r, l; auto flush = [&] { if (!l.empty() && l[0] != 1) r += l; l.clear(); };
  for (char ch : b.text) { if (ch == '\n') continue; l += ch; if (ch == '\r') flush(); } flush(); return r;
}
static str trimv(str s) { while (!s.empty() && (u8)s.back() <= 32) s.pop_back(); size_t i = 0; while (i < s.size() && (u8)s[i] <= 32) i++; return s.substr(i); }
// the date of a message as a JAM base keeps it (standard or SEAdog style), empty if the date cannot be understood
static str jamDate(const str &d) {
  if (d.size() == 19 && d[2] == ' ' && d[6] == ' ') return d;
  if (d.size() == 19 && d[3] == ' ' && d[6] == ' ' && d[10] == ' ' && d[13] == ' ') return sfmt("%02d ", atoi(d.c_str() + 4)) + d.substr(7, 6) + "  " + d.substr(14) + ":00";
  return "";
}
str diffStored(const BMsg &b, const RMsg &r, const AreaC &a) {
#define F(cond, what, e, g) if (cond) return str(what) + ": expected " + (e) + ", found " + (g)
  F(r.to != b.to, "to", esc(b.to), esc(r.to)); F(r.from != b.from, "from", esc(b.from), esc(r.from)); F(r.subj != b.subj, "subject", esc(b.subj), esc(r.subj));
  if (b.autogen) return "";
  if (a.base == B_MSG) {
    F(r.date != b.date, "date", esc(b.date), esc(r.date)); F(r.attr != b.attr, "attributes", sfmt("%x", b.attr), sfmt("%x", r.attr)); F(r.cost != b.cost, "cost", sfmt("%d", b.cost), sfmt("%d", r.cost));
    F(r.orig != b.orig, "origin address", b.orig.s4(), r.orig.s4()); F(r.dest != b.dest, "destination address", b.dest.s4(), r.dest.s4());
    if (a.kind == K_NETMAIL || !b.net) { str rt = normTid(r.text), bx = normTid(b.text); if (rt != bx) return "text " + firstDiff(bx, rt); } 
  } else {
    static const std::pair<int, u32> M[] = {{A_PVT, J_PRIVATE}, {A_CRASH, J_CRASH}, {A_SENT, J_SENT}, {A_LOCAL, J_LOCAL}, {A_HOLD, J_HOLD}, {A_RECD, J_READ}, {A_RREQ, J_RREQ}, {A_KILL, J_KILLSENT}, {A_TRANSIT, J_TRANSIT}, {A_FILE, J_FILE}, {A_FREQ, J_FREQ}, {A_ORPHAN, J_ORPHAN}};
    for (auto &x : M) F(!(b.attr & x.first) != !(r.jattr & x.second), sfmt("attribute %x", x.first), (b.attr & x.first) ? "set" : "clear", (r.jattr & x.second) ? "set" : "clear");
    { i64 t = (i64)r.processed - gTz; F(t < gClkMin || t > gClkMax, "date of import (local time)", fidoDate(gClkMax + gTz), fidoDate(r.processed)); }
    { str e = jamDate(b.date); F(!e.empty() && r.date != e, "date", e, r.date); }
    F(!(r.jattr & (b.net ? J_TYPENET : J_TYPEECHO)), "message type", b.net ? "netmail" : "echomail", "other");
    str e = expectStoredText(b, B_JAM, b.net); if (e.empty() && b.text.empty()) e = ""; if (r.text != e) return "text " + firstDiff(e, r.text);
    Addr x; if (b.net) { F(r.oaddr != b.orig.s() && r.oaddr != b.orig.s4(), "origin address", b.orig.s(), r.oaddr); F(r.daddr != b.dest.s() && r.daddr != b.dest.s4(), "destination address", b.dest.s(), r.daddr); } else F(r.oaddr != b.origin.s() && r.oaddr != b.origin.s4(), "origin address", b.origin.s(), r.oaddr);
    // kludges
    str msgid, reply, pid; std::vector<str> kl; str l; for (char ch : b.text + "\r") { if (ch == '\n') continue; if (ch != '\r') { l += ch; continue; } if (!l.empty() && l[0] == 1) { str k = l.substr(1); if (startsWith(k, "MSGID:")) msgid = trimv(k.substr(6)); else if (startsWith(k, "REPLY:")) reply = trimv(k.substr(6)); else if (startsWith(k, "PID:")) pid = trimv(k.substr(4)); else if (startsWith(k, "INTL") || startsWith(k, "TOPT") || startsWith(k, "FMPT") || startsWith(k, "FLAGS:")) ; else kl.push_back(trimv(k)); } l.clear(); }
    F(msgid.substr(0, 95) != r.msgid.substr(0, 95), "MSGID", esc(msgid), esc(r.msgid)); F(reply.substr(0, 95) != r.reply.substr(0, 95), "REPLY", esc(reply), esc(r.reply)); F(pid != r.pid, "PID", esc(pid), esc(r.pid));
    F(kl.size() != r.kl.size(), "number of kludges", sfmt("%zu", kl.size()), sfmt("%zu", r.kl.size())); for (size_t i = 0; i < kl.size(); i++) F(normTid("\1" + kl[i]).substr(1, 95) != normTid("\1" + r.kl[i]).substr(1, 95), "kludge", esc(kl[i]), esc(r.kl[i]));
  }
  if (!b.net && a.kind != K_BAD) { auto s = r.sb; F(s != b.sb, "SEEN-BY", sbStr(b.sb), sbStr(s)); }
  if (!b.net) F(!pathEq(r.path, b.path), "PATH", paStr(b.path), paStr(r.path));
#undef F
  return "";
}
// reply links of a JAM base: every link leads to a message that is in that relation by MSGID and REPLY;
// complete: all replies are linked and the chain of replies of a message holds exactly the messages linked to it
str jamLinks(const JamBase &b, bool quick, bool complete) {
  std::map<u32, const JamMsg *> at; for (auto &m : b.m) if (m.present) at[m.num] = &m; auto eq = [&](const str &x, const str &y) { return !x.empty() && (quick ? ieq(x, y) : x == y); }; auto id = [](const JamMsg &m) { return m.field(JF_MSGID); }; auto re = [](const JamMsg &m) { return m.field(JF_REPLY); };
  for (auto &kv : at) {
    auto &m = *kv.second; str w = sfmt("message %u ", m.num);
    if (m.replyTo && (!at.count(m.replyTo) || !eq(id(*at[m.replyTo]), re(m)))) return w + sfmt("is linked as reply to %u, which it is not", m.replyTo);
    if (m.reply1st && (!at.count(m.reply1st) || !eq(id(m), re(*at[m.reply1st])))) return w + sfmt("has %u as first reply, which is no reply to it", m.reply1st);
    if (m.replyNext && (!at.count(m.replyNext) || !eq(re(*at[m.replyNext]), re(m)) || m.replyNext == m.num)) return w + sfmt("has %u as next reply to the same message, which it is not", m.replyNext);
  }
  if (!complete) return "";
  for (auto &kv : at) { auto &m = *kv.second; if (re(m).empty() || m.replyTo) continue; for (auto &k2 : at) if (k2.first != kv.first && eq(id(*k2.second), re(m))) return sfmt("message %u is a reply to %u but not linked", m.num, k2.first); }
  for (auto &kv : at) { std::set<u32> want, got; for (auto &k2 : at) if (k2.second->replyTo == kv.first) want.insert(k2.first); for (u32 n = kv.second->reply1st; n && got.insert(n).second; n = at[n]->replyNext); if (want != got) return sfmt("the chain of replies to message %u has %zu messages, there are %zu replies", kv.first, got.size(), want.size()); }
  return "";
}
void cmpLinks(World &w, const AreaC &a, const str &xt, bool complete) {
  if (a.base != B_JAM || w.packed) return; JamBase b; str err; if (!parseJam(w.c.sim.fs, Vfs::norm("/bbs", a.path), b, err, false) || !b.exists) return; str df = jamLinks(b, w.cfg.has("JAM_QUICKLINK"), complete && w.cfg.has("JAM_LINK")); if (!df.empty()) w.c.fail("C10" + xt, "links", "area " + a.tag + ": " + df);
}
void cmpBases(World &w, Model &m, const str &xt) {
  auto &c = w.c;
  for (size_t i = 0; i < w.cfg.areas.size(); i++) {
    auto &a = w.cfg.areas[i]; if (a.base == B_NONE) continue; str bt = a.base == B_JAM ? "C10," : "C11,"; auto &E = m.stored[i]; std::vector<RMsg> G; str err;
    str kt = bt + (a.kind == K_NETMAIL ? "C06,C01" : a.kind == K_BAD ? "C02,C04,C06" : "C02,C01,C04");
    if (a.base == B_JAM && E.empty() && !c.sim.fs.exists(Vfs::norm("/bbs", a.path) + ".jhr")) continue;
    if (!readBase(c.sim.fs, a, G, err)) c.fail(bt + "C01,C12" + xt, "base", "message base of " + a.tag + " is damaged: " + err); if (!err.empty()) continue;
    std::map<str, int> have, need; for (auto &g : G) have[g.uid]++; for (auto &e : E) need[e.uid]++;
    for (auto &e : E) if (have[e.uid] < need[e.uid]) c.fail(kt + xt, "not-stored", "area " + a.tag + " lacks " + e.uid + " (" + esc(e.subj, 40) + ")" + (e.bad.empty() ? "" : " with reason \"" + e.bad + "\""));
    for (auto &g : G) if (have[g.uid] > need[g.uid]) c.fail(kt + xt, "stored-extra", sfmt("area %s holds %d copies of %s, expected %d", a.tag.c_str(), have[g.uid], g.uid.c_str(), need[g.uid]));
    if (E.size() != G.size()) continue;
    for (size_t k = 0; k < E.size(); k++) if (E[k].uid != G[k].uid) c.fail(bt + "C17" + xt, "stored-order", "area " + a.tag + ": message " + sfmt("%zu", k + 1) + " is " + G[k].uid + ", expected " + E[k].uid);
    cmpLinks(w, a, xt, true);
    for (size_t k = 0; k < E.size(); k++) { if (need[E[k].uid] > 1 || E[k].uid != G[k].uid) continue; str df = diffStored(E[k], G[k], a); if (!df.empty()) c.fail(bt + (a.kind == K_NETMAIL ? "C06" : a.kind == K_BAD ? "C02" : "C03") + xt, "stored-content", "area " + a.tag + ", " + E[k].uid + ": " + df); }
  }
}
