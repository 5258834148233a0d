#include "bases.hpp"
#include <cstring>

static str bpath(const AreaC &a) { return Vfs::norm("/bbs", a.path); }
u32 addToMsg(World &w, int ai, const StoredMsg &s) {
  auto &fs = w.c.sim.fs; str p = bpath(w.cfg.areas[ai]); fs.mkdirs(p); u32 hi = 1; for (auto &n : fs.list(p)) hi = std::max(hi, (u32)atoi(n.c_str()));
  u32 num = hi + 1; if (w.c.d.n(6) == 1) num += w.c.d.n(5); fs.put(sfmt("%s/%u.msg", p.c_str(), num), buildMsg(s, true), w.c.sim.now()); return num;
}
u32 addToJam(World &w, int ai, JamMsg m) {
  auto &fs = w.c.sim.fs; str p = bpath(w.cfg.areas[ai]); JamBase b; str err; if (fs.read(p + ".jhr").size() < 1024 || !parseJam(fs, p, b, err, false) || !b.exists) { b = JamBase(); b.baseNum = w.c.d.n(3) == 1 ? 1 + w.c.d.n(500) : 1; if (w.c.d.n(3) == 1) { b.created = w.c.sim.now() - w.c.d.n(100000000); b.pwCrc = 1 + w.c.d.n(1000000); b.modCounter = w.c.d.n(5000); } }
  m.present = true; b.m.push_back(m); b.modCounter++; writeJam(fs, p, b, w.c.sim.now()); return b.baseNum + b.m.size() - 1;
}
str writeLocal(World &w, int ai, bool force) {
  auto &d = w.c.d; SPAN(d, "local message"); auto &a = w.cfg.areas[ai]; Addr aka = w.cfg.akas[a.aka].a; bool net = a.kind == K_NETMAIL; PMsg p; str uid; Addr orig = aka, dest = aka;
  if (net) { orig = d.n(3) == 1 ? w.cfg.akas[d.n(w.cfg.akas.size())].a : aka; if (d.n(5) == 1) orig.p = 1 + d.n(9); dest = d.n(8) == 1 ? w.cfg.akas[d.n(w.cfg.akas.size())].a : w.anyDest(); p = w.genNet(orig, dest, aka, aka, uid); }
  else { p = w.genEcho(a.tag, aka, uid); size_t e = p.text.find('\r'); p.text = p.text.substr(e + 1); }
  int attr = 0; int k = d.n(8); if (k != 1) attr |= A_LOCAL; if (k == 2) attr |= A_SENT; if (force) attr = A_LOCAL; if (net && d.n(3) == 1) attr |= A_KILL; if (d.n(4) == 1) attr |= A_PVT; if (net && d.n(8) == 1) attr |= A_CRASH; if (net && d.n(8) == 1) attr |= A_HOLD; if (net && d.n(6) == 1) attr |= A_RREQ; if (d.n(10) == 1) attr |= A_RECD;
  str files; if (net && (w.opts & GO_ATTACH) && d.n(5) == 1) { attr |= A_FILE; int n = 1 + d.n(2); for (int i = 0; i < n; i++) { str f = "files/" + (i ? sfmt("b%d.zip", w.uidNo % 3) : uid + ".zip"); if (d.n(6) != 1) { w.c.sim.fs.mkdirs("/bbs/files"); w.c.sim.fs.put("/bbs/" + f, "attached file " + f + str(d.n(3000), 'z'), w.c.sim.now()); } if (a.base == B_JAM && i) break; files += (files.empty() ? "" : d.n(2) ? " " : ", ") + f; } p.subj = files; }
  w.c.note(sfmt("  local message %s written to %s: attributes %x%s", uid.c_str(), a.tag.c_str(), attr, net ? (", to " + dest.s()).c_str() : ""));
  if (a.base == B_MSG) {
    if (net && d.n(6) == 1) attr |= A_AUDIT; StoredMsg s; s.from = p.from; s.to = p.to; s.subj = p.subj; s.date = p.date; s.attr = attr; s.cost = p.cost; s.of = orig.f; s.on = orig.n; s.df = dest.f; s.dn = dest.n; if (net && d.n(2)) { s.oz = orig.z; s.dz = dest.z; s.op = orig.p; s.dp = dest.p; } s.timesRead = d.n(4) == 1 ? d.n(50) : 0; s.reply = d.n(5) == 1 ? d.n(20) : 0; s.text = p.text; addToMsg(w, ai, s);
  } else {
    JamMsg j; static const std::pair<int, u32> M[] = {{A_PVT, J_PRIVATE}, {A_CRASH, J_CRASH}, {A_SENT, J_SENT}, {A_LOCAL, J_LOCAL}, {A_HOLD, J_HOLD}, {A_RECD, J_READ}, {A_RREQ, J_RREQ}, {A_KILL, J_KILLSENT}, {A_FILE, J_FILE}}; for (auto &x : M) if (attr & x.first) j.attr |= x.second;
    j.attr |= net ? J_TYPENET : J_TYPEECHO; if (d.n(8) == 1) j.attr |= J_DIRECT; if (d.n(10) == 1) j.attr |= J_IMM; if (d.n(10) == 1) j.attr |= J_CONFIRM; if (!force && d.n(10) == 1) j.attr |= J_DELETED; j.cost = p.cost; j.written = w.c.sim.now() - d.n(1000000); j.processed = w.c.sim.now();
    if (!p.from.empty()) j.f.push_back({JF_FROM, 0, p.from}); if (!p.to.empty()) j.f.push_back({JF_TO, 0, p.to}); if (!(attr & A_FILE)) j.f.push_back({JF_SUBJ, 0, p.subj}); else j.f.push_back({JF_ENCLFILE, 0, files});
    j.f.push_back({JF_OADDR, 0, orig.s()}); if (net) j.f.push_back({JF_DADDR, 0, dest.s()});
    str l; for (char ch : p.text + (p.text.empty() || p.text.back() == '\r' ? "" : "\r")) { l += ch; if (ch != '\r') continue; str v = l.substr(0, l.size() - 1); auto tr = [](str s) { while (!s.empty() && s[0] == ' ') s = s.substr(1); return s; }; if (startsWith(v, "\1MSGID:")) j.f.push_back({JF_MSGID, 0, tr(v.substr(7))}); else if (startsWith(v, "\1REPLY:")) j.f.push_back({JF_REPLY, 0, tr(v.substr(7))}); else if (startsWith(v, "\1PID:")) j.f.push_back({JF_PID, 0, tr(v.substr(5))}); else if (startsWith(v, "\1PATH:")) j.f.push_back({JF_PATH, 0, tr(v.substr(6))}); else if (startsWith(v, "\1INTL") || startsWith(v, "\1FMPT") || startsWith(v, "\1TOPT")); else if (startsWith(v, "\1")) j.f.push_back({JF_KLUDGE, 0, v.substr(1)}); else if (!net && startsWith(v, "SEEN-BY: ")) j.f.push_back({JF_SEENBY, 0, v.substr(9)}); else j.text += l; l.clear(); }
    if (p.text.size() && p.text.back() != '\r' && j.text.size() && d.n(2)) j.text.pop_back();
    if (d.n(8) == 1) j.f.push_back({JF_FLAGS, 0, d.n(2) ? "XYZ" : "AB CDE"}); addToJam(w, ai, j);
  }
  return uid;
}
static std::vector<str> splitCR(const str &t) { std::vector<str> r; size_t i = 0; while (i < t.size()) { size_t j = i; str l; while (j < t.size() && t[j] != '\r' && t[j] != '\n' && l.size() < 198) l += t[j++]; if (l.size() < 198 && j < t.size() && (t[j] == '\r' || t[j] == '\n')) l += t[j++]; r.push_back(l); i = j; } return r; }
static const int EXPMASK = A_PVT | A_CRASH | A_FILE | A_FREQ | A_RREQ | A_IRRR | A_AUDIT | A_HOLD;
bool loadExport(World &w, int ai, bool rescan, std::vector<ExpMsg> &out, str &err, const std::set<int> *killed) {
  auto &fs = w.c.sim.fs; auto &cfg = w.cfg; auto &a = cfg.areas[ai]; Addr aka = cfg.akas[a.aka].a; bool net = a.kind == K_NETMAIL; str path = bpath(a); out.clear(); str res = "\1RESCANNED " + aka.s4() + "\r";
  auto common = [&](MM &m) { m.area = net ? "" : a.tag; m.exported = !rescan; m.rescanned = rescan; };
  if (a.base == B_MSG) {
    std::map<u32, str> files; for (auto &n : fs.list(path)) if (endsWith(lower(n), ".msg") && atoi(n.c_str()) > 1) files[atoi(n.c_str())] = n;
    for (auto &kv : files) {
      ExpMsg e; e.num = kv.first; e.raw = fs.read(path + "/" + kv.second); if (!parseMsg(e.raw, e.s, err)) { auto in = fs.lookup(path + "/" + kv.second); if (killed && killed->count(in->writer)) { err.clear(); continue; } return false; } auto &s = e.s; MM &m = e.m; common(m); e.exportable = (s.attr & A_LOCAL) && !(s.attr & A_SENT); e.kill = (s.attr & A_KILL) && net && cfg.has("ALLOWKILLSENT");
      m.orig = {0, s.on, s.of, 0}; m.dest = {0, s.dn, s.df, 0}; m.to = s.to.substr(0, 35); m.from = s.from.substr(0, 35); m.subj = s.subj.substr(0, 71); m.date = s.date.substr(0, 19); m.attr = s.attr & EXPMASK; m.cost = s.cost; bool done = false;
      auto insert = [&] { done = true; if (cfg.has("ADDTID") && !rescan) mmLine(m, "\1TID: CrashMail\r"); if (rescan) mmLine(m, res); if (net && (!m.dest.z || !m.orig.z)) { m.dest.z = m.orig.z = aka.z; e.zoneSet = true; if (cfg.has("FORCEINTL")) mmLine(m, sfmt("\1INTL %d:%d/%d %d:%d/%d\r", aka.z, s.dn, s.df, aka.z, s.on, s.of)); } };
      for (auto &l : splitCR(s.text)) { if (l[0] != 1 && l[0] != 10 && !done) insert(); mmLine(m, l); } if (!done) insert();
      m.uid = keyOf(m.subj, m.text); out.push_back(e);
    }
    return true;
  }
  JamBase b; if (fs.read(path + ".jhr").size() < 1024) return true; if (!parseJam(fs, path, b, err, false)) return false;
  for (auto &j : b.m) {
    ExpMsg e; e.num = j.num; e.j = j; MM &m = e.m; if (!j.present) { e.deleted = true; out.push_back(e); continue; } common(m); e.deleted = j.attr & J_DELETED; e.exportable = !e.deleted && (j.attr & J_LOCAL) && !(j.attr & J_SENT); e.kill = (j.attr & J_KILLSENT) && net && cfg.has("ALLOWKILLSENT"); str flags, file; bool da = false;
    for (auto &f : j.f) switch (f.lo) {
      case JF_OADDR: parseAddr(f.data, m.orig); break; case JF_DADDR: if (!da) { da = true; parseAddr(f.data, m.dest); } break; case JF_FROM: m.from = f.data.substr(0, 35); break; case JF_TO: m.to = f.data.substr(0, 35); break; case JF_SUBJ: m.subj = f.data.substr(0, 71); break;
      case JF_MSGID: mmLine(m, "\1MSGID: " + f.data + "\r"); break; case JF_REPLY: mmLine(m, "\1REPLY: " + f.data + "\r"); break; case JF_PID: mmLine(m, "\1PID: " + f.data + "\r"); break; case JF_KLUDGE: mmLine(m, "\1" + f.data + "\r"); break; case JF_SEENBY: mmLine(m, "SEEN-BY: " + f.data + "\r"); break; case JF_PATH: mmLine(m, "\1PATH: " + f.data + "\r"); break; case JF_FLAGS: flags = f.data; break; case JF_ENCLFILE: if (file.empty()) file = f.data; break; default: break; }
    if (!file.empty()) { m.attr |= A_FILE; m.subj = file.substr(0, 71); }
    static const std::pair<int, u32> M[] = {{A_PVT, J_PRIVATE}, {A_CRASH, J_CRASH}, {A_HOLD, J_HOLD}, {A_RREQ, J_RREQ}, {A_FILE, J_FILE}, {A_FREQ, J_FREQ}}; for (auto &x : M) if (j.attr & x.second) m.attr |= x.first; m.date = fidoDate(j.written); m.cost = (u16)j.cost;
    static const std::pair<u32, const char *> N[] = {{J_ARCHSENT, "A/S"}, {J_DIRECT, "DIR"}, {J_IMM, "IMM"}, {J_KILLFILE, "KFS"}, {J_TRUNC, "TFS"}, {J_CONFIRM, "CFM"}}; for (auto &x : N) if (j.attr & x.first) flags += (flags.empty() ? "" : " ") + str(x.second); if (!flags.empty()) mmLine(m, "\1FLAGS: " + flags + "\r");
    if (net) { if (m.orig.z != m.dest.z || cfg.has("FORCEINTL")) mmLine(m, sfmt("\1INTL %d:%d/%d %d:%d/%d\r", m.dest.z, m.dest.n, m.dest.f, m.orig.z, m.orig.n, m.orig.f)); if (m.orig.p) mmLine(m, sfmt("\1FMPT %d\r", m.orig.p)); if (m.dest.p) mmLine(m, sfmt("\1TOPT %d\r", m.dest.p)); }
    if (cfg.has("ADDTID") && !rescan) mmLine(m, "\1TID: CrashMail\r"); if (rescan) mmLine(m, res);
    str t = j.text; if (t == str(1, '\0')) t.clear(); if (!net) for (auto &l : splitLines(t, '\r')) if (startsWith(l, " * Origin: ")) { MM o; o.area = "x"; mmLine(o, l + "\r"); if (o.origin.n) m.origin = o.origin; } m.text += t;
    m.uid = keyOf(m.subj, m.text); out.push_back(e);
  }
  return true;
}
void modelScan(World &w, Model &m, int ai, AreaMarks &k, const std::set<u32> *skip) {
  std::vector<ExpMsg> v; str err; if (!loadExport(w, ai, false, v, err)) { w.c.fail("C07,C10,C11", "base", "message base of " + w.cfg.areas[ai].tag + " is damaged: " + err); return; } m.now = w.c.sim.now();
  for (auto &e : v) if (e.exportable && !(skip && skip->count(e.num))) { w.c.note("    exported by the model: " + e.m.uid + sfmt(" (#%u of %s)", e.num, w.cfg.areas[ai].tag.c_str())); (e.kill ? k.killed : k.sent).insert(e.num); MM t = e.m; m.handle(t); w.c.nontrivial = true; }
}
int modelRescan(World &w, Model &m, int ai, int ni, u32 max) {
  auto &a = w.cfg.areas[ai]; auto &aka = w.cfg.akas[a.aka].a; auto &n = w.cfg.nodes[ni]; std::vector<ExpMsg> v; str err; if (!loadExport(w, ai, true, v, err) || v.empty()) return 0; u32 hi = v.back().num, lo = v.front().num, start = lo; int cnt = 0; if (max && hi - lo + 1 > max) start = hi - max + 1;
  for (auto &e : v) { if (e.num < start || e.deleted) continue; MM t = e.m; auto add = [&](int net, int node) { for (auto &x : t.sb) if (x.first == net && x.second == node) return; t.sb.push_back({net, node}); }; if (!aka.p) add(aka.n, aka.f); if (!n.a.p) add(n.a.n, n.a.f); if (!aka.p || w.cfg.has("PATH3D")) pathAppend(t.path, aka); if (!t.text.empty() && t.text.back() != '\r') t.text += '\r'; m.sendEcho(t, ni, aka); cnt++; w.c.nontrivial = true; }
  return cnt;
}
BaseState baseState(World &w, Model &m, const str &tags) {
  BaseState s; for (size_t i = 0; i < w.cfg.areas.size(); i++) { auto &a = w.cfg.areas[i]; s.stored[i] = m.stored[i].size(); if (a.base == B_NONE || a.kind == K_DEFAULT) continue; if (a.base == B_JAM && w.c.sim.fs.read(bpath(a) + ".jhr").size() < 1024) continue; str err; std::vector<RMsg> G; static const std::set<int> none{-99}; if (!readBase(w.c.sim.fs, a, G, err, w.loose ? &none : nullptr)) w.c.fail((a.base == B_JAM ? "C10" : "C11") + tags, "base", "message base of " + a.tag + " is damaged: " + err); s.m[i] = G; if (a.base == B_JAM) parseJam(w.c.sim.fs, bpath(a), s.jam[i], err, false); } return s;
}
str diffR(const RMsg &a, const RMsg &b, bool msg) {
#define F(x) if (a.x != b.x) return #x;
  F(from) F(to) F(subj) F(date) F(cost) F(text) F(sb) F(pathLines) F(oaddr) F(daddr) F(msgid) F(reply) F(pid) F(flags) F(kl)
  if (msg && a.raw.substr(190) != b.raw.substr(190)) return "message text"; if (msg) { if (a.orig.n != b.orig.n || a.orig.f != b.orig.f || a.orig.p != b.orig.p) return "origin"; if (a.dest.n != b.dest.n || a.dest.f != b.dest.f || a.dest.p != b.dest.p) return "destination"; }
#undef F
  return "";
}
// header of a JAM base after a run that added, changed or removed messages (changed) or not
str jamHeader(const JamBase &x, const JamBase &y, bool changed) {
  if (x.created != y.created) return "the date of creation of the base changed"; if (x.pwCrc != y.pwCrc) return "the password of the base changed"; if (changed && y.modCounter <= x.modCounter) return sfmt("the base was changed, its modification counter went from %u to %u", x.modCounter, y.modCounter); return "";
}
void cmpEvolution(World &w, Model &m, const BaseState &pre, std::map<int, AreaMarks> &marks, const str &tags) {
  auto &c = w.c; BaseState now = baseState(w, m, tags);
  for (size_t i = 0; i < w.cfg.areas.size(); i++) {
    auto &a = w.cfg.areas[i]; if (a.base == B_NONE || a.kind == K_DEFAULT) continue; str bt = a.base == B_JAM ? "C10" : "C11"; bool msg = a.base == B_MSG; auto &K = marks[i]; std::vector<RMsg> P; if (pre.m.count(i)) P = pre.m.at(i); auto &G = now.m[i]; size_t from = pre.stored.count(i) ? pre.stored.at(i) : 0; auto &S = m.stored[i]; std::map<u32, const RMsg *> by; u32 hi = 0; for (auto &p : P) hi = std::max(hi, p.num); if (pre.hi.count(i)) hi = pre.hi.at(i); for (auto &g : G) by[g.num] = &g;
    if (tags.find("C12") == str::npos) cmpLinks(w, a, tags, false);
    if (!msg && pre.jam.count(i) && now.jam.count(i) && pre.jam.at(i).exists) { const JamBase &x = pre.jam.at(i), &y = now.jam[i]; bool ch = x.m.size() != y.m.size(); for (size_t k = 0; !ch && k < x.m.size(); k++) ch = x.m[k].attr != y.m[k].attr; str df = jamHeader(x, y, ch); if (!df.empty()) c.fail("C10" + tags, "base-header", "area " + a.tag + ": " + df); if (x.baseNum != y.baseNum) c.fail("C10" + tags, "base-header", "area " + a.tag + ": the number of the first message changed"); }
    for (auto &p : P) {
      bool kill = K.killed.count(p.num), sent = K.sent.count(p.num); auto it = by.find(p.num); str who = "area " + a.tag + sfmt(", message %u (", p.num) + p.uid + ")";
      if (kill) { if (it != by.end()) c.fail("C07," + bt + tags, "not-deleted", who + ": exported with kill-sent but not deleted"); continue; }
      if (it == by.end()) { c.fail("C07," + bt + ",C01" + tags, "vanished", who + " is gone"); continue; }
      const RMsg &g = *it->second; bool isSent = msg ? (g.attr & A_SENT) : (g.jattr & J_SENT); if (sent && !isSent) c.fail("C07," + bt + tags, "not-marked", who + ": exported but not marked sent");
      u32 oa = msg ? p.attr : p.jattr, na = msg ? g.attr : g.jattr; if (sent) oa |= msg ? A_SENT : J_SENT; if (oa != na) c.fail("C07," + bt + tags, "attr-changed", who + sfmt(": attributes are %x, expected %x", na, oa));
      if (!msg) { i64 t = (i64)g.processed - gTz; if (!sent && g.processed != p.processed) c.fail(bt + ",C07" + tags, "changed", who + ": date of processing was changed"); if (sent && g.processed != p.processed && (t < gClkMin || t > gClkMax)) c.fail(bt + ",C07" + tags, "processed-date", who + ": date of processing is " + fidoDate(g.processed) + ", it is " + fidoDate(c.sim.now() + gTz) + " local time"); }
      if (sent && w.cfg.has("MSG_WRITEBACK") && msg) continue; str df = diffR(p, g, msg); if (!df.empty()) c.fail(bt + ",C07" + tags, "changed", who + ": " + df + " was changed");
    }
    std::vector<const RMsg *> added; for (auto &g : G) { bool old = false; for (auto &p : P) if (p.num == g.num) old = true; if (!old) added.push_back(&g); }
    str kt = bt + (a.kind == K_NETMAIL ? ",C06,C01" : ",C02,C01"); size_t ne = S.size() - from;
    for (auto g : added) if (g->num <= hi) c.fail(bt + tags, "number-reused", "area " + a.tag + sfmt(": new message %u is not above the highest existing number %u", g->num, hi));
    if (added.size() != ne) { c.fail(kt + tags, "stored-count", "area " + a.tag + sfmt(": %zu messages were added, expected %zu", added.size(), ne)); continue; }
    for (size_t k = 0; k < ne; k++) { auto &e = S[from + k]; if (e.uid != added[k]->uid) { c.fail(kt + ",C17" + tags, "stored-order", "area " + a.tag + ": added message " + sfmt("%zu", k + 1) + " is " + added[k]->uid + ", expected " + e.uid); continue; } str df = diffStored(e, *added[k], a); if (!df.empty()) c.fail(bt + (a.kind == K_NETMAIL ? ",C06" : a.kind == K_BAD ? ",C02" : ",C03") + tags, "stored-content", "area " + a.tag + ", " + e.uid + ": " + df); }
  }
}
// another JAM program adding a message: lock, read, append text, header, index and base header, unlock
int jamAppend(const str &path, const JamMsg &m0, int hold) {
  str hf = path + ".jhr", xf = path + ".jdx", tf = path + ".jdt"; bool got = false; for (int i = 0; i < 40 && !got; i++) { got = sys::lock(hf); if (!got) sys::sleep(1); } if (!got) return 0; if (hold) sys::sleep(hold);
  JamBase b; str err; if (!sys::exists(hf) || !parseJam(gSim->fs, path, b, err)) { sys::unlock(hf); return -1; }
  JamMsg m = m0; m.present = true; str sub; for (auto &f : m.f) { put16(sub, f.lo); put16(sub, f.hi); put32(sub, f.data.size()); sub += f.data; } u32 num = b.baseNum + b.m.size(); size_t hs = sys::size(hf), ts = sys::size(tf), xs = sys::size(xf); str h("JAM\0", 4);
  sys::pwrite(tf, ts, m.text); put16(h, 1); put16(h, 0); put32(h, sub.size()); put32(h, m.timesRead); put32(h, m.field(JF_MSGID).empty() ? 0xffffffffu : jamCrc(m.field(JF_MSGID))); put32(h, m.field(JF_REPLY).empty() ? 0xffffffffu : jamCrc(m.field(JF_REPLY))); put32(h, m.replyTo); put32(h, m.reply1st); put32(h, m.replyNext); put32(h, m.written); put32(h, m.received); put32(h, m.processed); put32(h, num); put32(h, m.attr); put32(h, 0); put32(h, ts); put32(h, m.text.size()); put32(h, 0xffffffffu); put32(h, m.cost); h += sub; sys::pwrite(hf, hs, h);
  str x; put32(x, jamCrc(m.field(JF_TO))); put32(x, hs); sys::pwrite(xf, xs, x); str c; put32(c, b.modCounter + 1); put32(c, b.active + (m.attr & J_DELETED ? 0 : 1)); sys::pwrite(hf, 8, c); sys::unlock(hf); return num;
}
