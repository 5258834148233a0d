#include "fido.hpp"
#include <cstring>
#include <ctime>
#include <cstdlib>

str lower(str s) { for (auto &c : s) c = tolower((u8)c); return s; }
str upper(str s) { for (auto &c : s) c = toupper((u8)c); return s; }
bool ieq(const str &a, const str &b) { return lower(a) == lower(b); }
bool startsWith(const str &s, const str &p) { return s.compare(0, p.size(), p) == 0; }
bool endsWith(const str &s, const str &p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
std::vector<str> splitLines(const str &s, char sep) { std::vector<str> r; size_t i = 0; while (i < s.size()) { size_t j = s.find(sep, i); if (j == str::npos) { r.push_back(s.substr(i)); break; } r.push_back(s.substr(i, j - i + 1)); i = j + 1; } return r; }
std::vector<str> words(const str &s) { std::vector<str> r; str w; for (char c : s) { if (c == ' ' || c == '\t' || c == '\r' || c == '\n') { if (!w.empty()) r.push_back(w); w.clear(); } else w += c; } if (!w.empty()) r.push_back(w); return r; }
str esc(const str &s, size_t max) { str r; for (u8 c : s) { if (r.size() > max) { r += "..."; break; } if (c == '\r') r += "\\r"; else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) r += sfmt("\\x%02x", c); else r += (char)c; } return r; }
bool parseAddr(const str &s, Addr &a) { int z, n, f, p = 0; char x; if (sscanf(s.c_str(), "%d:%d/%d.%d%c", &z, &n, &f, &p, &x) == 4 || (p = 0, sscanf(s.c_str(), "%d:%d/%d%c", &z, &n, &f, &x) == 3)) { a = Addr{z, n, f, p}; return true; } return false; }
str fidoDate(i64 t0) { static const char *mn[] = {"Jan","Feb","Mar","Apr","May","Jun","Jul","Aug","Sep","Oct","Nov","Dec"}; time_t t = t0; struct tm tm; gmtime_r(&t, &tm); return sfmt("%02d %s %02d  %02d:%02d:%02d", tm.tm_mday, mn[tm.tm_mon], tm.tm_year % 100, tm.tm_hour, tm.tm_min, tm.tm_sec); }

// ------------------------------------------------------------ packets
str buildPMsg(const PMsg &m) { str s; put16(s, 2); put16(s, m.of); put16(s, m.df); put16(s, m.on); put16(s, m.dn); put16(s, m.attr); put16(s, m.cost); s += m.date; s += '\0'; s += m.to; s += '\0'; s += m.from; s += '\0'; s += m.subj; s += '\0'; s += m.text; s += '\0'; return s; }
str buildPkt(const Pkt &p) {
  str h; bool aux = p.auxnet && p.orig.p && p.form == PF_2PLUS;
  put16(h, p.orig.f); put16(h, p.dest.f);
  if (p.form == PF_22) { put16(h, p.orig.p); put16(h, p.dest.p); h += str(8, '\0'); put16(h, 2); }
  else { put16(h, p.y); put16(h, p.mo); put16(h, p.d); put16(h, p.h); put16(h, p.mi); put16(h, p.s); put16(h, 0); }
  put16(h, 2); put16(h, aux ? 0xffff : p.orig.n); put16(h, p.dest.n); h += (char)0xfe; h += (char)1;
  str pw = p.pw.substr(0, 8); pw.resize(8, '\0'); h += pw;
  put16(h, p.orig.z); put16(h, p.dest.z);                       // 34 qorigzone
  if (p.form == PF_22) { str dom("fidonet", 7); dom.resize(8, '\0'); h += dom; h += dom; h += str(4, '\0'); }
  else {
    put16(h, aux ? p.orig.n : 0);                                 // 38 auxnet
    if (p.form == PF_2PLUS) { h += (char)0x00; h += (char)0x01; h += (char)0; h += (char)5; h += (char)0x01; h += (char)0x00; } else { h += str(2, '\0'); h += (char)0; h += (char)5; h += (char)1; h += (char)0; }
    if (p.zonesBoth) { put16(h, p.orig.z); put16(h, p.dest.z); } else { put16(h, 0); put16(h, 0); }
    put16(h, p.orig.p); put16(h, p.dest.p); h += str(4, '\0');
  }
  str s = h; for (auto &m : p.msgs) s += buildPMsg(m); s += '\0'; if (!p.oneZero) s += '\0'; return s;
}
bool parsePkt(const str &d, Pkt &p, str &err) {
  p = Pkt(); if (d.size() < 60) { err = "packet shorter than header and terminator"; return false; }
  if (get16(d, 18) != 2) { err = "not a type 2 packet"; return false; }
  p.orig.f = get16(d, 0); p.dest.f = get16(d, 2); p.orig.n = get16(d, 20); p.dest.n = get16(d, 22); p.pw = str(d.data() + 26, strnlen(d.data() + 26, 8));
  p.orig.z = get16(d, 46); p.dest.z = get16(d, 48); p.orig.p = get16(d, 50); p.dest.p = get16(d, 52);
  p.y = get16(d, 4); p.mo = get16(d, 6); p.d = get16(d, 8);
  size_t o = 58;
  for (;;) {
    if (o + 2 > d.size()) { err = "packet not terminated"; return false; }
    unsigned t = get16(d, o); if (t == 0) { o += 2; break; }
    if (t != 2) { err = sfmt("unknown message type %u at offset %zu", t, o); return false; }
    if (o + 14 > d.size()) { err = "short message header"; return false; }
    PMsg m; m.of = get16(d, o + 2); m.df = get16(d, o + 4); m.on = get16(d, o + 6); m.dn = get16(d, o + 8); m.attr = get16(d, o + 10); m.cost = get16(d, o + 12); o += 14;
    str *fs[5] = {&m.date, &m.to, &m.from, &m.subj, &m.text}; size_t mx[5] = {20, 36, 36, 72, (size_t)-1};
    for (int i = 0; i < 5; i++) { size_t e = d.find('\0', o); if (e == str::npos) { err = "message not terminated"; return false; } *fs[i] = d.substr(o, e - o); if (fs[i]->size() + 1 > mx[i] && i < 4) { err = "header string too long"; return false; } o = e + 1; }
    p.msgs.push_back(m);
  }
  if (o != d.size()) { err = sfmt("%zu bytes after packet terminator", d.size() - o); return false; }
  return true;
}
std::vector<Addr> parsePath(const std::vector<str> &lines, bool &ok) {
  std::vector<Addr> r; ok = true;
  for (auto &l : lines) { int net = -1; for (auto &w : words(l)) { int n, f, p = 0; char x; Addr a; if (sscanf(w.c_str(), "%d/%d.%d%c", &n, &f, &p, &x) == 3 || (p = 0, sscanf(w.c_str(), "%d/%d%c", &n, &f, &x) == 2)) { net = n; a.n = n; a.f = f; a.p = p; } else if (sscanf(w.c_str(), "%d.%d%c", &f, &p, &x) == 2 || (p = 0, sscanf(w.c_str(), "%d%c", &f, &x) == 1)) { if (net < 0) ok = false; a.n = net < 0 ? 0 : net; a.f = f; a.p = p; } else { ok = false; continue; } r.push_back(a); } }
  return r;
}
EchoText parseEchoText(const str &t) {
  EchoText e; auto L = splitLines(t, '\r'); size_t i = 0;
  if (L.empty() || !startsWith(L[0], "AREA:")) { e.err = "no AREA line"; return e; }
  e.area = L[0].substr(5); while (!e.area.empty() && e.area.back() == '\r') e.area.pop_back(); i = 1;
  bool seen = false;
  for (; i < L.size(); i++) {
    const str &l = L[i];
    if (startsWith(l, "SEEN-BY:")) {
      seen = true; e.sbLines++; e.maxSbLine = std::max(e.maxSbLine, l.size() - 1); int net = -1;
      if (!e.pathLines.empty()) e.err = "SEEN-BY after PATH";
      for (auto &w : words(l.substr(8))) { int n, f; char x; if (sscanf(w.c_str(), "%d/%d%c", &n, &f, &x) == 2) net = n; else if (sscanf(w.c_str(), "%d%c", &f, &x) == 1) { if (net < 0) { e.err = "SEEN-BY line starts without net: " + l; net = 0; } } else { e.err = "bad SEEN-BY token " + w; continue; } e.seenby.push_back({net, f}); }
    } else if (startsWith(l, "\x01PATH:")) { seen = true; str x = l.substr(6); while (!x.empty() && x.back() == '\r') x.pop_back(); if (!x.empty() && x[0] == ' ') x.erase(0, 1); e.pathLines.push_back(x); }
    else { if (seen) e.sbAfterBody = false; e.body += l; }
  }
  bool ok; e.path = parsePath(e.pathLines, ok); if (!ok && e.err.empty()) e.err = "bad PATH"; return e;
}
str seenByLines(const std::vector<std::pair<int, int>> &v, size_t maxLen) {
  str out, line = "SEEN-BY:"; int net = -1; bool any = false;
  for (auto &x : v) { str t = x.first == net ? sfmt(" %d", x.second) : sfmt(" %d/%d", x.first, x.second); if (line.size() + t.size() > maxLen) { out += line + "\r"; line = "SEEN-BY:"; t = sfmt(" %d/%d", x.first, x.second); } line += t; net = x.first; any = true; }
  if (any) out += line + "\r"; return out;
}

// ------------------------------------------------------------ *.msg
static void fixed(str &s, const str &v, size_t n) { str x = v.substr(0, n - 1); x.resize(n, '\0'); s += x; }
str buildMsg(const StoredMsg &m, bool term) { str s; fixed(s, m.from, 36); fixed(s, m.to, 36); fixed(s, m.subj, 72); fixed(s, m.date, 20); for (int v : {m.timesRead, m.df, m.of, m.cost, m.on, m.dn, m.dz, m.oz, m.dp, m.op, m.reply, m.attr, m.next}) put16(s, v); s += m.text; if (term) s += '\0'; return s; }
bool parseMsg(const str &d, StoredMsg &m, str &err) {
  if (d.size() < 190) { err = "message file shorter than its header"; return false; }
  m.from = str(d.data(), strnlen(d.data(), 36)); m.to = str(d.data() + 36, strnlen(d.data() + 36, 36)); m.subj = str(d.data() + 72, strnlen(d.data() + 72, 72)); m.date = str(d.data() + 144, strnlen(d.data() + 144, 20));
  int *f[] = {&m.timesRead, &m.df, &m.of, &m.cost, &m.on, &m.dn, &m.dz, &m.oz, &m.dp, &m.op, &m.reply, &m.attr, &m.next}; for (int i = 0; i < 13; i++) *f[i] = get16(d, 164 + 2 * i);
  m.text = d.substr(190); size_t z = m.text.find('\0'); if (z == str::npos) { err = "message text not terminated"; return false; } if (z + 1 != m.text.size()) { err = "data after the end of the message text"; return false; } m.text.resize(z); return true;
}

// ------------------------------------------------------------ JAM
u32 jamCrc(const str &s0) { u32 c = 0xffffffffu; for (u8 ch : s0) { u8 b = (u8)tolower(ch); c ^= b; for (int i = 0; i < 8; i++) c = c & 1 ? (c >> 1) ^ 0xEDB88320u : c >> 1; } return c; }
bool parseJam(const Vfs &fs, const str &path, JamBase &b, str &err, bool checkActive) {
  b = JamBase(); str h, x, t, l; bool eh = fs.get(path + ".jhr", h), ex = fs.get(path + ".jdx", x), et = fs.get(path + ".jdt", t), el = fs.get(path + ".jlr", l);
  if (!eh && !ex && !et && !el) { b.exists = false; return true; }
  if (!eh || !ex || !et) { err = "some files of the base are missing"; return false; }
  b.exists = true;
  if (h.size() < 1024) { err = sfmt("base header incomplete (%zu bytes)", h.size()); return false; }
  if (h.compare(0, 4, str("JAM\0", 4)) != 0) { err = "base header signature wrong"; return false; }
  b.created = get32(h, 4); b.modCounter = get32(h, 8); b.active = get32(h, 12); b.pwCrc = get32(h, 16); b.baseNum = get32(h, 20);
  if (x.size() % 8 && !checkActive) x.resize(x.size() / 8 * 8);   // rest of an interrupted write, overwritten by the next message
  if (x.size() % 8) { err = sfmt("index size %zu is not a multiple of 8", x.size()); return false; }
  u32 act = 0; std::vector<std::pair<u32, u32>> hdrs, txts;
  for (size_t i = 0; i < x.size() / 8; i++) {
    JamMsg m; m.userCrc = get32(x, i * 8); m.hdrOff = get32(x, i * 8 + 4);
    if (m.hdrOff == 0xffffffffu) { m.present = false; m.num = b.baseNum + i; b.m.push_back(m); continue; }
    m.present = true; size_t o = m.hdrOff; str w = sfmt("message %u: ", b.baseNum + (u32)i);
    if (o < 1024 || o + 76 > h.size()) { err = w + sfmt("index points outside the header file (%zu of %zu)", o, h.size()); return false; }
    if (h.compare(o, 4, str("JAM\0", 4)) != 0) { err = w + "header signature wrong"; return false; }
    u32 sl = get32(h, o + 8); m.timesRead = get32(h, o + 12); m.msgidCrc = get32(h, o + 16); m.replyCrc = get32(h, o + 20); m.replyTo = get32(h, o + 24); m.reply1st = get32(h, o + 28); m.replyNext = get32(h, o + 32); m.written = get32(h, o + 36); m.received = get32(h, o + 40); m.processed = get32(h, o + 44); m.num = get32(h, o + 48); m.attr = get32(h, o + 52); m.attr2 = get32(h, o + 56); m.txtOff = get32(h, o + 60); m.txtLen = get32(h, o + 64); m.pwCrc = get32(h, o + 68); m.cost = get32(h, o + 72);
    if (m.num != b.baseNum + i) { err = w + sfmt("header says it is message %u", m.num); return false; }
    if (o + 76 + (size_t)sl > h.size()) { err = w + "subfields reach beyond the header file"; return false; }
    size_t q = o + 76, e = q + sl; while (q < e) { if (q + 8 > e) { err = w + "subfield header truncated"; return false; } JamField f; f.lo = get16(h, q); f.hi = get16(h, q + 2); u32 n = get32(h, q + 4); q += 8; if (q + (size_t)n > e) { err = w + "subfield data truncated"; return false; } f.data = h.substr(q, n); q += n; m.f.push_back(f); }
    if (m.txtLen) { if ((size_t)m.txtOff + m.txtLen > t.size()) { err = w + sfmt("text outside the text file (%u+%u of %zu)", m.txtOff, m.txtLen, t.size()); return false; } m.text = t.substr(m.txtOff, m.txtLen); }
    { auto crc = [&](int lo, u32 have) { str v; int n = 0; for (auto &f : m.f) if (f.lo == lo) { v = f.data; n++; } return n != 1 || v.empty() || have == jamCrc(v); };   // several or overlong ones: not specified
      if (!crc(JF_TO, m.userCrc)) { err = w + "the CRC of the recipient in the index is wrong"; return false; } if (!crc(JF_MSGID, m.msgidCrc)) { err = w + "the CRC of the MSGID is wrong: " + m.field(JF_MSGID); return false; } if (!crc(JF_REPLY, m.replyCrc)) { err = w + "the CRC of the REPLY is wrong: " + m.field(JF_REPLY); return false; } }
    hdrs.push_back({(u32)o, (u32)e}); if (m.txtLen) txts.push_back({m.txtOff, m.txtOff + m.txtLen});
    if (!(m.attr & J_DELETED)) act++;
    b.m.push_back(m);
  }
  for (auto *v : {&hdrs, &txts}) { std::sort(v->begin(), v->end()); for (size_t i = 1; i < v->size(); i++) if ((*v)[i].first < (*v)[i - 1].second) { err = v == &hdrs ? "headers of two messages overlap" : "texts of two messages overlap"; return false; } }
  if (checkActive && act != b.active) { err = sfmt("base header counts %u active messages, there are %u", b.active, act); return false; }
  for (size_t i = 0; i + 16 <= l.size(); i += 16) b.lr.push_back({get32(l, i), get32(l, i + 4), get32(l, i + 8), get32(l, i + 12)});
  if (l.size() % 16) { err = "lastread file size is not a multiple of 16"; return false; }
  return true;
}
void writeJam(Vfs &fs, const str &path, const JamBase &b, i64 now) {
  str h("JAM\0", 4), x, t, l; put32(h, b.created ? b.created : now); put32(h, b.modCounter); u32 act = 0; for (auto &m : b.m) if (m.present && !(m.attr & J_DELETED)) act++; put32(h, act); put32(h, b.pwCrc ? b.pwCrc : 0xffffffffu); put32(h, b.baseNum); h.resize(1024, '\0');
  u32 n = b.baseNum;
  for (auto &m : b.m) {
    if (!m.present) { put32(x, 0xffffffffu); put32(x, 0xffffffffu); n++; continue; }
    str sub; for (auto &f : m.f) { put16(sub, f.lo); put16(sub, f.hi); put32(sub, f.data.size()); sub += f.data; }
    put32(x, jamCrc(m.field(JF_TO))); put32(x, h.size());
    h += str("JAM\0", 4); put16(h, 1); put16(h, 0); put32(h, sub.size()); put32(h, m.timesRead);
    put32(h, m.field(JF_MSGID).empty() ? 0xffffffffu : jamCrc(m.field(JF_MSGID))); put32(h, m.field(JF_REPLY).empty() ? 0xffffffffu : jamCrc(m.field(JF_REPLY)));
    put32(h, m.replyTo); put32(h, m.reply1st); put32(h, m.replyNext); put32(h, m.written); put32(h, m.received); put32(h, m.processed); put32(h, n++); put32(h, m.attr); put32(h, 0); put32(h, t.size()); put32(h, m.text.size()); put32(h, 0xffffffffu); put32(h, m.cost); h += sub; t += m.text;
  }
  for (auto &r : b.lr) { put32(l, std::get<0>(r)); put32(l, std::get<1>(r)); put32(l, std::get<2>(r)); put32(l, std::get<3>(r)); }
  fs.put(path + ".jhr", h); fs.put(path + ".jdx", x); fs.put(path + ".jdt", t); fs.put(path + ".jlr", l);
}
