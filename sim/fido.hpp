// FidoNet formats: addresses, packets, *.msg, JAM, dupe and statistics files (independent of the code under test).
#pragma once
#include "sim.hpp"
#include <tuple>
#include <algorithm>

struct Addr {
  int z = 0, n = 0, f = 0, p = 0;
  bool operator==(const Addr &o) const { return z == o.z && n == o.n && f == o.f && p == o.p; }
  bool operator!=(const Addr &o) const { return !(*this == o); }
  bool operator<(const Addr &o) const { return std::tie(z, n, f, p) < std::tie(o.z, o.n, o.f, o.p); }
  str s() const { return p ? sfmt("%d:%d/%d.%d", z, n, f, p) : sfmt("%d:%d/%d", z, n, f); }
  str s4() const { return sfmt("%d:%d/%d.%d", z, n, f, p); }
  bool same(const Addr &o) const { return (z == 0 || o.z == 0 || z == o.z) && n == o.n && f == o.f && p == o.p; }
};
bool parseAddr(const str &s, Addr &a);     // Z:N/F[.P]
str lower(str s); str upper(str s);
bool ieq(const str &a, const str &b);
bool startsWith(const str &s, const str &p); bool endsWith(const str &s, const str &p);
std::vector<str> splitLines(const str &s, char sep);
std::vector<str> words(const str &s); str normTid(const str &t);
str esc(const str &s, size_t max = 400);

inline void put16(str &s, unsigned v) { s += (char)(v & 255); s += (char)(v >> 8 & 255); }
inline void put32(str &s, u32 v) { put16(s, v & 0xffff); put16(s, v >> 16); }
inline unsigned get16(const str &s, size_t o) { return o + 2 <= s.size() ? (u8)s[o] | (u8)s[o + 1] << 8 : 0; }
inline u32 get32(const str &s, size_t o) { return get16(s, o) | (u32)get16(s, o + 2) << 16; }

enum { A_PVT = 1, A_CRASH = 2, A_RECD = 4, A_SENT = 8, A_FILE = 16, A_TRANSIT = 32, A_ORPHAN = 64, A_KILL = 128, A_LOCAL = 256, A_HOLD = 512, A_FREQ = 2048, A_RREQ = 4096, A_IRRR = 8192, A_AUDIT = 16384 };

struct PMsg {            // one packed message as it is on the wire
  int of = 0, df = 0, on = 0, dn = 0, attr = 0, cost = 0; str date, to, from, subj, text;
};
enum PktForm { PF_2PLUS, PF_2, PF_22 };   // 4D capability word, plain type 2 with qmail zones, 5D type 2.2
struct Pkt {
  Addr orig, dest; str pw; std::vector<PMsg> msgs; PktForm form = PF_2PLUS; int y = 2001, mo = 0, d = 1, h = 0, mi = 0, s = 0; bool auxnet = false; bool oneZero = false; bool zonesBoth = true; int badAt = -1; str raw;   // raw: what is really in the file; badAt: malformed after so many messages
};
str buildPkt(const Pkt &p); inline str pktBytes(const Pkt &p) { return p.badAt >= 0 || !p.raw.empty() ? p.raw : buildPkt(p); }
str buildPMsg(const PMsg &m);
bool parsePkt(const str &d, Pkt &p, str &err);   // strict

// echomail text
struct EchoText { str area, body; std::vector<std::pair<int, int>> seenby; std::vector<str> pathLines; std::vector<Addr> path; size_t sbLines = 0; size_t maxSbLine = 0; bool sbAfterBody = true; str err; };
EchoText parseEchoText(const str &t);
std::vector<Addr> parsePath(const std::vector<str> &lines, bool &ok);
str seenByLines(const std::vector<std::pair<int, int>> &v, size_t maxLen = 79);

// *.msg
struct StoredMsg { str from, to, subj, date; int timesRead = 0, df = 0, of = 0, cost = 0, on = 0, dn = 0, dz = 0, oz = 0, dp = 0, op = 0, reply = 0, attr = 0, next = 0; str text; };
str buildMsg(const StoredMsg &m, bool terminate = true);
bool parseMsg(const str &d, StoredMsg &m, str &err);

// JAM
struct JamField { unsigned lo, hi; str data; };
struct JamMsg {
  bool present = false;          // index entry valid
  u32 num = 0, attr = 0, attr2 = 0, txtOff = 0, txtLen = 0, replyTo = 0, reply1st = 0, replyNext = 0, written = 0, received = 0, processed = 0, msgidCrc = 0, replyCrc = 0, pwCrc = 0, cost = 0, timesRead = 0, userCrc = 0, hdrOff = 0;
  std::vector<JamField> f; str text;
  str field(unsigned lo) const { for (auto &x : f) if (x.lo == lo) return x.data; return ""; }
  std::vector<str> fields(unsigned lo) const { std::vector<str> r; for (auto &x : f) if (x.lo == lo) r.push_back(x.data); return r; }
};
struct JamBase { bool exists = false; u32 created = 0, modCounter = 0, active = 0, pwCrc = 0, baseNum = 0; std::vector<JamMsg> m; std::vector<std::tuple<u32, u32, u32, u32>> lr; };
enum { JF_OADDR = 0, JF_DADDR = 1, JF_FROM = 2, JF_TO = 3, JF_MSGID = 4, JF_REPLY = 5, JF_SUBJ = 6, JF_PID = 7, JF_ENCLFILE = 9, JF_KLUDGE = 2000, JF_SEENBY = 2001, JF_PATH = 2002, JF_FLAGS = 2003 };
enum { J_LOCAL = 1, J_TRANSIT = 2, J_PRIVATE = 4, J_READ = 8, J_SENT = 16, J_KILLSENT = 32, J_ARCHSENT = 64, J_HOLD = 128, J_CRASH = 256, J_IMM = 512, J_DIRECT = 1024, J_GATE = 2048, J_FREQ = 4096, J_FILE = 8192, J_TRUNC = 0x4000, J_KILLFILE = 0x8000, J_RREQ = 0x10000, J_CONFIRM = 0x20000, J_ORPHAN = 0x40000, J_TYPELOCAL = 0x00800000, J_TYPEECHO = 0x01000000, J_TYPENET = 0x02000000, J_NODISP = 0x20000000, J_LOCKED = 0x40000000 };
const u32 J_DELETED = 0x80000000u;
u32 jamCrc(const str &s);                 // lower-cased CRC32
bool parseJam(const Vfs &fs, const str &path, JamBase &b, str &err, bool checkActive = true);
// build a JAM base from scratch (valid)
void writeJam(Vfs &fs, const str &path, const JamBase &b, i64 now);

str fidoDate(i64 t);
