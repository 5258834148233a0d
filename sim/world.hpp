// A simulated FidoNet system: configuration, directories, outbound and message base readers, and the reference model.
#pragma once
#include "harness.hpp"

enum { L_RO = 1, L_WO = 2, L_FEED = 4 };
enum { N_PASSIVE = 1, N_NOSEENBY = 2, N_TINYSEENBY = 4, N_PACKNETMAIL = 8, N_AUTOADD = 16, N_NONETMAILPW = 32, N_NOTIFY = 64, N_FORWARDREQ = 128, N_SENDAREAFIX = 256, N_SENDTEXT = 512, N_NEEDSPLUS = 1024 };
enum { F_UNCONFIRMED = 1, F_MANDATORY = 2, F_DEFRO = 4, F_IGNOREDUPES = 8, F_IGNORESEENBY = 16 };
enum AKind { K_ECHO, K_NETMAIL, K_LOCAL, K_BAD, K_DEFAULT, K_DELETED };
enum BType { B_NONE, B_MSG, B_JAM };

struct AkaC { Addr a; str domain; std::vector<std::pair<int, int>> add; std::vector<str> rem; };
struct NodeC { Addr a; bool packer = true; str pw; unsigned flags = 0; char pri = 'N'; bool hasPktFrom = false; Addr pktFrom; str afpw, groups, rogroups, addgroups; char defgroup = 0; str rafName, rafPw, sysop; int packerIdx = 0; };
struct LinkC { int node; unsigned flags; };
struct AreaC { int pos = 1000000;   /* place in the configuration file, if known */
  str tag; AKind kind = K_ECHO; int aka = 0; BType base = B_NONE; str path; std::vector<LinkC> links; std::vector<Addr> imports; unsigned flags = 0; char group = 0; str desc; std::vector<int> banned; int keepNum = 0, keepDays = 0;
  // model state
  bool isNew = false, anyPath = false; str oldTag;   // anyPath: its path would be that of another area, so the program has to choose another
};
struct RouteC { str pat, dest; int aka; };        // dest: rendered destination pattern text (incl. keyword)
struct ChangeC { str types, pat, to; };           // types like "NORMAL,CRASH", to = flavour
struct Cfg {
  std::vector<AkaC> akas; std::vector<NodeC> nodes; std::vector<AreaC> areas; std::vector<RouteC> routes; std::vector<ChangeC> changes; std::vector<str> bounces, fileattach; std::set<str> sw; // switches
  int defZone = 2; int dupeSize = 0; str dupeMode = "BAD"; str loopMode = "IGNORE"; int maxPkt = 0, maxBundle = 0; str sysop = "Sys Op"; std::vector<str> afNames{"AreaFix"}; str extra; bool nodelist = false; std::map<Addr, std::pair<int, int>> nl; str nlText;   // nodelist: node -> region, hub
  str stats = "crashmail.stats"; bool hasStats = true; int logLevel = 1; bool domains = false; std::vector<str> arealists; str out = "/bbs/out"; str filters; bool comments = false;
  std::map<str, str> openFlow;   // flow files a mailer left without a final line end
  bool has(const char *s) const { return sw.count(s) > 0; }
  int findNode(const Addr &a) const { for (size_t i = 0; i < nodes.size(); i++) if (nodes[i].a.same(a)) return i; return -1; }
  bool isAka(const Addr &a) const { for (auto &k : akas) if (k.a.same(a)) return true; return false; }
  int findArea(const str &t) const { for (size_t i = 0; i < areas.size(); i++) if (ieq(areas[i].tag, t)) return i; return -1; }
  int badArea() const { for (size_t i = 0; i < areas.size(); i++) if (areas[i].kind == K_BAD) return i; return -1; }
  str text() const;
};
str renderArea(const Cfg &c, const AreaC &a);

extern const Cfg *gNl;                              // configuration whose nodelist REGION and HUB refer to
bool patMatch(const str &pat, const Addr &a);      // pattern of ROUTE/CHANGE/... ("Z:N/F.P" with wildcards)
Addr patExpand(const str &pat, const Addr &a);     // destination patterns: "*" copying
bool wildMatch(const str &pat, const str &s);

struct MM {                                        // message inside the reference model
  Addr orig, dest, porig, pdest, origin; str area, to, from, subj, date, msgid, reply, text; int attr = 0, cost = 0; bool tossed = false, exported = false, nosec = false, rescanned = false, autogen = false, twit = false, kill = false;
  std::vector<std::pair<int, int>> sb; std::vector<str> path; str uid, body; char type = 0;   // body: exact text of an automatic message
};
void mmLine(MM &m, const str &line);
void mmText(MM &m, const str &text, bool first);   // first: AREA: line allowed
void pathAppend(std::vector<str> &path, const Addr &a);

struct QMsg {                                      // expected queued message
  Addr dest, porig; str pw; char type = 0;         // N C D H (netmail) or E
  PMsg m; str area, body; std::vector<std::pair<int, int>> sb; std::vector<Addr> path; str uid; str kind; std::vector<str> must; bool viaLine = false; Addr viaAka, fo, fd; int seq = 0;
};
struct BMsg {                                      // expected stored message
  str uid; str from, to, subj, date; int attr = 0, cost = 0; Addr orig, dest; bool net = false; str text; std::vector<std::pair<int, int>> sb; std::vector<Addr> path; str bad; Addr origin; str msgid, reply; bool loose = false; std::vector<str> must; bool autogen = false;
};
struct Attach { Addr dest; char ch = 'f'; str path; char prefix = 0; str data; bool have = false; };   // expected file in a flow file
struct NodeStat { u32 autoN = 0, gotN = 0, gotE = 0, sentN = 0, sentE = 0, dupes = 0; u64 gotNB = 0, gotEB = 0, sentNB = 0, sentEB = 0; i64 firstTime = 0; };
struct AreaStat { u32 total = 0, dupes = 0; u32 last8[8] = {}; i64 firstTime = 0, lastTime = 0; u32 newTexts = 0, newDupes = 0; bool seen = false; };

struct Model {
  Cfg &c; std::vector<QMsg> out; std::map<int, std::vector<BMsg>> stored; std::vector<str> dupes; std::vector<NodeStat> ns; std::vector<AreaStat> as; int seq = 0; i64 now = 0; bool cfgChanged = false; int lost = 0, depth = 0;
  std::vector<str> afRequests; std::set<int> autoAdded;
  std::function<void(MM &)> filter;                // model of configured filters
  std::function<void(MM &)> areafix;
  std::vector<Attach> attach; std::function<void(const str &file, const Addr &dest, char type, bool exported)> attachHook;
  std::set<int> touchedAreas, touchedNodes; std::function<bool(const str &tag, int node, str &desc)> descHook;
  Model(Cfg &c) : c(c) { ns.resize(c.nodes.size()); as.resize(c.areas.size()); }
  void handle(MM &m);
  void echo(MM &m); void netmail(MM &m);
  int addArea(const str &tag, const Addr &from, const Addr &my, bool active, bool passthru = false); void removeArea(int ai);
  void writeBad(MM &m, const str &reason);
  void sendEcho(MM &m, int node, const Addr &aka);
  void sendNet(MM &m, const Addr &dest, const Addr &aka);
  void bounce(MM &m, const str &reason, bool headerOnly);
  void store(MM &m, int area, const str &bad);
  bool dupe(const MM &m);
};

// ---- readers of the real state
struct WireMsg { Addr porig, pdest; str pw; PMsg m; str file; char form = 0; };
struct FlowFile { str path; char prefix; };
struct NodeOut { std::map<char, std::vector<WireMsg>> ut, flow; std::map<char, std::vector<FlowFile>> files; std::map<char, int> packets; };
struct Outbound { std::map<Addr, NodeOut> nodes; std::vector<str> problems; std::set<str> referenced; std::vector<str> pending; };
str baseName(const Cfg &c, const Addr &a);
Outbound readOutbound(const Vfs &fs, const Cfg &c, const std::set<Addr> &universe);
// all stored messages of an area (in order), in a common form
struct RMsg { str uid; str from, to, subj, date; int attr = 0, cost = 0; Addr orig, dest; str text; std::vector<std::pair<int, int>> sb; std::vector<str> pathLines; std::vector<Addr> path; u32 jattr = 0, processed = 0; u32 num = 0; str raw; std::vector<str> kl; str oaddr, daddr, msgid, reply, pid, flags; bool partial = false; };
// killed: processes that were killed while writing; a *.msg last written by one may be incomplete and is then marked partial
bool readBase(const Vfs &fs, const AreaC &a, std::vector<RMsg> &out, str &err, const std::set<int> *killed = nullptr);
void startWorld(Ctx &c);

struct InFile { str name; bool bundle; i64 mtime; std::vector<std::pair<str, Pkt>> pkts; str data; int bad = 0; };   // bad: bundle that cannot be unpacked (2: empty, vanishes)
struct Round { std::vector<InFile> files; bool nosec = false; std::set<str> expectBad; std::map<str, str> badData; };   // inbound files of one toss
bool isMailFile(const str &leaf);
struct World {
  bool tattach = false, looseAttach = false; std::map<str, str> inFiles; std::set<str> takenIn, addedPk;   // files next to the mail in inbound; what this round moves to the packet directory
  Ctx &c; Cfg cfg; std::set<Addr> universe; int replies = 4, uidNo = 0, pktNo = 0, msgidNo = 0; std::map<str, MM> sent; // by uid
  World(Ctx &c) : c(c) {}
  unsigned opts = 0; bool badPkts = false, plainText = false, loose = false, smallAlphabet = false, packed = false;   // loose: the counter of active JAM messages may be off (after a fault); packed: messages were removed, links may lead nowhere
  str newUid() { return sfmt("UID%05d", ++uidNo); }
  void genConfig(unsigned opts);
  void install();                                  // directories and config file
  void writeConfig() { c.sim.fs.put("/bbs/crashmail.prefs", cfg.text(), c.sim.now()); }
  Addr anyAddr(); Addr anyDest();
  str genBody(unsigned opts); str genName(int max); str genSubj(int max);
  PMsg genEcho(const str &tag, const Addr &from, str &uid); PMsg genNet(Addr &orig, Addr &dest, const Addr &porig, const Addr &pdest, str &uid);
  Pkt genPkt(int fromNode); std::vector<str> msgids; std::vector<Pkt> oldPk; std::set<str> usedNames;
  void tossAttach(Model &m); void damage(Pkt &p); Round genRound(int maxFiles); void modelRound(Model &m, Round &r, bool notes = true);
  void mailerTakes(Model *m, const Addr &a, std::vector<WireMsg> *got = nullptr);  // a mailer empties the queue of a system
  void noteState();
};
// comparisons of the real state with the model; each reports the first difference through Ctx::fail
struct Cmp { World &w; Model &m; bool faults = false; };
void cmpQueue(World &w, Model &m, const str &extraTags = "", const Outbound *before = nullptr);   // before: what mailers took earlier
void cmpBases(World &w, Model &m, const str &extraTags = "");
void cmpLinks(World &w, const AreaC &a, const str &extraTags, bool complete);
str describe(const QMsg &q); str describe(const WireMsg &q);
str expectStoredText(const BMsg &b, BType t, bool net);
str diffStored(const BMsg &b, const RMsg &r, const AreaC &a);
str diffQueued(const QMsg &q, const WireMsg &x, bool checkOrig);
enum { GO_NETMAIL = 1, GO_AUTOADD = 2, GO_SIMPLE = 4, GO_JAM = 8, GO_NOBUNDLE = 16, GO_BOUNCE = 32, GO_PASSTHRU = 64, GO_STRICT = 128, GO_ATTACH = 256 };
MM toMM(const Pkt &p, const PMsg &m, const Cfg &c, bool nosec);
str uidOf(const str &text);
str keyOf(const str &subj, const str &text);       // identity of a message: its UID, or UID/kind for automatic replies
std::vector<std::pair<int, int>> sbSet(std::vector<std::pair<int, int>> v);   // sorted, unique, without 0/0
std::vector<Addr> pathAddrs(const std::vector<str> &lines);
str pw8(const str &s);
