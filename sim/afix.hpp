// AreaFix: model of requests, and the comparison of the configuration file with the model.
#pragma once
#include "bases.hpp"

str jbWord(const str &s, size_t &pos, size_t max, bool &ok);       // one word of a configuration or request line
struct ConfLine { str raw, key; };                                 // key: upper case first word
struct ConfBlock { bool area = false; str id; std::vector<str> lines; };   // lines of one NODE or AREA definition
struct ConfFile { std::vector<str> order; std::vector<ConfBlock> blocks; };   // order: headers ("N:addr", "A:TAG") and other lines, in sequence
ConfFile parseConf(const str &text);
bool parseAreaBlock(const Cfg &c, const ConfBlock &b, AreaC &a, str &err);
bool parseNodeBlock(const ConfBlock &b, NodeC &n, str &err);
str diffArea(const Cfg &c, const AreaC &e, const AreaC &g);
str diffNode(const NodeC &e, const NodeC &g);
str messyConfig(Draw &d, const str &text);                         // the same configuration with comments, blank lines, other spacing
// after a completed run: the file is what the model says, everything else is as it was; adopts paths the program had to choose
void cmpOrder(World &w, const str &text);                            // adopts the order of the areas in the file
void cmpConfig(World &w, Model &m, const str &oldText, const str &oldBak, const str &tags);
str confDiff(World &w, Model &m, const str &oldText, const str &text, bool touchedOnly);

struct ListC { int node; str file; bool fwd = false, desc = false; char group = 0; std::vector<std::pair<str, str>> areas; };
struct AfixWorld {
  World &w; Ctx &c; Model &m; std::vector<ListC> lists; int maxLines = 0; std::map<char, str> groupNames; bool help = true; std::vector<str> helpLines; bool rescans = true;
  AfixWorld(World &w, Model &m) : w(w), c(w.c), m(m) {}
  void config(bool exotic);                  // settings that concern AreaFix; before install
  void files();                              // lists of areas and help file
  void hook();                               // makes the model handle requests
  PMsg request(int node, Addr &from);        // a request with random commands
  void sendList(int type, int node, const str &to, const Addr &from);   // 'F' 'Q' 'U'
  void sendHelp(int node, const str &to, const Addr &from); void sendInfo(int node, const str &to, const Addr &from);
  void command(int type, int node);          // SENDLIST, ...: type 'F' 'Q' 'U' 'H' 'I'
  void removeArea(int ai);
  std::vector<std::pair<int, std::vector<str>>> remote; void addRemote(int node, const str &cmd); void sendRemote();
 private:
  struct Reply { str subj, text, to; Addr from, dest; int lines = 0, part = 1; };
  Reply init(const Addr &from, const str &to, const Addr &dest, const str &subj) { Reply r; r.from = from; r.to = to; r.dest = dest; r.subj = subj; return r; }
  void line(Reply &r, const str &s); void cmd(Reply &r, const str &c, const str &s); void send(Reply &r);
  void autoMail(const Addr &from, const Addr &to, const str &toName, const str &subj, const str &body);
  void areafix(MM &mm); void removeMessages(int ai);
  const ListC *findForward(const str &tag, const str &groups);
};
