// Writing into message bases as editors do, and the model of exporting and rescanning from them.
#pragma once
#include "world.hpp"

struct ExpMsg { u32 num = 0; MM m; bool exportable = false, kill = false, deleted = false, zoneSet = false; str raw; JamMsg j; StoredMsg s; };   // one message of a base as the exporter should see it
u32 addToMsg(World &w, int area, const StoredMsg &s);
u32 addToJam(World &w, int area, JamMsg m);
// a message written by a local editor; returns its uid
str writeLocal(World &w, int area, bool forceLocal);
// killed: processes that were killed; incomplete *.msg files of theirs are passed over
bool loadExport(World &w, int area, bool rescan, std::vector<ExpMsg> &out, str &err, const std::set<int> *killed = nullptr);
// exports everything unsent of an area in the model; marks: what the base should look like afterwards
struct AreaMarks { std::set<u32> sent, killed; };
void modelScan(World &w, Model &m, int area, AreaMarks &k, const std::set<u32> *skip = nullptr);   // skip: messages that were not exported yet
int modelRescan(World &w, Model &m, int area, int node, u32 max);
// state of all bases, and the comparison with an earlier state
struct BaseState { std::map<int, std::vector<RMsg>> m; std::map<int, size_t> stored; std::map<int, JamBase> jam; std::map<int, u32> hi; };   // hi: highest number at the start of the run, if not that of the messages
str jamHeader(const JamBase &x, const JamBase &y, bool changed);
BaseState baseState(World &w, Model &m, const str &tags);
int jamAppend(const str &path, const JamMsg &m, int hold);   // to be called by native actors
str diffR(const RMsg &a, const RMsg &b, bool msg);
void cmpEvolution(World &w, Model &m, const BaseState &pre, std::map<int, AreaMarks> &marks, const str &tags);
