// The statistics file: reader, model over runs and days, and the expected report of the viewer.
#pragma once
#include "world.hpp"

struct StatFile {
  bool exists = false; u32 day = 0;
  struct A { str tag; char group; u32 total, last8[8], dupes; i64 first, last; };
  struct N { Addr a; u32 gotN, gotNB, sentN, sentNB, gotE, gotEB, sentE, sentEB, dupes; i64 first; };
  std::vector<A> areas; std::vector<N> nodes;
};
bool parseStats(const str &d, StatFile &s, str &err);
struct StatTrack {
  World &w; Model &m; u32 day = 0; std::vector<i64> nodeFirst; bool bytes = true;
  StatTrack(World &w, Model &m) : w(w), m(m) {}
  void commit(i64 t0, i64 t1);                       // a run that succeeded between t0 and t1 ends
  bool same(StatFile &s, i64 t0, i64 t1, str &diff); // does the file hold the model's state
  void check(i64 t0, i64 t1, const str &tags);       // commit and compare
  void viewer(const StatFile &s);                    // crashstats shows what the file holds
};
