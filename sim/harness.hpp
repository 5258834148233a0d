// Choice sequences, violations, run context, fault planning.
#pragma once
#include "sim.hpp"
#include "fido.hpp"

struct Span { size_t a, b; str label; };
struct Draw {
  std::vector<u32> ch; size_t pos = 0; bool replay = false; u64 state = 0; std::vector<Span> spans;
  void seed(u64 s) { ch.clear(); pos = 0; replay = false; state = s; spans.clear(); }
  void load(const std::vector<u32> &c) { ch = c; pos = 0; replay = true; spans.clear(); }
  u32 n(u32 k);                         // 0..k-1, 0 is the simplest
  bool chance(u32 pct) { return n(100) >= 100 - pct; }   // 0 => false
  u32 range(u32 lo, u32 hi) { return lo + n(hi - lo + 1); }
  template <class T> const T &pick(const std::vector<T> &v) { return v[n(v.size())]; }
  u32 small(u32 max);                   // biased to small values
};
struct SpanGuard { Draw &d; size_t i; SpanGuard(Draw &d, const char *l) : d(d) { i = d.spans.size(); d.spans.push_back({d.pos, d.pos, l}); } ~SpanGuard() { d.spans[i].b = d.pos; } };
#define SPAN_C2(a,b) a##b
#define SPAN_C(a,b) SPAN_C2(a,b)
#define SPAN(d, l) SpanGuard SPAN_C(_sg, __LINE__)(d, l)

struct Violation { std::vector<str> tags; str cls, msg; };
struct Foreign { Violation v; };
struct Discard { str why; };

struct RunOut {                         // outcome of one simulated run
  bool violated = false, foreign = false, discarded = false; Violation v; str known;
  u64 hash = 0; bool nontrivial = false; std::vector<u32> choices; std::vector<Span> spans; std::vector<str> log; std::vector<str> events;
  double simSec = 0;
};
struct Ctx {
  Sim sim; Draw &d; str prop; int tier; bool verbose; std::vector<str> log; bool nontrivial = false; u64 obs = 1; double sim0 = 0;
  std::vector<str> fired;               // all faults fired so far
  bool haveForeign = false; Violation foreign; // first violation of another property seen in this run (the run goes on)
  // report a difference; throws when it concerns the property being decided, otherwise notes it and returns
  Ctx(Draw &d) : d(d) {}
  bool forProp(const str &id) const { return prop == id || prop == "*"; }
  void fail(const str &tags, const str &cls, const str &msg);
  void note(const str &s) { if (verbose) log.push_back(s); }
  void observe(u64 h) { obs = mix64(obs ^ h); }
  // run with abnormal-end detection: crashes/hangs are violations with these tags
  ProcResult run(const str &prog, const std::vector<str> &args, const std::vector<Fault> &faults = {}, const str &crashTags = "*");
  ProcResult run(const RunSpec &s, const str &crashTags = "*");
  std::vector<ProcResult> runAll(const std::vector<RunSpec> &s, const str &crashTags = "*");
  void checkEnd(const ProcResult &r, const RunSpec &s, const str &crashTags);
  // dry run of the same process from the current state, recording the points; state is restored
  ProcResult dry(const RunSpec &s);
  // choose a fault plan for this spec
  std::vector<Fault> planFaults(const ProcResult &dryRes, const struct FaultMenu &m);
};
struct FaultMenu { std::vector<FK> kinds; int maxFaults = 1; std::function<bool(FK, const PointRec &)> allow; };
extern u32 gTierScale;
typedef void (*ProfileFn)(Ctx &);
// known finding: the run is abandoned
extern const str *(*gKnownMatch)(const Violation &);
struct Profile { const char *name; ProfileFn fn; };
struct PropPlan { const char *id; std::vector<std::pair<str, double>> profiles; };   // profile name, share of the runs
extern std::vector<Profile> gProfiles;
extern std::vector<PropPlan> gPlans;
void registerProfiles();
RunOut runOne(const Profile &p, const str &prop, Draw &d, bool verbose);
