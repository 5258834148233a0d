// Driver: seeded search over simulated runs, minimisation, replay files, evidence.
#include "world.hpp"
#include <cstring>
#include <cstdlib>
#include <unistd.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/personality.h>
#include <unordered_set>
#include <fstream>
#include <sstream>

std::vector<Profile> gProfiles; std::vector<PropPlan> gPlans; u32 gTierScale = 1;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static const Profile *findProfile(const str &n) { for (auto &p : gProfiles) if (n == p.name) return &p; return nullptr; }
static const PropPlan *findPlan(const str &n) { for (auto &p : gPlans) if (n == p.id) return &p; return nullptr; }
static u64 runSeed(u64 base, const str &profile, u64 idx) { return mix64(mix64(base * 0x9e3779b97f4a7c15ull + 12345) ^ hashStr(profile)) ^ mix64(idx + 777); }
static str jesc(const str &s) { str r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) r += sfmt("\\u%04x", c); else r += c; } return r; }
static std::vector<str> knownLines(const str &file) { std::vector<str> v; std::ifstream f(file); str l; while (std::getline(f, l)) v.push_back(l); return v; }
// known findings: "known: property=<id> class=<cls> match=<substring> :: description"
struct Known { str prop, cls, match, desc; };
static std::vector<Known> loadKnown() {
  std::vector<Known> r; const char *kf = getenv("SIM_KNOWN"); if (!kf) return r;
  for (auto &l : knownLines(kf)) { if (!startsWith(l, "known:")) continue; Known k; size_t d = l.find(" :: "); str h = l.substr(0, d); k.desc = d == str::npos ? "" : l.substr(d + 4); auto get = [&](const char *n) { size_t p = h.find(str(n) + "="); if (p == str::npos) return str(); size_t b = p + strlen(n) + 1; if (b < h.size() && h[b] == '"') { size_t e = h.find('"', b + 1); return h.substr(b + 1, e - b - 1); } size_t e = h.find(' ', b); return h.substr(b, e == str::npos ? str::npos : e - b); }; k.prop = get("property"); k.cls = get("class"); k.match = get("match"); r.push_back(k); }
  return r;
}
static std::vector<Known> gKnown;
static const Known *isKnown(const str &prop, const Violation &v) { for (auto &k : gKnown) if (k.prop == prop && k.cls == v.cls && v.msg.find(k.match) != str::npos) return &k; return nullptr; }

static const str *knownAny(const Violation &v) { for (auto &k : gKnown) if (k.cls == v.cls && v.msg.find(k.match) != str::npos) return &k.desc; return nullptr; }
struct Agg { u64 runs = 0, nontrivial = 0, discarded = 0, foreign = 0; std::unordered_set<u64> hashes; std::map<str, u64> foreignCls; std::map<str, u64> known; double simSec = 0; };
static void wr(int fd, const void *p, size_t n) { const char *c = (const char *)p; while (n) { ssize_t k = write(fd, c, n); if (k <= 0) _exit(3); c += k; n -= k; } }
static bool rd(int fd, void *p, size_t n) { char *c = (char *)p; while (n) { ssize_t k = read(fd, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
static void wrs(int fd, const str &s) { u32 n = s.size(); wr(fd, &n, 4); wr(fd, s.data(), n); }
static bool rds(int fd, str &s) { u32 n; if (!rd(fd, &n, 4)) return false; s.resize(n); return rd(fd, &s[0], n); }

struct Found { bool have = false; u64 idx = 0; str profile; Violation v; std::vector<u32> choices; std::vector<Span> spans; u64 hash = 0; };
struct Job { const Profile *p; u64 idx; };

static void worker(int w, int nw, int fd, const str &prop, const std::vector<std::pair<const Profile *, u64>> &plan, u64 seed, double deadline, int progressFd) {
  Agg a; Found f; u64 g = 0; bool stop = false;
  // interleave the profiles proportionally: global index order is (k-th run of each profile)
  u64 maxN = 0; for (auto &x : plan) maxN = std::max(maxN, x.second);
  std::vector<double> acc(plan.size(), 0); 
  for (u64 k = 0; k < maxN && !stop; k++) for (size_t pi = 0; pi < plan.size() && !stop; pi++) {
    if ((u64)((double)plan[pi].second * (k + 1) / maxN) == (u64)((double)plan[pi].second * k / maxN)) continue;
    u64 i = (u64)((double)plan[pi].second * k / maxN); u64 id = g++; if ((int)(id % nw) != w) continue;
    if (now() > deadline) { stop = true; break; }
    u64 rec[2] = {id, i | (u64)pi << 48}; if (progressFd >= 0) pwrite(progressFd, rec, 16, w * 16);
    Draw d; d.seed(runSeed(seed, plan[pi].first->name, i)); RunOut o = runOne(*plan[pi].first, prop, d, false);
    a.runs++; if (o.discarded) a.discarded++; if (o.foreign) { a.foreign++; str t = o.v.cls + " [" ; for (auto &x : o.v.tags) t += x + ","; a.foreignCls[str(plan[pi].first->name) + ": " + t + "] " + o.v.msg.substr(0, 160)]++; }
    if (o.nontrivial) { a.nontrivial++; a.hashes.insert(o.hash); }
    if (o.violated) { if (auto k2 = isKnown(prop, o.v)) { a.known[k2->desc]++; continue; } f.have = true; f.idx = id; f.profile = plan[pi].first->name; f.v = o.v; f.choices = o.choices; f.spans = o.spans; f.hash = o.hash; stop = true; }
  }
  wr(fd, &a.runs, 8); wr(fd, &a.nontrivial, 8); wr(fd, &a.discarded, 8); wr(fd, &a.foreign, 8); u64 nh = a.hashes.size(); wr(fd, &nh, 8); for (u64 h : a.hashes) wr(fd, &h, 8);
  u32 nf = std::min<size_t>(a.foreignCls.size(), 50); wr(fd, &nf, 4); for (auto &kv : a.foreignCls) { if (!nf--) break; wrs(fd, kv.first); wr(fd, &kv.second, 8); }
  nf = a.known.size(); wr(fd, &nf, 4); for (auto &kv : a.known) { wrs(fd, kv.first); wr(fd, &kv.second, 8); }
  wr(fd, &gStats.procs, 8); wr(fd, &gStats.points, 8); wr(fd, &gStats.allocs, 8); wr(fd, &gStats.switches, 8); wr(fd, &gStats.dryruns, 8); wr(fd, &gStats.simSeconds, 8); wr(fd, gStats.faults, sizeof gStats.faults);
  nf = gStats.counters.size(); wr(fd, &nf, 4); for (auto &kv : gStats.counters) { wrs(fd, kv.first); wr(fd, &kv.second, 8); }
  u8 have = f.have; wr(fd, &have, 1); if (have) { wr(fd, &f.idx, 8); wrs(fd, f.profile); wrs(fd, f.v.cls); wrs(fd, f.v.msg); u32 n = f.choices.size(); wr(fd, &n, 4); wr(fd, f.choices.data(), 4 * n); n = f.spans.size(); wr(fd, &n, 4); for (auto &s : f.spans) { u32 x[2] = {(u32)s.a, (u32)s.b}; wr(fd, x, 8); } wr(fd, &f.hash, 8); }
}
// run one choice sequence in a child process; returns false if the child died
static bool runChild(const Profile &p, const str &prop, const std::vector<u32> &ch, RunOut &o, bool verbose, double limit = 60) {
  int pf[2]; if (pipe(pf)) return false; fflush(stdout); pid_t pid = fork();
  if (!pid) { close(pf[0]); alarm((int)limit); Draw d; d.load(ch); RunOut r = runOne(p, prop, d, verbose); u8 b[3] = {r.violated, r.foreign, r.discarded}; wr(pf[1], b, 3); wr(pf[1], &r.hash, 8); wrs(pf[1], r.v.cls); wrs(pf[1], r.v.msg); u32 n = r.choices.size(); wr(pf[1], &n, 4); wr(pf[1], r.choices.data(), 4 * n); n = r.spans.size(); wr(pf[1], &n, 4); for (auto &s : r.spans) { u32 x[2] = {(u32)s.a, (u32)s.b}; wr(pf[1], x, 8); wrs(pf[1], s.label); } n = r.log.size(); wr(pf[1], &n, 4); for (auto &s : r.log) wrs(pf[1], s); n = r.events.size(); wr(pf[1], &n, 4); for (auto &s : r.events) wrs(pf[1], s); _exit(0); }
  close(pf[1]); u8 b[3]; bool ok = rd(pf[0], b, 3) && rd(pf[0], &o.hash, 8) && rds(pf[0], o.v.cls) && rds(pf[0], o.v.msg); u32 n = 0;
  if (ok) { o.violated = b[0]; o.foreign = b[1]; o.discarded = b[2]; ok = rd(pf[0], &n, 4); o.choices.resize(n); ok = ok && rd(pf[0], o.choices.data(), 4 * n) && rd(pf[0], &n, 4); o.spans.clear(); for (u32 i = 0; ok && i < n; i++) { u32 x[2]; str l; ok = rd(pf[0], x, 8) && rds(pf[0], l); o.spans.push_back({x[0], x[1], l}); } ok = ok && rd(pf[0], &n, 4); for (u32 i = 0; ok && i < n; i++) { str s; ok = rds(pf[0], s); o.log.push_back(s); } ok = ok && rd(pf[0], &n, 4); for (u32 i = 0; ok && i < n; i++) { str s; ok = rds(pf[0], s); o.events.push_back(s); } }
  close(pf[0]); int st; waitpid(pid, &st, 0); return ok;
}
static std::vector<u32> minimise(const Profile &p, const str &prop, std::vector<u32> best, const str &cls, double budget, int &tried) {
  double end = now() + budget; tried = 0;
  auto test = [&](const std::vector<u32> &c, std::vector<Span> *sp, std::vector<u32> *norm) { tried++; Draw d; d.load(c); RunOut o = runOne(p, prop, d, false); bool ok = o.violated && o.v.cls == cls && !isKnown(prop, o.v); if (ok) { if (sp) *sp = o.spans; if (norm) { *norm = o.choices; while (!norm->empty() && norm->back() == 0) norm->pop_back(); } } return ok; };
  std::vector<Span> sp; if (!test(best, &sp, &best)) return best;
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    // delete whole spans, largest first
    for (bool again = true; again && now() < end;) { again = false; auto s2 = sp; std::sort(s2.begin(), s2.end(), [](const Span &a, const Span &b) { return a.b - a.a > b.b - b.a; });
      for (auto &s : s2) { if (s.b <= s.a || s.a >= best.size() || now() > end) continue; std::vector<u32> c(best.begin(), best.begin() + s.a); if (s.b < best.size()) c.insert(c.end(), best.begin() + s.b, best.end()); if (c.size() < best.size()) { std::vector<u32> nb; std::vector<Span> ns; if (test(c, &ns, &nb) && nb.size() < best.size()) { best = nb; sp = ns; again = progress = true; break; } }
        c = best; bool any = false; for (size_t i = s.a; i < s.b && i < c.size(); i++) if (c[i]) { c[i] = 0; any = true; } if (any) { std::vector<u32> nb; std::vector<Span> ns; if (test(c, &ns, &nb) && nb.size() <= best.size()) { best = nb; sp = ns; again = progress = true; break; } } } }
    for (size_t blk = 64; blk >= 1 && now() < end; blk /= 2) for (size_t i = 0; i < best.size() && now() < end; i += blk) { auto c = best; bool any = false; for (size_t j = i; j < i + blk && j < c.size(); j++) if (c[j]) { c[j] = 0; any = true; } if (!any) continue; std::vector<u32> nb; std::vector<Span> ns; if (test(c, &ns, &nb)) { best = nb; sp = ns; progress = true; } }
    for (size_t i = 0; i < best.size() && now() < end; i++) while (best[i] > 1 && now() < end) { auto c = best; c[i] /= 2; std::vector<u32> nb; std::vector<Span> ns; if (test(c, &ns, &nb)) { best = nb; sp = ns; progress = true; if (i >= best.size()) break; } else break; }
  }
  return best;
}
static str writeReplay(const str &dir, const Profile &p, const str &prop, const std::vector<u32> &ch, const RunOut &o, u64 seed, u64 idx, size_t origLen, int tried) {
  mkdir(dir.c_str(), 0777); str path = dir + "/" + prop + "-" + p.name + sfmt("-%016llx.replay", (unsigned long long)o.hash); std::ofstream f(path);
  f << "# replay with: ./replay.sh " << path << "\nproperty " << prop << "\nprofile " << p.name << "\nseed " << seed << " run " << idx << "\nclass " << o.v.cls << "\nhash " << sfmt("%016llx", (unsigned long long)o.hash) << "\nchoices"; for (u32 x : ch) f << " " << x;
  f << "\n# minimised from " << origLen << " to " << ch.size() << " choices in " << tried << " simulated runs\n# VIOLATION " ; str m = o.v.msg; for (char &c : m) if (c == '\n') c = ' '; f << m << "\n# --- history\n"; for (auto &l : o.log) for (auto &x : splitLines(l, '\n')) f << "# " << esc(x, 2000) << "\n"; f << "# --- schedule and system call trace (last 400)\n"; size_t b = o.events.size() > 400 ? o.events.size() - 400 : 0; for (size_t i = b; i < o.events.size(); i++) f << "# " << esc(o.events[i], 300) << "\n"; return path;
}
static int replay(const str &file) {
  std::ifstream f(file); if (!f) { printf("cannot read %s\n", file.c_str()); return 2; } str l, prop, prof, hash; std::vector<u32> ch;
  while (std::getline(f, l)) { if (l.empty() || l[0] == '#') continue; std::istringstream s(l); str w; s >> w; if (w == "property") s >> prop; else if (w == "profile") s >> prof; else if (w == "hash") s >> hash; else if (w == "choices") { u32 x; while (s >> x) ch.push_back(x); } }
  auto p = findProfile(prof); if (!p) { printf("unknown profile %s\n", prof.c_str()); return 2; }
  RunOut o; if (!runChild(*p, prop, ch, o, true)) { printf("VIOLATION property=%s replay=%s\nthe simulated program killed the simulator process\n", prop.c_str(), file.c_str()); return 1; }
  for (auto &x : o.log) printf("%s\n", x.c_str()); if (getenv("TRACE")) for (auto &x : o.events) printf("  %s\n", x.c_str());
  printf("hash %016llx (recorded %s)\n", (unsigned long long)o.hash, hash.c_str());
  if (o.violated) { printf("class %s\n%s\nVIOLATION property=%s replay=%s\n", o.v.cls.c_str(), o.v.msg.c_str(), prop.c_str(), file.c_str()); return 1; }
  if (o.foreign) printf("other property: %s: %s\n", o.v.cls.c_str(), o.v.msg.c_str()); puts("no violation of this property"); return 0;
}
static int check(const str &prop, const str &tier, u64 seed, const str &evdir, const str &rpdir) {
  double t0 = now(); auto plan = findPlan(prop); if (!plan) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
  bool th = tier == "thorough"; double scale = th ? 15 : 1; if (getenv("SIM_SCALE")) scale *= atof(getenv("SIM_SCALE"));
  double cap = th ? 780 : 200; if (getenv("SIM_CAP")) cap = atof(getenv("SIM_CAP"));
  std::vector<std::pair<const Profile *, u64>> pl; for (auto &x : plan->profiles) { auto p = findProfile(x.first); if (!p) { fprintf(stderr, "no profile %s\n", x.first.c_str()); return 2; } pl.push_back({p, (u64)(x.second * scale)}); }
  int nw = getenv("SIM_JOBS") ? atoi(getenv("SIM_JOBS")) : 8; std::vector<pid_t> pids; std::vector<int> fds; char tmpl[] = "/tmp/simprogXXXXXX"; int pfd = mkstemp(tmpl); unlink(tmpl);
  for (int w = 0; w < nw; w++) { int pf[2]; pipe(pf); fflush(stdout); pid_t pid = fork(); if (!pid) { close(pf[0]); for (int x : fds) close(x); worker(w, nw, pf[1], prop, pl, seed, t0 + cap, pfd); _exit(0); } close(pf[1]); pids.push_back(pid); fds.push_back(pf[0]); }
  Agg a; Found best; std::map<str, u64> counters; Stats st; std::vector<int> dead;
  for (int w = 0; w < nw; w++) {
    int fd = fds[w]; u64 x[4], nh; bool ok = rd(fd, x, 32) && rd(fd, &nh, 8); if (ok) { a.runs += x[0]; a.nontrivial += x[1]; a.discarded += x[2]; a.foreign += x[3]; for (u64 i = 0; i < nh; i++) { u64 h; rd(fd, &h, 8); a.hashes.insert(h); } u32 nf; rd(fd, &nf, 4); while (nf--) { str s; u64 v; rds(fd, s); rd(fd, &v, 8); a.foreignCls[s] += v; } rd(fd, &nf, 4); while (nf--) { str s; u64 v; rds(fd, s); rd(fd, &v, 8); a.known[s] += v; }
      u64 v[5]; rd(fd, v, 40); st.procs += v[0]; st.points += v[1]; st.allocs += v[2]; st.switches += v[3]; st.dryruns += v[4]; double sd; rd(fd, &sd, 8); st.simSeconds += sd; u64 ft[FK_N][PT_N]; rd(fd, ft, sizeof ft); for (int i = 0; i < FK_N; i++) for (int j = 0; j < PT_N; j++) st.faults[i][j] += ft[i][j];
      rd(fd, &nf, 4); while (nf--) { str s; u64 v2; rds(fd, s); rd(fd, &v2, 8); counters[s] += v2; }
      u8 have; rd(fd, &have, 1); if (have) { Found f; f.have = true; rd(fd, &f.idx, 8); rds(fd, f.profile); rds(fd, f.v.cls); rds(fd, f.v.msg); u32 n; rd(fd, &n, 4); f.choices.resize(n); rd(fd, f.choices.data(), 4 * n); rd(fd, &n, 4); f.spans.resize(n); for (auto &s : f.spans) { u32 y[2]; rd(fd, y, 8); s.a = y[0]; s.b = y[1]; } rd(fd, &f.hash, 8); if (!best.have || f.idx < best.idx) best = f; } }
    else dead.push_back(w);
    close(fd); int s; waitpid(pids[w], &s, 0);
  }
  double searchWall = now() - t0; int violations = 0; str vline;
  if (!best.have && !dead.empty()) { // a worker died: the run it was in is the counterexample if it reproduces
    for (int w : dead) { u64 rec[2]; if (pread(pfd, rec, 16, w * 16) != 16) continue; u64 i = rec[1] & 0xffffffffffffull; auto p = pl[rec[1] >> 48].first; Draw d; u64 sd = runSeed(seed, p->name, i); int pf[2]; pipe(pf); fflush(stdout); pid_t pid = fork(); if (!pid) { alarm(60); d.seed(sd); runOne(*p, prop, d, false); _exit(0); } close(pf[0]); close(pf[1]); int s; waitpid(pid, &s, 0); if (WIFSIGNALED(s) || WEXITSTATUS(s)) { mkdir(rpdir.c_str(), 0777); str path = rpdir + "/" + prop + "-" + p->name + sfmt("-seed%llu.died", (unsigned long long)i); std::ofstream f(path); f << "the simulator process died in profile " << p->name << " seed " << seed << " run " << i << ": run with ./.build/simbin one " << p->name << " " << prop << " " << seed << " " << i << "\n"; printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str()); printf("the simulated program damaged the simulator process (signal %d)\n", WTERMSIG(s)); violations = 1; break; } }
    if (!violations) { fprintf(stderr, "a simulation worker died without a reproducible cause\n"); return 2; }
  }
  if (best.have) {
    auto p = findProfile(best.profile); int tried = 0; RunOut o1, o2, o3; std::vector<u32> min = best.choices; 
    // confirm in fresh processes, minimise in a child
    bool c1 = runChild(*p, prop, best.choices, o1, false) && o1.violated && o1.hash == best.hash;
    if (!c1) { fprintf(stderr, "internal error: run %llu of %s is not reproducible (%s: %s)\n", (unsigned long long)best.idx, best.profile.c_str(), best.v.cls.c_str(), best.v.msg.c_str()); return 2; }
    int pf[2]; pipe(pf); fflush(stdout); pid_t pid = fork(); if (!pid) { close(pf[0]); alarm(th ? 120 : 60); int t; auto m = minimise(*p, prop, best.choices, best.v.cls, th ? 60 : 30, t); u32 n = m.size(); wr(pf[1], &t, 4); wr(pf[1], &n, 4); wr(pf[1], m.data(), 4 * n); _exit(0); }
    close(pf[1]); u32 n; if (rd(pf[0], &tried, 4) && rd(pf[0], &n, 4)) { std::vector<u32> m(n); if (rd(pf[0], m.data(), 4 * n)) min = m; } close(pf[0]); int s; waitpid(pid, &s, 0);
    if (!(runChild(*p, prop, min, o2, true) && o2.violated && o2.v.cls == best.v.cls && runChild(*p, prop, min, o3, true) && o3.hash == o2.hash)) { min = best.choices; o2 = RunOut(); runChild(*p, prop, min, o2, true); }
    str path = writeReplay(rpdir, *p, prop, min, o2, seed, best.idx, best.choices.size(), tried); printf("%s: %s\n", o2.v.cls.c_str(), o2.v.msg.c_str()); printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str()); violations = 1;
  }
  for (auto &k : gKnown) if (k.prop == prop) printf("KNOWN-FINDING: property=%s %s\n", prop.c_str(), k.desc.c_str());
  // evidence
  std::vector<str> samples; for (size_t pi = 0; pi < pl.size() && samples.size() < 3; pi++) for (u64 i = 0; i < 40; i++) { Draw d; d.seed(runSeed(seed, pl[pi].first->name, i)); RunOut o; { Draw d2 = d; int pf; RunOut t; runOne(*pl[pi].first, prop, d2, false); if (!runChild(*pl[pi].first, prop, d2.ch, o, true)) break; t = o; } if (o.log.size() < 3 || o.discarded) continue; str s = str("profile ") + pl[pi].first->name + sfmt(", run %llu: ", (unsigned long long)i); for (auto &l : o.log) { s += l + " | "; if (s.size() > 1500) break; } samples.push_back(s); break; }
  mkdir(evdir.c_str(), 0777); std::ofstream e(evdir + "/" + prop + ".json"); u64 nf = 0; str fj; for (int i = 0; i < FK_N; i++) for (int j = 0; j < PT_N; j++) if (st.faults[i][j]) { nf += st.faults[i][j]; fj += sfmt("%s\"%s at %s\": %llu", fj.empty() ? "" : ", ", fkName[i], ptName[j], (unsigned long long)st.faults[i][j]); }
  str cj; for (auto &kv : counters) cj += sfmt("%s\"%s\": %llu", cj.empty() ? "" : ", ", jesc(kv.first).c_str(), (unsigned long long)kv.second); str pj; for (auto &x : pl) pj += sfmt("%s\"%s\": %llu", pj.empty() ? "" : ", ", x.first->name, (unsigned long long)x.second);
  e << "{\"property\": \"" << prop << "\", \"tier\": \"" << tier << "\", \"seed\": " << seed << ", \"level\": \"exploration\", \"violations\": " << violations << ", \"wall_s\": " << sfmt("%.2f", now() - t0) << ",\n \"coverage\": {\"evaluations\": " << a.runs << ", \"distinct_nontrivial\": " << a.hashes.size() << ",\n  \"rule\": \"one evaluation is one simulated run of a profile (generated configuration, mail, schedule, faults, reruns) from its own seed; non-trivial means the run processed mail or reached the decision the property is about; distinct means a different hash of the complete system call trace, final file system and observations\",\n";
  e << "  \"nontrivial_runs\": " << a.nontrivial << ", \"discarded_runs\": " << a.discarded << ", \"runs_stopped_by_other_properties\": " << a.foreign << ", \"runs_per_hour\": " << (u64)(a.runs / std::max(searchWall, 0.01) * 3600) << ", \"seeds_per_hour\": " << (u64)(a.runs / std::max(searchWall, 0.01) * 3600) << ", \"simulated_seconds\": " << sfmt("%.0f", st.simSeconds) << ", \"simulated_processes\": " << st.procs << ", \"system_calls\": " << st.points << ", \"allocations\": " << st.allocs << ", \"context_switches\": " << st.switches << ", \"dry_runs_for_fault_placement\": " << st.dryruns << ", \"faults_injected\": " << nf << ",\n  \"faults_by_kind\": {" << fj << "},\n  \"planned_runs_by_profile\": {" << pj << "}, \"counters\": {" << cj << "},\n  \"distinct_states_measure\": \"64-bit hash over trace, final file system and observations\",\n  \"real_components\": [\"every crashmail and tool source file under /repo/src for Linux (compiled unchanged)\"], \"stub_components\": [\"file system, directory order, clock, sleep, locks, malloc, process scheduling (simulator)\", \"archiver commands (simzip, simunzip)\", \"mailers, operators and foreign JAM users (model actors)\"],\n  \"samples\": [";
  for (size_t i = 0; i < samples.size(); i++) e << (i ? ", " : "") << "\"" << jesc(samples[i]) << "\""; e << "]},\n \"assumptions\": [\"a crash is a process kill at any system call: what was written before survives\", \"after a kill the operator removes stale lock files\", \"faults are those listed in faults_by_kind\"]}\n"; e.close();
  printf("%s %s: %llu runs, %llu non-trivial, %zu distinct, %llu faults, %.1f s, %.0f runs/s\n", prop.c_str(), tier.c_str(), (unsigned long long)a.runs, (unsigned long long)a.nontrivial, a.hashes.size(), (unsigned long long)nf, searchWall, a.runs / searchWall);
  if (getenv("SIM_FOREIGN")) for (auto &kv : a.foreignCls) printf("  foreign %llu x %s\n", (unsigned long long)kv.second, kv.first.c_str());
  return violations ? 1 : 0;
}
int main(int argc, char **argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOREEXEC")) { personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE); setenv("SIM_NOREEXEC", "1", 1); execv("/proc/self/exe", argv); }
  setvbuf(stdout, nullptr, _IOLBF, 0); setenv("TZ", "UTC", 1); tzset(); simInitProcess(); registerProfiles(); gKnown = loadKnown(); gKnownMatch = knownAny;
  str cmd = argc > 1 ? argv[1] : ""; const char *sv = getenv("VERIF_SEED"); u64 seed = sv && *sv ? strtoull(sv, 0, 10) : 1; str dir = getenv("SIM_DIR") ? getenv("SIM_DIR") : "/verif";
  if (cmd == "check" && argc > 3) return check(argv[2], argv[3], seed, getenv("SIM_EV") ? getenv("SIM_EV") : dir + "/evidence", getenv("SIM_RP") ? getenv("SIM_RP") : dir + "/evidence/replays");
  if (cmd == "replay" && argc > 2) return replay(argv[2]);
  if (cmd == "one" && argc > 5) { auto p = findProfile(argv[2]); Draw d; d.seed(runSeed(strtoull(argv[4], 0, 10), argv[2], strtoull(argv[5], 0, 10))); RunOut o = runOne(*p, argv[3], d, getenv("V") != nullptr); for (auto &l : o.log) puts(l.c_str()); if (getenv("TRACE")) for (auto &x : o.events) printf("  %s\n", x.c_str()); printf("hash %016llx violated %d foreign %d discarded %d\n%s: %s\n", (unsigned long long)o.hash, o.violated, o.foreign, o.discarded, o.v.cls.c_str(), o.v.msg.c_str()); return o.violated; }
  if (cmd == "survey" && argc > 3) { // survey profile n: classes of violations over many runs
    auto p = findProfile(argv[2]); u64 n = strtoull(argv[3], 0, 10); int nw = 8; std::vector<int> fds; for (int w = 0; w < nw; w++) { int pf[2]; pipe(pf); if (!fork()) { std::map<str, std::pair<u64, str>> cls; u64 nt = 0, dc = 0; for (u64 i = w; i < n; i += nw) { Draw d; d.seed(runSeed(seed, p->name, i)); RunOut o = runOne(*p, argc > 4 ? argv[4] : "*", d, false); nt += o.nontrivial; dc += o.discarded; if (o.violated) { str t; for (auto &x : o.v.tags) t += x + ","; auto &c = cls[o.v.cls + " [" + t + "]"]; if (!c.first++) c.second = sfmt("run %llu: ", (unsigned long long)i) + o.v.msg.substr(0, 600); } } u32 k = cls.size(); wr(pf[1], &nt, 8); wr(pf[1], &dc, 8); wr(pf[1], &k, 4); for (auto &kv : cls) { wrs(pf[1], kv.first); wr(pf[1], &kv.second.first, 8); wrs(pf[1], kv.second.second); } _exit(0); } close(pf[1]); fds.push_back(pf[0]); }
    std::map<str, std::pair<u64, str>> all; u64 nt = 0, dc = 0; double t0 = now(); for (int fd : fds) { u64 a, b; u32 k; if (!rd(fd, &a, 8)) { puts("worker died"); continue; } rd(fd, &b, 8); rd(fd, &k, 4); nt += a; dc += b; while (k--) { str s, m; u64 c; rds(fd, s); rd(fd, &c, 8); rds(fd, m); auto &x = all[s]; if (!x.first || atoi(m.c_str() + 4) < atoi(x.second.c_str() + 4)) x.second = m; x.first += c; } } while (wait(nullptr) > 0);
    printf("%s: %llu runs, nontrivial %llu, discarded %llu, %.1f s\n", argv[2], (unsigned long long)n, (unsigned long long)nt, (unsigned long long)dc, now() - t0); for (auto &kv : all) printf("%6llu x %s\n         %s\n", (unsigned long long)kv.second.first, kv.first.c_str(), kv.second.second.c_str()); return 0; }
  if (cmd == "list") { for (auto &p : gPlans) { printf("%s:", p.id); for (auto &x : p.profiles) printf(" %s=%.0f", x.first.c_str(), x.second); puts(""); } return 0; }
  fprintf(stderr, "usage: simbin check ID quick|thorough | replay FILE | one PROFILE PROP SEED RUN | survey PROFILE N\n"); return 2;
}
