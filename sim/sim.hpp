// Deterministic simulator: virtual file system, clock, processes, scheduler, fault injection.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <cstdio>
#include <ctime>

typedef std::string str;
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef int64_t i64;

u64 mix64(u64 x);
u64 hashBytes(const void *p, size_t n, u64 h = 0xcbf29ce484222325ull);
inline u64 hashStr(const str &s, u64 h = 0xcbf29ce484222325ull) { return hashBytes(s.data(), s.size(), h); }
str sfmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- VFS
struct FLock { int pid; i64 start, end; bool wr; };
struct Inode {
  bool dir = false;
  str data;
  i64 mtime = 0;
  u64 ino = 0;
  int writer = 0;                       // last writing process
  std::map<str, std::shared_ptr<Inode>> ents;
  std::vector<FLock> locks;
};
typedef std::shared_ptr<Inode> InodeP;

struct Vfs {
  InodeP root;
  u64 nextIno = 2;
  u64 dirSeed = 0;
  Vfs();
  Vfs clone() const;
  static str norm(const str &cwd, const str &path);      // absolute normalised path
  InodeP lookup(const str &abs) const;
  InodeP parent(const str &abs, str &leaf) const;
  bool exists(const str &p) const { return (bool)lookup(p); }
  bool isDir(const str &p) const { auto i = lookup(p); return i && i->dir; }
  // harness-side helpers (no points, no faults)
  void mkdirs(const str &p);
  void put(const str &p, const str &data, i64 mtime = -1);
  bool get(const str &p, str &out) const;
  str read(const str &p) const { str s; get(p, s); return s; }
  bool del(const str &p);
  bool mv(const str &a, const str &b);
  std::vector<str> list(const str &dir) const;           // names, sorted
  std::vector<str> files(const str &dir) const;          // recursive, absolute paths of regular files
  u64 hash() const;
};

// ---------------------------------------------------------------- points and faults
enum PT { PT_OPENR, PT_OPENW, PT_OPENU, PT_READ, PT_WRITE, PT_CLOSE, PT_STAT, PT_OPENDIR, PT_READDIR,
          PT_RENAME, PT_REMOVE, PT_MKDIR, PT_LOCK, PT_SYSTEM, PT_CHDIR, PT_SLEEP, PT_TRUNC, PT_EXIT, PT_N };
extern const char *ptName[PT_N];
enum FK { FK_KILL, FK_TORN, FK_ERR, FK_SHORT, FK_FULL, FK_SIGINT, FK_ALLOC, FK_ALLOCSTICKY, FK_CLOCK, FK_N };
extern const char *fkName[FK_N];
struct Fault { FK kind; int point; i64 arg; };
bool fkCompatible(FK k, PT t);
struct PointRec { PT type; str path; };
struct Preempt { int proc; int point; int to; };

enum How { H_RUNNING, H_EXIT, H_KILLED, H_SEGV, H_ABORT, H_HANG, H_HEAP };
struct ProcResult {
  How how = H_RUNNING; int status = -1; str out; str note;
  int points = 0, allocs = 0;
  std::vector<PointRec> rec;
  std::vector<str> fired;
  i64 tStart = 0, tEnd = 0;
};
struct Proc;
struct RunSpec {
  str prog; std::vector<str> args; str cwd = "/bbs";
  std::vector<Fault> faults;
  std::function<void()> native;       // if set: native actor
  str env;                            // CMPATH etc: "NAME=VALUE\n..."
};

struct Stats {
  u64 runs = 0, procs = 0, points = 0, allocs = 0, switches = 0, dryruns = 0;
  u64 faults[FK_N][PT_N] = {};
  double simSeconds = 0;
  std::map<str, u64> counters;
};
extern Stats gStats;

inline i64 gClkMin = 0, gClkMax = 0;     // range of the clock readings of this run
inline int gTz = 0;                      // local time, seconds east of UTC
struct Sim {
  Vfs fs;
  i64 nowUs = 0;
  bool recycle = false;               // freed memory is handed out again (last freed first)

  i64 tickUs = 50;                    // clock advance per system call
  int nextPid = 100;
  bool record = false;                // record point lists
  bool verbose = false;
  std::vector<str> trace;             // verbose trace
  u64 traceHash = 0;
  std::vector<std::unique_ptr<Proc>> procs;
  std::vector<Preempt> preempts;
  std::vector<str> syslog;
  std::function<bool(FK, const PointRec &)> allowFault; // asked again when a fault is about to fire (the run may differ from the dry run)
  std::function<void(int pid, PT, const str &)> onPoint;    // invariant callback, called at every point just before the operation
  std::function<int(const str &cmd, const str &cwd)> onSystem; // extra commands

  Sim();
  ~Sim();
  i64 now() const { return nowUs / 1000000; }
  void setClock(i64 sec) { nowUs = sec * 1000000; }
  // run one process alone
  ProcResult run(const RunSpec &s);
  // run several concurrently under 'preempts'
  std::vector<ProcResult> runAll(const std::vector<RunSpec> &s);
  // cloning of the world state (fs, clock); processes must not be running
  struct Snap { Vfs fs; i64 nowUs; int nextPid; size_t ntrace; };
  Snap snap() const;
  void restore(const Snap &s);
  void tr(const str &s) { if (verbose) trace.push_back(s); }
};
extern Sim *gSim;

// primitives for native actors (act as system calls: points, schedulable)
namespace sys {
  int pid();
  bool exists(const str &p);
  bool read(const str &p, str &out);
  bool write(const str &p, const str &data);             // create/truncate, non exclusive
  bool createExcl(const str &p, const str &data);
  bool pwrite(const str &p, size_t off, const str &data);
  bool pread(const str &p, size_t off, size_t n, str &out);
  bool rename(const str &a, const str &b);
  bool remove(const str &p);
  bool lock(const str &p, bool shared = false);        // JAM-style: byte 0 write lock, non blocking; keeps handle until unlock
  void unlock(const str &p);
  void sleep(int s);
  size_t size(const str &p);
}

// simulated archiver
bool simzPack(str &arc, const str &name, const str &data);
bool simzUnpack(const str &arc, std::vector<std::pair<str, str>> &out);

typedef int (*MainFn)(int, char **);
struct ProgInfo { const char *name; MainFn main; char *d0, *d1, *b0, *b1; };
extern ProgInfo gProgs[]; extern int gNProgs;
void simInitProcess();     // once per OS process
