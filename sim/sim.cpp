#include "sim.hpp"
#include <cstring>
#include <cstdlib>
#include <cstdarg>
#include <cerrno>
#include <csignal>
#include <csetjmp>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <dirent.h>
#include <unistd.h>
#include <algorithm>

Stats gStats;
Sim *gSim = nullptr;
const char *ptName[PT_N] = {"openr","openw","openu","read","write","close","stat","opendir","readdir","rename","remove","mkdir","lock","system","chdir","sleep","trunc","exit"};
const char *fkName[FK_N] = {"kill","torn-write-kill","io-error","short-write","disk-full","ctrl-c","alloc-fail","alloc-fail-sticky","clock-jump"};

u64 mix64(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
u64 hashBytes(const void *p, size_t n, u64 h) { const u8 *b = (const u8 *)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; } return h; }
str sfmt(const char *f, ...) { va_list a; va_start(a, f); char *p = nullptr; int n = vasprintf(&p, f, a); va_end(a); str s(p ? p : "", n > 0 ? n : 0); free(p); return s; }

bool fkCompatible(FK k, PT t) {
  switch (k) {
    case FK_KILL: return true;
    case FK_TORN: return t == PT_WRITE;
    case FK_SHORT: return t == PT_WRITE;
    case FK_FULL: return t == PT_WRITE || t == PT_OPENW || t == PT_MKDIR || t == PT_RENAME;
    case FK_ERR: return t == PT_OPENR || t == PT_OPENW || t == PT_OPENU || t == PT_READ || t == PT_WRITE || t == PT_OPENDIR || t == PT_RENAME || t == PT_REMOVE || t == PT_MKDIR || t == PT_SYSTEM || t == PT_CLOSE || t == PT_CHDIR || t == PT_TRUNC || t == PT_LOCK;
    case FK_SIGINT: return t != PT_EXIT;
    case FK_CLOCK: return true;
    default: return false;
  }
}

// ================================================================= VFS
Vfs::Vfs() { root = std::make_shared<Inode>(); root->dir = true; root->ino = 1; }
static InodeP cloneInode(const InodeP &i, std::map<Inode *, InodeP> &m) {
  auto it = m.find(i.get()); if (it != m.end()) return it->second;
  auto n = std::make_shared<Inode>(*i); n->ents.clear(); n->locks.clear(); m[i.get()] = n;
  for (auto &e : i->ents) n->ents[e.first] = cloneInode(e.second, m);
  return n;
}
Vfs Vfs::clone() const { Vfs v; std::map<Inode *, InodeP> m; v.root = cloneInode(root, m); v.nextIno = nextIno; v.dirSeed = dirSeed; return v; }
str Vfs::norm(const str &cwd, const str &path) {
  str full = (!path.empty() && path[0] == '/') ? path : cwd + "/" + path;
  std::vector<str> parts; size_t i = 0;
  while (i < full.size()) {
    while (i < full.size() && full[i] == '/') i++;
    size_t j = i; while (j < full.size() && full[j] != '/') j++;
    if (j > i) { str s = full.substr(i, j - i); if (s == ".") {} else if (s == "..") { if (!parts.empty()) parts.pop_back(); } else parts.push_back(s); }
    i = j;
  }
  str r; for (auto &p : parts) r += "/" + p; if (r.empty()) r = "/"; return r;
}
InodeP Vfs::lookup(const str &abs0) const {
  str abs = norm("/", abs0); InodeP n = root; size_t i = 1;
  if (abs == "/") return n;
  while (i <= abs.size()) { size_t j = abs.find('/', i); if (j == str::npos) j = abs.size(); if (!n->dir) return nullptr; auto it = n->ents.find(abs.substr(i, j - i)); if (it == n->ents.end()) return nullptr; n = it->second; i = j + 1; }
  return n;
}
InodeP Vfs::parent(const str &abs0, str &leaf) const {
  str abs = norm("/", abs0); size_t j = abs.rfind('/'); leaf = abs.substr(j + 1); if (leaf.empty()) return nullptr;
  InodeP d = j == 0 ? root : lookup(abs.substr(0, j)); if (!d || !d->dir) return nullptr; return d;
}
void Vfs::mkdirs(const str &p0) {
  str p = norm("/", p0); InodeP n = root; size_t i = 1; if (p == "/") return;
  while (i <= p.size()) { size_t j = p.find('/', i); if (j == str::npos) j = p.size(); str s = p.substr(i, j - i); auto &e = n->ents[s]; if (!e) { e = std::make_shared<Inode>(); e->dir = true; e->ino = nextIno++; } n = e; i = j + 1; }
}
void Vfs::put(const str &p, const str &data, i64 mtime) {
  str leaf; InodeP d = parent(p, leaf); if (!d) { str q = norm("/", p); mkdirs(q.substr(0, q.rfind('/'))); d = parent(p, leaf); }
  auto n = std::make_shared<Inode>(); n->data = data; n->ino = nextIno++; n->mtime = mtime >= 0 ? mtime : (gSim ? gSim->now() : 0); d->ents[leaf] = n;
}
bool Vfs::get(const str &p, str &out) const { auto n = lookup(p); if (!n || n->dir) return false; out = n->data; return true; }
bool Vfs::del(const str &p) { str leaf; auto d = parent(p, leaf); if (!d) return false; return d->ents.erase(leaf) > 0; }
bool Vfs::mv(const str &a, const str &b) { str la, lb; auto da = parent(a, la), db = parent(b, lb); if (!da || !db) return false; auto it = da->ents.find(la); if (it == da->ents.end()) return false; InodeP n = it->second; da->ents.erase(it); db->ents[lb] = n; return true; }
std::vector<str> Vfs::list(const str &dir) const { std::vector<str> r; auto d = lookup(dir); if (d && d->dir) for (auto &e : d->ents) r.push_back(e.first); return r; }
static void filesRec(const InodeP &d, const str &pre, std::vector<str> &out) { for (auto &e : d->ents) { str p = pre + "/" + e.first; if (e.second->dir) filesRec(e.second, p, out); else out.push_back(p); } }
std::vector<str> Vfs::files(const str &dir) const { std::vector<str> r; auto d = lookup(dir); if (d && d->dir) { str p = norm("/", dir); filesRec(d, p == "/" ? "" : p, r); } return r; }
u64 Vfs::hash() const { u64 h = 1469598103934665603ull; for (auto &p : files("/")) { h = hashStr(p, h); auto n = lookup(p); h = hashStr(n->data, h); h = mix64(h ^ (u64)n->mtime); } return h; }

// ================================================================= archiver
// format: "SIMZ" { u8 namelen, name, u32 size, data, u32 crc }*  "END!"
static void p32(str &s, u32 v) { for (int i = 0; i < 4; i++) s += (char)(v >> (8 * i)); }
static u32 g32(const str &s, size_t o) { u32 v = 0; for (int i = 0; i < 4; i++) v |= (u32)(u8)s[o + i] << (8 * i); return v; }
bool simzUnpack(const str &a, std::vector<std::pair<str, str>> &out) {
  out.clear(); if (a.size() < 8 || a.substr(0, 4) != "SIMZ" || a.substr(a.size() - 4) != "END!") return false;
  size_t o = 4, e = a.size() - 4;
  while (o < e) { size_t nl = (u8)a[o++]; if (o + nl + 4 > e) return false; str nm = a.substr(o, nl); o += nl; u32 sz = g32(a, o); o += 4; if (o + sz + 4 > e) return false; str d = a.substr(o, sz); o += sz; if (g32(a, o) != (u32)hashStr(d)) return false; o += 4; out.push_back({nm, d}); }
  return o == e;
}
bool simzPack(str &arc, const str &name, const str &data) {
  std::vector<std::pair<str, str>> m; if (!arc.empty() && !simzUnpack(arc, m)) return false;
  bool rep = false; for (auto &x : m) if (x.first == name) { x.second = data; rep = true; }
  if (!rep) m.push_back({name, data});
  str r = "SIMZ"; for (auto &x : m) { r += (char)x.first.size(); r += x.first; p32(r, x.second.size()); r += x.second; p32(r, (u32)hashStr(x.second)); } r += "END!"; arc = r; return true;
}

// ================================================================= processes
static const size_t STK = 768 * 1024;
static const size_t ARENA = 1ull << 30;
struct SFile { FILE *f; int fd; };
struct OFD { InodeP ino; i64 pos = 0; bool rd = false, wr = false, app = false; str path; int refs = 1; };
struct Cookie { Proc *p; OFD *ofd; int fd; bool dead = false; char buf[4096]; FILE *f; };
struct SDir { std::vector<str> names; size_t i = 0; struct dirent de; str path; };

struct Proc {
  int id; int pid; RunSpec spec; ProcResult res; ProgInfo *prog = nullptr;
  ucontext_t ctx; char *stack = nullptr; char *arena = nullptr; size_t used = 0; size_t hi = 0;
  bool started = false, done = false; i64 wake = -1; // blocked until
  bool waitLock = false;
  std::vector<char> saved; bool haveSaved = false;
  std::vector<Cookie *> files; std::vector<OFD *> fds; std::set<SDir *> dirs;
  str cwd; void (*sigint)(int) = nullptr; bool full = false; bool allocFail = false;
  str strtokBuf; char *strtokPos = nullptr; struct tm tmbuf; char ctimebuf[64]; int err = 0;
  char argbuf[8192]; char *argv[64]; int argc = 0;
  std::vector<size_t> blocks; std::map<size_t, std::vector<size_t>> freed; char tmpnamBuf[64]; int tmpserial = 0; char envbuf[512];
  sigjmp_buf jb; std::map<str, OFD *> natLocks;
  std::vector<void (*)()> atexits;
};
static Proc *cur = nullptr;
static ucontext_t schedCtx;
static std::vector<char *> stackPool, arenaPool;
static sigjmp_buf faultJmp; static volatile int inGuest = 0; static volatile int faultSig = 0;
static FILE *gStdout = nullptr, *gStderr = nullptr, *gStdin = nullptr;
extern "C" { FILE *sim_stdout, *sim_stderr, *sim_stdin; char **sim_environ; }

static void *mapAt(size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(3); } return p; }
static char *getStack() { if (!stackPool.empty()) { char *s = stackPool.back(); stackPool.pop_back(); return s; } char *p = (char *)mapAt(STK + 8192); mprotect(p, 4096, PROT_NONE); return p + 4096; }
static char *getArena() { if (!arenaPool.empty()) { char *s = arenaPool.back(); arenaPool.pop_back(); return s; } return (char *)mapAt(ARENA); }

// ---- pristine program images
struct Image { std::vector<char> d, b; }; static std::vector<Image> images; static std::vector<Proc *> owner;
static void saveSeg(ProgInfo *g, std::vector<char> &v) { size_t dn = g->d1 - g->d0, bn = g->b1 - g->b0; v.resize(dn + bn); if (dn) memcpy(v.data(), g->d0, dn); if (bn) memcpy(v.data() + dn, g->b0, bn); }
static void loadSeg(ProgInfo *g, const std::vector<char> &v) { size_t dn = g->d1 - g->d0, bn = g->b1 - g->b0; if (dn) memcpy(g->d0, v.data(), dn); if (bn) memcpy(g->b0, v.data() + dn, bn); }
static std::vector<std::vector<char>> pristine;

static void bindProg(Proc *p) {
  if (!p->prog) return; int gi = p->prog - gProgs; if (owner[gi] == p) return;
  if (owner[gi] && !owner[gi]->done) { saveSeg(p->prog, owner[gi]->saved); owner[gi]->haveSaved = true; }
  loadSeg(p->prog, p->haveSaved ? p->saved : pristine[gi]); owner[gi] = p;
}

static u64 profTicks = 0, profStart = 0;
static void onSig(int sig, siginfo_t *, void *) {
  if (sig == SIGPROF) { profTicks++; if (!inGuest || profTicks - profStart < 40) return; }
  if (!inGuest) { if (sig == SIGPROF) return; static const char m[] = "simulator: fault outside guest code\n"; (void)!write(2, m, sizeof m - 1); _exit(70); }
  faultSig = sig; siglongjmp(faultJmp, 1);
}
static char altstk[65536];
void simInitProcess() {
  static bool done = false;
  if (!done) {
    done = true;
    for (int i = 0; i < gNProgs; i++) { std::vector<char> v; saveSeg(&gProgs[i], v); pristine.push_back(v); owner.push_back(nullptr); }
    cookie_io_functions_t io{}; io.write = [](void *c, const char *b, size_t n) -> ssize_t { if (cur) { cur->res.out.append(b, n); } return n; };
    io.read = [](void *, char *, size_t) -> ssize_t { return 0; };
    gStdout = fopencookie((void *)1, "w", io); setvbuf(gStdout, nullptr, _IONBF, 0); gStderr = fopencookie((void *)2, "w", io); setvbuf(gStderr, nullptr, _IONBF, 0);
    gStdin = fopencookie((void *)3, "r", io);
    sim_stdout = gStdout; sim_stderr = gStderr; sim_stdin = gStdin;
  }
  stack_t ss{}; ss.ss_sp = altstk; ss.ss_size = sizeof altstk; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_sigaction = onSig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER | SA_RESTART;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) sigaction(s, &sa, nullptr);
  struct itimerval it{}; it.it_interval.tv_usec = 250000; it.it_value.tv_usec = 250000; setitimer(ITIMER_PROF, &it, nullptr);
}

Sim::Sim() { gSim = this; cur = nullptr; }
Sim::~Sim() { if (gSim == this) gSim = nullptr; }
Sim::Snap Sim::snap() const { return Snap{fs.clone(), nowUs, nextPid, trace.size()}; }
void Sim::restore(const Snap &s) { fs = s.fs.clone(); nowUs = s.nowUs; nextPid = s.nextPid; if (trace.size() > s.ntrace) trace.resize(s.ntrace); }

struct KillEx {}; // not thrown: kills switch away
static void toSched() { Proc *p = cur; inGuest = 0; p->err = errno; swapcontext(&p->ctx, &schedCtx); /* resumed */ errno = p->err; inGuest = p->prog != nullptr; }
static void die(How h, int st = -1) { Proc *p = cur; p->res.how = h; p->res.status = st; p->done = true; toSched(); abort(); }

// ---- the seam point. returns errno to inject, 0 for none. For writes *partial may be set.
static i64 gSysArg = 0;
static int point(PT t, const str &path, i64 *partial = nullptr, bool *killAfter = nullptr) {
  Proc *p = cur; Sim *s = gSim; int k = p->res.points++;
  inGuest = 0;
  gStats.points++;
  s->nowUs += s->tickUs;
  s->traceHash = mix64(s->traceHash ^ hashStr(path, (u64)t * 977 + p->id * 31 + 7));
  if (s->record) p->res.rec.push_back({t, path});
  if (s->verbose) s->trace.push_back(sfmt("  [%s#%d] %d %s %s", p->prog ? p->prog->name : "actor", p->pid, k, ptName[t], path.c_str()));
  if (p->res.points > 3000000) { p->res.note = "more than 3000000 system calls"; die(H_HANG); }
  int inj = 0;
  for (auto &f : p->spec.faults) if (f.point == k && fkCompatible(f.kind, t) && !(f.kind == FK_ERR && t == PT_SYSTEM && path.compare(0, 5, "wait ") == 0) && (!s->allowFault || s->allowFault(f.kind, {t, path}))) {
    gStats.faults[f.kind][t]++;
    str fs = sfmt("%s at %s#%d point %d (%s %s)", fkName[f.kind], p->prog ? p->prog->name : "actor", p->pid, k, ptName[t], path.c_str());
    p->res.fired.push_back(fs); if (s->verbose) s->trace.push_back("  !! FAULT " + fs);
    switch (f.kind) {
      case FK_KILL: die(H_KILLED); break;
      case FK_TORN: if (partial) { *partial = f.arg; if (killAfter) *killAfter = true; } else die(H_KILLED); break;
      case FK_SHORT: if (partial) *partial = f.arg; inj = ENOSPC; break;
      case FK_FULL: p->full = true; break;
      case FK_ERR: gSysArg = f.arg; inj = (t == PT_WRITE) ? EIO : (t == PT_OPENR || t == PT_OPENW || t == PT_OPENU) ? EACCES : (t == PT_LOCK) ? EAGAIN : EIO; break;
      case FK_SIGINT: if (p->sigint == (void (*)(int))SIG_IGN) break; if (!p->sigint) { die(H_KILLED); } else { inGuest = 1; p->sigint(SIGINT); inGuest = 0; } break;
      case FK_CLOCK: s->nowUs += f.arg * 1000000; if (s->nowUs < 0) s->nowUs = 0; break;
      default: break;
    }
  }
  if (p->full && (t == PT_WRITE || t == PT_OPENW || t == PT_MKDIR)) { if (!inj) { inj = ENOSPC; if (partial && *partial < 0) *partial = 0; } }
  // preemption
  if (s->procs.size() > 1 && t != PT_EXIT) {
    for (auto &pr : s->preempts) if (pr.proc == p->id && pr.point == k && pr.to != p->id && pr.to < (int)s->procs.size() && !s->procs[pr.to]->done) {
      extern int gSwitchTo; gSwitchTo = pr.to; gStats.switches++; if (s->verbose) s->trace.push_back(sfmt("  ~~ preempt %d -> %d", p->id, pr.to)); toSched(); inGuest = 0; break;
    }
  }
  if (s->onPoint) s->onPoint(p->pid, t, path);
  inGuest = p->prog != nullptr;
  return inj;
}
int gSwitchTo = -1;

// ---- scheduler
static void guestEntry(int id) {
  Proc *p = gSim->procs[id].get();
  if (p->spec.native) { p->spec.native(); p->res.how = H_EXIT; p->res.status = 0; }
  else {
    inGuest = 1; int rc = p->prog->main(p->argc, p->argv); inGuest = 0;
    extern void simExit(int); simExit(rc);
  }
  p->done = true; setcontext(&schedCtx);
}
static void freeArenaCheck(Proc *p);
static void closeAll(Proc *p) { // kernel-side close at process death: user buffers lost
  auto fl = p->files; p->files.clear();
  Proc *sv = cur; cur = p;
  for (auto *c : fl) { c->dead = true; fclose(c->f); }
  for (size_t i = 0; i < p->fds.size(); i++) if (p->fds[i]) { OFD *o = p->fds[i]; p->fds[i] = nullptr; auto &L = o->ino->locks; L.erase(std::remove_if(L.begin(), L.end(), [&](FLock &l) { return l.pid == p->pid; }), L.end()); delete o; }
  for (auto &k : p->natLocks) { auto &L = k.second->ino->locks; L.erase(std::remove_if(L.begin(), L.end(), [&](FLock &l) { return l.pid == p->pid; }), L.end()); delete k.second; }
  p->natLocks.clear();
  for (auto *d : p->dirs) delete d; p->dirs.clear();
  for (auto *c : fl) delete c;
  cur = sv;
}
std::vector<ProcResult> Sim::runAll(const std::vector<RunSpec> &specs) {
  procs.clear();
  for (size_t i = 0; i < specs.size(); i++) {
    auto p = std::make_unique<Proc>(); p->id = i; p->pid = nextPid++; p->spec = specs[i]; p->cwd = specs[i].cwd; p->res.tStart = now();
    if (!specs[i].native) {
      for (int g = 0; g < gNProgs; g++) if (specs[i].prog == gProgs[g].name) p->prog = &gProgs[g];
      if (!p->prog) { fprintf(stderr, "no program %s\n", specs[i].prog.c_str()); _exit(3); }
      char *b = p->argbuf; auto add = [&](const str &s) { p->argv[p->argc++] = b; memcpy(b, s.c_str(), s.size() + 1); b += s.size() + 1; };
      add(specs[i].prog); for (auto &a : specs[i].args) add(a); p->argv[p->argc] = nullptr;
      gStats.procs++;
    }
    p->fds.resize(3, nullptr);
    p->stack = getStack(); memset(p->stack, 0xB7, STK); p->arena = p->prog ? getArena() : nullptr;
    if (verbose) { str l = sfmt("t=%lld START %s#%d", (long long)now(), p->prog ? p->prog->name : "actor", p->pid); for (auto &a : specs[i].args) l += " " + a; trace.push_back(l); }
    procs.push_back(std::move(p));
  }
  int next = 0; i64 t0 = nowUs;
  for (;;) {
    // choose process
    int pick = -1;
    auto runnable = [&](int i) { return !procs[i]->done && (procs[i]->wake < 0 || procs[i]->wake <= nowUs); };
    if (gSwitchTo >= 0 && gSwitchTo < (int)procs.size() && runnable(gSwitchTo)) pick = gSwitchTo;
    gSwitchTo = -1;
    if (pick < 0 && next < (int)procs.size() && runnable(next)) pick = next;
    if (pick < 0) for (size_t i = 0; i < procs.size(); i++) if (runnable(i)) { pick = i; break; }
    if (pick < 0) { i64 w = -1; for (auto &p : procs) if (!p->done && (w < 0 || p->wake < w)) { w = p->wake; } if (w < 0) break; nowUs = std::max(nowUs, w); continue; }
    Proc *p = procs[pick].get(); p->wake = -1; next = pick;
    bindProg(p); cur = p; profStart = profTicks;
    if (sigsetjmp(faultJmp, 0) == 0) {
      if (!p->started) {
        p->started = true; getcontext(&p->ctx); p->ctx.uc_stack.ss_sp = p->stack; p->ctx.uc_stack.ss_size = STK; p->ctx.uc_link = &schedCtx;
        makecontext(&p->ctx, (void (*)())guestEntry, 1, p->id);
        swapcontext(&schedCtx, &p->ctx);
      } else swapcontext(&schedCtx, &p->ctx);
    } else {
      int sg = faultSig; inGuest = 0; p->done = true; p->res.status = sg;
      p->res.how = sg == SIGPROF ? H_HANG : sg == SIGABRT ? H_ABORT : H_SEGV; p->res.note = sfmt("signal %d", sg);
      sigset_t e; sigemptyset(&e); sigprocmask(SIG_SETMASK, &e, nullptr);
    }
    inGuest = 0; 
    if (p->done) {
      if (p->res.how != H_SEGV && p->res.how != H_ABORT && p->prog) freeArenaCheck(p);
      cur = p; closeAll(p); cur = nullptr; p->res.tEnd = now();
      if (p->prog) { int gi = p->prog - gProgs; if (owner[gi] == p) owner[gi] = nullptr; }
      stackPool.push_back(p->stack); p->stack = nullptr;
      if (p->arena) { if (p->hi > (4u << 20)) madvise(p->arena, p->hi + 4096, MADV_DONTNEED); arenaPool.push_back(p->arena); p->arena = nullptr; }
      static const char *hn[] = {"running", "exit", "killed", "segv", "abort", "hang", "heap"};
      if (verbose) trace.push_back(sfmt("t=%lld END %s#%d %s %d %s", (long long)now(), p->prog ? p->prog->name : "actor", p->pid, hn[p->res.how], p->res.status, p->res.note.c_str()));
      traceHash = mix64(traceHash ^ (p->res.how * 1000 + p->res.status + hashStr(p->res.out)));
      gStats.allocs += p->res.allocs;
    }
  }
  cur = nullptr;
  gStats.simSeconds += (nowUs - t0) / 1e6;
  std::vector<ProcResult> r; for (auto &p : procs) r.push_back(std::move(p->res)); procs.clear(); return r;
}
ProcResult Sim::run(const RunSpec &s) { auto sv = preempts; preempts.clear(); auto r = runAll({s}); preempts = sv; return r[0]; }

// ================================================================= heap
struct Blk { u32 magic; u32 size; u64 pad; };
static const u32 BM = 0xB10CB10C, BF = 0xF4EEF4EE;
static void heapBad(const char *what) { cur->res.note = what; die(H_HEAP); }
static bool poisonOk(Blk *b) { u8 *d = (u8 *)(b + 1); for (u32 i = 0; i < b->size; i++) if (d[i] != 0xDD) return false; return true; }
static void *arenaAlloc(size_t n, bool zero) {
  Proc *p = cur; int k = p->res.allocs++;
  for (auto &f : p->spec.faults) { if (f.kind == FK_ALLOC && f.point == k) { gStats.faults[FK_ALLOC][PT_EXIT]++; p->res.fired.push_back(sfmt("alloc-fail #%d (%zu bytes)", k, n)); if (gSim->verbose) gSim->trace.push_back("  !! FAULT " + p->res.fired.back()); errno = ENOMEM; return nullptr; } if (f.kind == FK_ALLOCSTICKY && k >= f.point) { if (k == f.point) { gStats.faults[FK_ALLOCSTICKY][PT_EXIT]++; p->res.fired.push_back(sfmt("alloc-fail-sticky #%d", k)); if (gSim->verbose) gSim->trace.push_back("  !! FAULT " + p->res.fired.back()); } errno = ENOMEM; return nullptr; } }
  if (n > (256u << 20)) { errno = ENOMEM; return nullptr; }
  if (gSim->recycle) { auto it = p->freed.find(n); if (it != p->freed.end() && !it->second.empty()) { Blk *b = (Blk *)(p->arena + it->second.back()); it->second.pop_back(); if (b->magic != BF || !poisonOk(b)) heapBad("memory was written to after it was freed"); b->magic = BM; memset(b + 1, zero ? 0 : 0xCB, n); return b + 1; } }
  size_t tot = (sizeof(Blk) + n + 16 + 15) & ~(size_t)15;
  if (p->used + tot > ARENA) { errno = ENOMEM; return nullptr; }
  Blk *b = (Blk *)(p->arena + p->used); p->used += tot; if (p->used > p->hi) p->hi = p->used;
  b->magic = BM; b->size = n; b->pad = 0xC0FFEE; char *d = (char *)(b + 1); memset(d, zero ? 0 : 0xCB, n); memset(d + n, 0xFD, 16); p->blocks.push_back((char *)b - p->arena);
  return d;
}
static Blk *blkOf(void *q) { Blk *b = (Blk *)q - 1; if ((char *)b < cur->arena || (char *)b >= cur->arena + cur->used) { heapBad("free of a pointer that was not allocated"); } return b; }
static bool redOk(Blk *b) { u8 *d = (u8 *)(b + 1); for (int i = 0; i < 16; i++) if (d[b->size + i] != 0xFD) return false; return true; }
static void freeArenaCheck(Proc *p) {
  for (size_t o : p->blocks) { Blk *b = (Blk *)(p->arena + o); if ((b->magic != BM && b->magic != BF) || (!redOk(b))) { if (p->res.how == H_EXIT || p->res.how == H_KILLED) { p->res.how = H_HEAP; p->res.note = sfmt("heap block of %u bytes overrun", b->size); } break; } if (b->magic == BF && !poisonOk(b)) { if (p->res.how == H_EXIT || p->res.how == H_KILLED) { p->res.how = H_HEAP; p->res.note = sfmt("heap block of %u bytes was written to after it was freed", b->size); } break; } }
}

// ================================================================= libc seam (extern "C" sim_*)
static str P(const char *path) { return Vfs::norm(cur->cwd, path ? path : ""); }
static bool pathTooLong(const char *p) { return strlen(p) > 4000; }
static void touch(Inode &i) { i.mtime = gSim->now(); i.writer = cur ? cur->pid : 0; }

static int openCore(const str &abs, bool rd, bool wr, bool creat, bool trunc, bool excl, bool app, OFD **out) {
  PT t = (wr && (trunc || creat)) ? PT_OPENW : wr ? PT_OPENU : PT_OPENR;
  int e = point(t, abs); 
  if (e == ENOSPC && gSim->fs.exists(abs)) e = 0; // truncating an existing file works on a full disk
  if (e) return e;
  str leaf; InodeP d = gSim->fs.parent(abs, leaf); if (!d) return ENOENT;
  auto it = d->ents.find(leaf); InodeP n;
  if (it == d->ents.end()) { if (!creat) return ENOENT; if (leaf.size() > 255) return ENAMETOOLONG; n = std::make_shared<Inode>(); n->ino = gSim->fs.nextIno++; touch(*n); d->ents[leaf] = n; }
  else { if (creat && excl) return EEXIST; n = it->second; if (n->dir) { if (wr) return EISDIR; } if (trunc && wr) { n->data.clear(); touch(*n); } }
  OFD *o = new OFD; o->ino = n; o->rd = rd; o->wr = wr; o->app = app; o->path = abs; *out = o; return 0;
}
static int newFd(OFD *o) { for (size_t i = 3; i < cur->fds.size(); i++) if (!cur->fds[i]) { cur->fds[i] = o; return i; } cur->fds.push_back(o); return cur->fds.size() - 1; }
static OFD *fdGet(int fd) { if (fd < 0 || fd >= (int)cur->fds.size() || !cur->fds[fd]) { errno = EBADF; return nullptr; } return cur->fds[fd]; }
static i64 ofdRead(OFD *o, char *b, size_t n) {
  int e = point(PT_READ, o->path); if (e) { errno = e; return -1; }
  if (!o->rd) { errno = EBADF; return -1; } if (o->ino->dir) { errno = EISDIR; return -1; }
  i64 sz = o->ino->data.size(); if (o->pos >= sz) return 0; i64 k = std::min<i64>(n, sz - o->pos); memcpy(b, o->ino->data.data() + o->pos, k); o->pos += k; return k;
}
static i64 ofdWrite(OFD *o, const char *b, size_t n) {
  i64 part = -1; bool ka = false; int e = point(PT_WRITE, o->path, &part, &ka);
  if (!o->wr) { errno = EBADF; return -1; }
  size_t w = n; if (e || ka) { w = (part >= 0) ? (size_t)(n * std::min<i64>(part, 1000) / 1000) : 0; }
  if (w) { str &d = o->ino->data; if (o->app) o->pos = d.size(); if (o->pos + (i64)w > (i64)d.size()) { if (o->pos + (i64)w > (64 << 20)) { errno = EFBIG; return -1; } d.resize(o->pos + w, 0); } memcpy(&d[o->pos], b, w); o->pos += w; touch(*o->ino); }
  if (ka) die(H_KILLED);
  if (e) { errno = e; return w ? (i64)w : -1; }
  return w;
}
static void ofdClose(int fd) { OFD *o = cur->fds[fd]; cur->fds[fd] = nullptr; auto &L = o->ino->locks; int pid = cur->pid; L.erase(std::remove_if(L.begin(), L.end(), [&](FLock &l) { return l.pid == pid; }), L.end()); if (--o->refs == 0) delete o; }

static ssize_t ckRead(void *c, char *b, size_t n) { Cookie *k = (Cookie *)c; if (k->dead) return 0; return ofdRead(k->ofd, b, n); }
static ssize_t ckWrite(void *c, const char *b, size_t n) { Cookie *k = (Cookie *)c; if (k->dead) return n; i64 r = ofdWrite(k->ofd, b, n); return r < 0 ? 0 : r; }
static int ckSeek(void *c, off64_t *off, int wh) { Cookie *k = (Cookie *)c; if (k->dead) return 0; i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? k->ofd->pos : (i64)k->ofd->ino->data.size(); if (base + *off < 0) { errno = EINVAL; return -1; } k->ofd->pos = base + *off; *off = k->ofd->pos; return 0; }
static int ckClose(void *c) { Cookie *k = (Cookie *)c; if (k->dead) return 0; int e = point(PT_CLOSE, k->ofd->path); ofdClose(k->fd); k->dead = true; if (e) { errno = e; return -1; } return 0; }
static FILE *mkFile(OFD *o, int fd, const char *mode) {
  Cookie *c = new Cookie; c->p = cur; c->ofd = o; c->fd = fd; cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
  char m[4]; int i = 0; m[i++] = mode[0]; if (strchr(mode, '+')) m[i++] = '+'; m[i] = 0;
  bool sv = inGuest; inGuest = 0; FILE *f = fopencookie(c, m, io); inGuest = sv; memset(c->buf, 0, sizeof c->buf); setvbuf(f, c->buf, _IOFBF, 4096); c->f = f; cur->files.push_back(c); return f;
}
static Cookie *ckOf(FILE *f) { for (auto *c : cur->files) if (c->f == f) return c; return nullptr; }
void simExit(int rc) {
  Proc *p = cur; inGuest = 0;
  for (size_t i = p->atexits.size(); i-- > 0;) { inGuest = 1; p->atexits[i](); inGuest = 0; }
  // flush all open streams as libc's exit would
  auto fl = p->files; for (auto *c : fl) if (!c->dead) fflush(c->f);
  point(PT_EXIT, "");
  p->res.how = H_EXIT; p->res.status = rc & 255; p->done = true; toSched(); abort();
}

extern "C" {
void *sim_malloc(size_t n) { return arenaAlloc(n, false); }
void *sim_calloc(size_t a, size_t b) { return arenaAlloc(a * b, true); }
void sim_free(void *q) { if (!q) return; Blk *b = blkOf(q); if (b->magic == BF) heapBad("double free"); if (b->magic != BM) heapBad("free of a pointer that was not allocated"); if (!redOk(b)) heapBad("heap block overrun"); b->magic = BF; memset(q, 0xDD, b->size); if (gSim->recycle) cur->freed[b->size].push_back((char *)b - cur->arena); }
void *sim_realloc(void *q, size_t n) { if (!q) return sim_malloc(n); Blk *b = blkOf(q); if (b->magic != BM) heapBad("realloc of a pointer that was not allocated"); void *r = arenaAlloc(n, false); if (!r) return nullptr; memcpy(r, q, std::min<size_t>(n, b->size)); sim_free(q); return r; }
void *sim_reallocarray(void *q, size_t a, size_t b) { return sim_realloc(q, a * b); }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)sim_malloc(n); if (r) memcpy(r, s, n); return r; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *r = (char *)sim_malloc(n + 1); if (r) { memcpy(r, s, n); r[n] = 0; } return r; }
int sim_vasprintf(char **o, const char *f, va_list a) { va_list b; va_copy(b, a); int n = vsnprintf(nullptr, 0, f, b); va_end(b); *o = (char *)sim_malloc(n + 1); if (!*o) return -1; return vsnprintf(*o, n + 1, f, a); }
int sim_asprintf(char **o, const char *f, ...) { va_list a; va_start(a, f); int n = sim_vasprintf(o, f, a); va_end(a); return n; }

FILE *sim_fopen(const char *path, const char *mode) {
  str abs = P(path); if (!*path) { errno = ENOENT; return nullptr; }
  bool plus = strchr(mode, '+'), x = strchr(mode, 'x'); OFD *o = nullptr; int e;
  if (mode[0] == 'r') e = openCore(abs, true, plus, false, false, false, false, &o);
  else if (mode[0] == 'w') e = openCore(abs, plus, true, true, true, x, false, &o);
  else if (mode[0] == 'a') e = openCore(abs, plus, true, true, false, x, true, &o);
  else e = EINVAL;
  if (e) { errno = e; return nullptr; }
  int fd = newFd(o); if (mode[0] == 'a') o->pos = o->ino->data.size(); return mkFile(o, fd, mode);
}
FILE *sim_fopen64(const char *p, const char *m) { return sim_fopen(p, m); }
FILE *sim_fdopen(int fd, const char *mode) { OFD *o = fdGet(fd); if (!o) return nullptr; return mkFile(o, fd, mode); }
int sim_fclose(FILE *f) {
  if (f == gStdout || f == gStderr || f == gStdin) return 0;
  Cookie *c = ckOf(f); if (!c) { heapBad("fclose of a stream that is not open"); return -1; }
  int r = fclose(f); int e = errno; Proc *p = cur; p->files.erase(std::find(p->files.begin(), p->files.end(), c)); delete c; errno = e; return r;
}
// A seek to a place that is in the read buffer keeps the buffer, as with a stream on a file descriptor (a cookie stream would read again): what other processes wrote meanwhile is not seen.
int sim_fseeko(FILE *f, off_t off, int wh) {
  Cookie *k = f == gStdout || f == gStderr || f == gStdin ? nullptr : ckOf(f);
  if (k && !k->dead && !(f->_flags & 2) && !(f->_flags & 0x900) && f->_IO_write_ptr <= f->_IO_write_base && f->_IO_read_base && f->_IO_read_end > f->_IO_buf_base) {
    i64 end = k->ofd->pos, start = end - (f->_IO_read_end - f->_IO_buf_base), t = wh == SEEK_SET ? off : wh == SEEK_CUR ? end - (f->_IO_read_end - f->_IO_read_ptr) + off : (i64)k->ofd->ino->data.size() + off;
    if (start >= 0 && t >= start && t < end) { f->_IO_read_base = f->_IO_buf_base; f->_IO_read_ptr = f->_IO_buf_base + (t - start); f->_IO_write_base = f->_IO_write_ptr = f->_IO_write_end = f->_IO_buf_base; f->_flags &= ~0x10; return 0; }
  }
  return fseeko(f, off, wh);
}
int sim_fseeko64(FILE *f, off_t off, int wh) { return sim_fseeko(f, off, wh); }
int sim_fseek(FILE *f, long off, int wh) { return sim_fseeko(f, off, wh); }
void sim_rewind(FILE *f) { sim_fseeko(f, 0, SEEK_SET); clearerr(f); }
FILE *sim_freopen(const char *path, const char *mode, FILE *f) { sim_fclose(f); return sim_fopen(path, mode); }
FILE *sim_tmpfile(void) { OFD *o; if (openCore(sfmt("/tmp/tmpf%d.%d", cur->pid, cur->tmpserial++), true, true, true, true, false, false, &o)) return nullptr; return mkFile(o, newFd(o), "w+"); }
int sim_fileno(FILE *f) { if (f == gStdout) return 1; if (f == gStderr) return 2; if (f == gStdin) return 0; Cookie *c = ckOf(f); if (!c) { errno = EBADF; return -1; } return c->fd; }
int sim_open(const char *path, int fl, ...) { OFD *o = nullptr; int acc = fl & O_ACCMODE; int e = openCore(P(path), acc != O_WRONLY, acc != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_EXCL, fl & O_APPEND, &o); if (e) { errno = e; return -1; } return newFd(o); }
int sim_open64(const char *path, int fl, ...) { return sim_open(path, fl, 0666); }
int sim_creat(const char *path, unsigned) { return sim_open(path, O_WRONLY | O_CREAT | O_TRUNC, 0666); }
ssize_t sim_read(int fd, void *b, size_t n) { OFD *o = fdGet(fd); return o ? ofdRead(o, (char *)b, n) : -1; }
ssize_t sim_write(int fd, const void *b, size_t n) { if (fd == 1 || fd == 2) { cur->res.out.append((const char *)b, n); return n; } OFD *o = fdGet(fd); return o ? ofdWrite(o, (const char *)b, n) : -1; }
off_t sim_lseek(int fd, off_t off, int wh) { OFD *o = fdGet(fd); if (!o) return -1; i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o->pos : (i64)o->ino->data.size(); if (base + off < 0) { errno = EINVAL; return -1; } return o->pos = base + off; }
off_t sim_lseek64(int fd, off_t off, int wh) { return sim_lseek(fd, off, wh); }
int sim_close(int fd) { OFD *o = fdGet(fd); if (!o) return -1; int e = point(PT_CLOSE, o->path); ofdClose(fd); if (e) { errno = e; return -1; } return 0; }
int sim_dup(int fd) { OFD *o = fdGet(fd); if (!o) return -1; o->refs++; return newFd(o); }
int sim_fsync(int fd) { return fdGet(fd) ? 0 : -1; }
int sim_fdatasync(int fd) { return fdGet(fd) ? 0 : -1; }
void sim_sync(void) {}
int sim_ftruncate(int fd, off_t n) { OFD *o = fdGet(fd); if (!o) return -1; int e = point(PT_TRUNC, o->path); if (e) { errno = e; return -1; } o->ino->data.resize(n, 0); touch(*o->ino); return 0; }
int sim_ftruncate64(int fd, off_t n) { return sim_ftruncate(fd, n); }
int sim_truncate(const char *p, off_t n) { str a = P(p); int e = point(PT_TRUNC, a); if (e) { errno = e; return -1; } auto i = gSim->fs.lookup(a); if (!i || i->dir) { errno = ENOENT; return -1; } i->data.resize(n, 0); touch(*i); return 0; }

static bool conflict(Inode &i, int pid, i64 s, i64 e, bool wr) { for (auto &l : i.locks) if (l.pid != pid && l.start < e && s < l.end && (wr || l.wr)) return true; return false; }
static void dropLock(Inode &i, int pid, i64 s, i64 e) { std::vector<FLock> nl; for (auto &l : i.locks) { if (l.pid != pid || l.end <= s || e <= l.start) { nl.push_back(l); continue; } if (l.start < s) nl.push_back({pid, l.start, s, l.wr}); if (l.end > e) nl.push_back({pid, e, l.end, l.wr}); } i.locks = nl; }
int sim_fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); void *arg = va_arg(ap, void *); va_end(ap); OFD *o = fdGet(fd); if (!o) return -1;
  if (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW || cmd == F_GETLK) {
    struct flock *fl = (struct flock *)arg; int e = point(PT_LOCK, o->path); if (e && cmd == F_SETLK && fl->l_type != F_UNLCK) { errno = e; return -1; }
    i64 base = fl->l_whence == SEEK_SET ? 0 : fl->l_whence == SEEK_CUR ? o->pos : (i64)o->ino->data.size(); i64 s = base + fl->l_start, en = fl->l_len ? s + fl->l_len : INT64_MAX; bool wr = fl->l_type == F_WRLCK;
    if (cmd == F_GETLK) { if (!conflict(*o->ino, cur->pid, s, en, wr)) fl->l_type = F_UNLCK; return 0; }
    if (fl->l_type == F_UNLCK) { dropLock(*o->ino, cur->pid, s, en); return 0; }
    int tries = 0;
    while (conflict(*o->ino, cur->pid, s, en, wr)) { if (cmd == F_SETLK || cmd == F_OFD_SETLK) { errno = EAGAIN; return -1; } cur->wake = gSim->nowUs + 100000; if (++tries > 100000) { errno = EDEADLK; return -1; } toSched(); }
    dropLock(*o->ino, cur->pid, s, en); o->ino->locks.push_back({cur->pid, s, en, wr}); return 0;
  }
  return 0;
}
int sim_flock(int fd, int op) { OFD *o = fdGet(fd); if (!o) return -1; struct flock fl{}; fl.l_type = (op & 8) ? F_UNLCK : (op & 2) ? F_WRLCK : F_RDLCK; return sim_fcntl(fd, (op & 4) ? F_SETLK : F_SETLKW, &fl); }
int sim_lockf(int fd, int cmd, off_t) { struct flock fl{}; fl.l_type = cmd == 0 ? F_UNLCK : F_WRLCK; return sim_fcntl(fd, cmd == 2 ? F_SETLK : F_SETLKW, &fl); }

DIR *sim_opendir(const char *path) {
  str a = P(path); int e = point(PT_OPENDIR, a); if (e) { errno = e; return nullptr; } auto n = gSim->fs.lookup(a); if (!n) { errno = ENOENT; return nullptr; } if (!n->dir) { errno = ENOTDIR; return nullptr; }
  SDir *d = new SDir; d->path = a; d->names = {".", ".."}; for (auto &x : n->ents) d->names.push_back(x.first);
  if (gSim->fs.dirSeed) { u64 sd = gSim->fs.dirSeed; std::stable_sort(d->names.begin(), d->names.end(), [&](const str &x, const str &y) { return mix64(hashStr(x) ^ sd) < mix64(hashStr(y) ^ sd); }); }
  cur->dirs.insert(d); return (DIR *)d;
}
struct dirent *sim_readdir(DIR *dd) {
  SDir *d = (SDir *)dd; if (!cur->dirs.count(d)) heapBad("readdir of a directory that is not open"); point(PT_READDIR, d->path);
  if (d->i >= d->names.size()) return nullptr;
  str nm = d->names[d->i++]; memset(&d->de, 0, sizeof d->de); snprintf(d->de.d_name, sizeof d->de.d_name, "%s", nm.c_str()); d->de.d_ino = 1; auto n = gSim->fs.lookup(d->path + "/" + nm); d->de.d_type = (!n || n->dir) ? DT_DIR : DT_REG; return &d->de;
}
struct dirent *sim_readdir64(DIR *dd) { return sim_readdir(dd); }
int sim_closedir(DIR *dd) { SDir *d = (SDir *)dd; if (!cur->dirs.erase(d)) heapBad("closedir of a directory that is not open"); delete d; return 0; }
void sim_rewinddir(DIR *dd) { ((SDir *)dd)->i = 0; }
static void fillStat(const InodeP &n, struct stat *st) { memset(st, 0, sizeof *st); st->st_mode = n->dir ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_size = n->dir ? 4096 : n->data.size(); st->st_mtime = st->st_atime = st->st_ctime = n->mtime; st->st_ino = n->ino; st->st_nlink = 1; st->st_blksize = 4096; }
int sim_stat(const char *path, struct stat *st) { str a = P(path); point(PT_STAT, a); auto n = gSim->fs.lookup(a); if (!n || !*path) { errno = ENOENT; return -1; } size_t L = strlen(path); if (L > 1 && path[L - 1] == '/' && !n->dir) { errno = ENOTDIR; return -1; } fillStat(n, st); return 0; }
int sim_lstat(const char *path, struct stat *st) { return sim_stat(path, st); }
int sim_fstat(int fd, struct stat *st) { OFD *o = fdGet(fd); if (!o) return -1; point(PT_STAT, o->path); fillStat(o->ino, st); return 0; }
int sim_stat64(const char *p, void *st) { return sim_stat(p, (struct stat *)st); }
int sim_lstat64(const char *p, void *st) { return sim_stat(p, (struct stat *)st); }
int sim_fstat64(int fd, void *st) { return sim_fstat(fd, (struct stat *)st); }
int sim_access(const char *path, int) { struct stat st; return sim_stat(path, &st); }
int sim_mkdir(const char *path, unsigned) { str a = P(path); int e = point(PT_MKDIR, a); if (e) { errno = e; return -1; } str leaf; auto d = gSim->fs.parent(a, leaf); if (!d) { errno = ENOENT; return -1; } if (d->ents.count(leaf)) { errno = EEXIST; return -1; } auto n = std::make_shared<Inode>(); n->dir = true; n->ino = gSim->fs.nextIno++; n->mtime = gSim->now(); d->ents[leaf] = n; return 0; }
int sim_rmdir(const char *path) { str a = P(path); int e = point(PT_REMOVE, a); if (e) { errno = e; return -1; } str leaf; auto d = gSim->fs.parent(a, leaf); auto n = gSim->fs.lookup(a); if (!d || !n) { errno = ENOENT; return -1; } if (!n->dir) { errno = ENOTDIR; return -1; } if (!n->ents.empty()) { errno = ENOTEMPTY; return -1; } d->ents.erase(leaf); return 0; }
int sim_unlink(const char *path) { str a = P(path); int e = point(PT_REMOVE, a); if (e) { errno = e; return -1; } str leaf; auto d = gSim->fs.parent(a, leaf); auto n = gSim->fs.lookup(a); if (!d || !n || !*path) { errno = ENOENT; return -1; } if (n->dir) { errno = EISDIR; return -1; } d->ents.erase(leaf); return 0; }
int sim_remove(const char *path) { auto n = gSim->fs.lookup(P(path)); if (n && n->dir) return sim_rmdir(path); return sim_unlink(path); }
int sim_rename(const char *x, const char *y) {
  str a = P(x), b = P(y); int e = point(PT_RENAME, a + " -> " + b); if (e) { errno = e; return -1; } str la, lb; auto da = gSim->fs.parent(a, la), db = gSim->fs.parent(b, lb); auto n = gSim->fs.lookup(a), m = gSim->fs.lookup(b);
  if (!da || !db || !n) { errno = ENOENT; return -1; } if (n == m) return 0; if (m && m->dir != n->dir) { errno = m->dir ? EISDIR : ENOTDIR; return -1; } if (m && m->dir && !m->ents.empty()) { errno = ENOTEMPTY; return -1; }
  da->ents.erase(la); db->ents[lb] = n; return 0;
}
int sim_link(const char *x, const char *y) { str a = P(x), b = P(y); int e = point(PT_RENAME, a + " => " + b); if (e) { errno = e; return -1; } str lb; auto db = gSim->fs.parent(b, lb); auto n = gSim->fs.lookup(a); if (!db || !n) { errno = ENOENT; return -1; } if (db->ents.count(lb)) { errno = EEXIST; return -1; } db->ents[lb] = n; return 0; }
char *sim_getcwd(char *b, size_t n) { if (!b) b = (char *)sim_malloc(n = 4096); if (cur->cwd.size() + 1 > n) { errno = ERANGE; return nullptr; } strcpy(b, cur->cwd.c_str()); return b; }
int sim_chdir(const char *p) { str a = P(p); int e = point(PT_CHDIR, a); if (e) { errno = e; return -1; } auto n = gSim->fs.lookup(a); if (!n || !n->dir) { errno = ENOENT; return -1; } cur->cwd = a; return 0; }
int sim_utime(const char *p, const void *) { auto n = gSim->fs.lookup(P(p)); if (!n) { errno = ENOENT; return -1; } n->mtime = gSim->now(); return 0; }
int sim_chmod(const char *p, unsigned) { if (!gSim->fs.lookup(P(p))) { errno = ENOENT; return -1; } return 0; }
unsigned sim_umask(unsigned) { return 022; }

int sim_system(const char *cmd) {
  if (!cmd) return 1;
  int e = point(PT_SYSTEM, cmd); inGuest = 0; std::vector<str> w; str c = cmd; size_t i = 0;
  while (i < c.size()) { while (i < c.size() && (c[i] == ' ' || c[i] == '\t')) i++; size_t j = i; str tok; while (j < c.size() && c[j] != ' ' && c[j] != '\t') { if (c[j] == '"' || c[j] == '\'') { char q = c[j++]; while (j < c.size() && c[j] != q) tok += c[j++]; if (j < c.size()) j++; } else tok += c[j++]; } if (j > i && tok[0] != '>') w.push_back(tok); i = j; }
  int rc = 0; Vfs &fs = gSim->fs; str cwd = cur->cwd; int var = e ? (int)(gSysArg % 6) : -1;
  // failing commands: exit code without effect, ended by a signal, could not be started, partial result, complete result with an error code, partial result and signal
  if (var == 0 || var == 1 || var == 2) rc = 1;
  else if (w.empty()) rc = 0;
  else if (w[0] == "simzip" && w.size() >= 3) { str a = Vfs::norm(cwd, w[1]); str arc; fs.get(a, arc); for (size_t k = 2; k < w.size() && !rc; k++) { str f = Vfs::norm(cwd, w[k]); str d; if (!fs.get(f, d)) { rc = 12; break; } if (!simzPack(arc, f.substr(f.rfind('/') + 1), d)) rc = 3; } if (!rc) { str leaf; if (!fs.parent(a, leaf)) rc = 15; else if (var != 3 && var != 5) fs.put(a, arc); } }
  else if (w[0] == "simunzip" && w.size() >= 2) { str a = Vfs::norm(cwd, w[1]); str arc; std::vector<std::pair<str, str>> m; if (!fs.get(a, arc)) rc = 9; else if (!simzUnpack(arc, m)) rc = 3; else for (size_t k = 0; k < m.size(); k++) { auto &x = m[k]; bool last = k + 1 == m.size(); fs.put(cwd + "/" + x.first, (var == 3 || var == 5) && last ? x.second.substr(0, x.second.size() * (gSysArg / 6 % 10) / 10) : x.second); } }
  else if (gSim->onSystem) rc = gSim->onSystem(cmd, cwd);
  else rc = 127;
  // the child process is a second schedulable step: a kill of the parent between child exit and wait
  int e2 = point(PT_SYSTEM, str("wait ") + cmd); (void)e2;
  inGuest = 1; if (var == 2) { errno = EAGAIN; return -1; } if (var == 1 || var == 5) return 9; if (var >= 0 && !rc) rc = 1; return rc << 8;
}
unsigned sim_sleep(unsigned s) { point(PT_SLEEP, ""); cur->wake = gSim->nowUs + (i64)s * 1000000; toSched(); return 0; }
int sim_usleep(unsigned us) { point(PT_SLEEP, ""); cur->wake = gSim->nowUs + us; toSched(); return 0; }
int sim_nanosleep(const struct timespec *t, struct timespec *) { point(PT_SLEEP, ""); cur->wake = gSim->nowUs + t->tv_sec * 1000000 + t->tv_nsec / 1000; toSched(); return 0; }
time_t sim_time(time_t *t) { time_t n = gSim->now(); gClkMin = gClkMax ? std::min<i64>(gClkMin, n) : n; gClkMax = std::max<i64>(gClkMax, n); if (t) *t = n; return n; }
int sim_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = gSim->now(); tv->tv_usec = gSim->nowUs % 1000000; return 0; }
int sim_clock_gettime(int, struct timespec *ts) { ts->tv_sec = gSim->now(); ts->tv_nsec = gSim->nowUs % 1000000 * 1000; return 0; }
clock_t sim_clock(void) { return gSim->nowUs; }
struct tm *sim_gmtime(const time_t *t) { return gmtime_r(t, &cur->tmbuf); }
struct tm *sim_localtime(const time_t *t) { time_t x = *t + gTz; return gmtime_r(&x, &cur->tmbuf); }
struct tm *sim_localtime_r(const time_t *t, struct tm *o) { time_t x = *t + gTz; return gmtime_r(&x, o); }
time_t sim_mktime(struct tm *t) { return timegm(t) - gTz; }
char *sim_ctime(const time_t *t) { struct tm x; time_t l = *t + gTz; gmtime_r(&l, &x); return asctime_r(&x, cur->ctimebuf); }
char *sim_asctime(const struct tm *t) { return asctime_r(t, cur->ctimebuf); }
char *sim_getenv(const char *n) { str k = str(n) + "="; size_t i = 0; const str &e = cur->spec.env; while (i < e.size()) { size_t j = e.find('\n', i); if (j == str::npos) j = e.size(); if (e.compare(i, k.size(), k) == 0) { snprintf(cur->envbuf, sizeof cur->envbuf, "%s", e.substr(i + k.size(), j - i - k.size()).c_str()); return cur->envbuf; } i = j + 1; } return nullptr; }
typedef void (*sigh)(int);
sigh sim_signal(int s, sigh h) { if (s == SIGINT) { sigh o = cur->sigint; cur->sigint = h; return o; } return SIG_DFL; }
int sim_sigaction(int s, const struct sigaction *a, struct sigaction *o) { if (o) memset(o, 0, sizeof *o); if (s == SIGINT && a) cur->sigint = a->sa_handler; return 0; }
int sim_sigprocmask(int, const void *, void *) { return 0; }
int sim_raise(int) { return 0; }
int sim_kill(int, int) { return 0; }
void sim_exit(int rc) { simExit(rc); }
void sim__exit(int rc) { point(PT_EXIT, ""); die(H_EXIT, rc & 255); }
void sim_abort(void) { die(H_ABORT); }
void sim___stack_chk_fail(void) { cur->res.note = "stack smashed"; die(H_ABORT); }
void sim___assert_fail(const char *a, const char *, unsigned, const char *) { cur->res.note = str("assertion ") + a; die(H_ABORT); }
int sim_atexit(void (*f)()) { cur->atexits.push_back(f); return 0; }
int sim_getpid(void) { return cur->pid; }
int sim_getppid(void) { return 1; }
unsigned sim_getuid(void) { return 1000; }
int sim_vprintf(const char *f, va_list a) { char *p = nullptr; bool sv = inGuest; int n = vasprintf(&p, f, a); if (n > 0) cur->res.out.append(p, n); free(p); inGuest = sv; return n; }
int sim_printf(const char *f, ...) { va_list a; va_start(a, f); int n = sim_vprintf(f, a); va_end(a); return n; }
int sim_puts(const char *s) { cur->res.out += s; cur->res.out += '\n'; return 1; }
int sim_putchar(int c) { cur->res.out += (char)c; return c; }
int sim_getchar(void) { return EOF; }
void sim_perror(const char *s) { cur->res.out += s; cur->res.out += "\n"; }
void sim_openlog(const char *, int, int) {}
void sim_closelog(void) {}
void sim_vsyslog(int, const char *f, va_list a) { char b[1000]; vsnprintf(b, sizeof b, f, a); gSim->syslog.push_back(b); }
void sim_syslog(int p, const char *f, ...) { va_list a; va_start(a, f); sim_vsyslog(p, f, a); va_end(a); }
char *sim_tmpnam(char *b) { if (!b) b = cur->tmpnamBuf; do { sprintf(b, "/tmp/sim%d_%d", cur->pid, cur->tmpserial++); } while (gSim->fs.exists(b)); return b; }
char *sim_tempnam(const char *, const char *) { char *b = (char *)sim_malloc(64); return sim_tmpnam(b); }
int sim_mkstemp(char *t) { size_t n = strlen(t); if (n < 6) { errno = EINVAL; return -1; } for (int i = 0; i < 1000; i++) { char x[8]; snprintf(x, sizeof x, "%06d", (cur->pid * 37 + cur->tmpserial++) % 1000000); memcpy(t + n - 6, x, 6); OFD *o; int e = openCore(P(t), true, true, true, false, true, false, &o); if (e == EEXIST) continue; if (e) { errno = e; return -1; } return newFd(o); } errno = EEXIST; return -1; }
int sim_rand(void) { return (int)(mix64(cur->pid * 1000003ull + cur->tmpserial++) & 0x7fffffff); }
long sim_random(void) { return sim_rand(); }
void sim_srand(unsigned) {}
// bounds-checked variants (the guest is compiled with _FORTIFY_SOURCE)
#define CHK(need, have) do { if ((size_t)(need) > (have)) { cur->res.note = sfmt("buffer overflow in %s: %zu bytes into %zu", __func__ + 6, (size_t)(need), (size_t)(have)); die(H_ABORT); } } while (0)
void *sim___memcpy_chk(void *d, const void *s, size_t n, size_t k) { CHK(n, k); return memcpy(d, s, n); }
void *sim___memmove_chk(void *d, const void *s, size_t n, size_t k) { CHK(n, k); return memmove(d, s, n); }
void *sim___mempcpy_chk(void *d, const void *s, size_t n, size_t k) { CHK(n, k); return mempcpy(d, s, n); }
void *sim___memset_chk(void *d, int c, size_t n, size_t k) { CHK(n, k); return memset(d, c, n); }
char *sim___strcpy_chk(char *d, const char *s, size_t k) { CHK(strlen(s) + 1, k); return strcpy(d, s); }
char *sim___stpcpy_chk(char *d, const char *s, size_t k) { CHK(strlen(s) + 1, k); return stpcpy(d, s); }
char *sim___strcat_chk(char *d, const char *s, size_t k) { CHK(strnlen(d, k) + strlen(s) + 1, k); return strcat(d, s); }
char *sim___strncpy_chk(char *d, const char *s, size_t n, size_t k) { CHK(n, k); return strncpy(d, s, n); }
char *sim___stpncpy_chk(char *d, const char *s, size_t n, size_t k) { CHK(n, k); return stpncpy(d, s, n); }
char *sim___strncat_chk(char *d, const char *s, size_t n, size_t k) { CHK(strnlen(d, k) + strnlen(s, n) + 1, k); return strncat(d, s, n); }
size_t sim___strlcpy_chk(char *d, const char *s, size_t n, size_t k) { CHK(n, k); size_t l = strlen(s); if (n) { size_t m = l < n - 1 ? l : n - 1; memcpy(d, s, m); d[m] = 0; } return l; }
size_t sim___strlcat_chk(char *d, const char *s, size_t n, size_t k) { CHK(n, k); size_t o = strnlen(d, n), l = strlen(s); if (o < n) { size_t m = l < n - 1 - o ? l : n - 1 - o; memcpy(d + o, s, m); d[o + m] = 0; } return o + l; }
int sim___vsprintf_chk(char *d, int, size_t k, const char *f, va_list a) { char *p = nullptr; bool sv = inGuest; inGuest = false; int n = vasprintf(&p, f, a); inGuest = sv; if (n < 0) return n; if ((size_t)n + 1 > k) { free(p); CHK(n + 1, k); } memcpy(d, p, n + 1); free(p); return n; }
int sim___sprintf_chk(char *d, int g, size_t k, const char *f, ...) { va_list a; va_start(a, f); int n = sim___vsprintf_chk(d, g, k, f, a); va_end(a); return n; }
int sim___vsnprintf_chk(char *d, size_t n, int, size_t k, const char *f, va_list a) { CHK(n, k); return vsnprintf(d, n, f, a); }
int sim___snprintf_chk(char *d, size_t n, int, size_t k, const char *f, ...) { CHK(n, k); va_list a; va_start(a, f); int r = vsnprintf(d, n, f, a); va_end(a); return r; }
int sim___vprintf_chk(int, const char *f, va_list a) { return sim_vprintf(f, a); }
int sim___printf_chk(int, const char *f, ...) { va_list a; va_start(a, f); int n = sim_vprintf(f, a); va_end(a); return n; }
int sim___vfprintf_chk(FILE *fp, int, const char *f, va_list a) { return vfprintf(fp, f, a); }
int sim___fprintf_chk(FILE *fp, int, const char *f, ...) { va_list a; va_start(a, f); int n = vfprintf(fp, f, a); va_end(a); return n; }
int sim___vasprintf_chk(char **o, int, const char *f, va_list a) { return sim_vasprintf(o, f, a); }
int sim___asprintf_chk(char **o, int, const char *f, ...) { va_list a; va_start(a, f); int n = sim_vasprintf(o, f, a); va_end(a); return n; }
void sim___vsyslog_chk(int p, int, const char *f, va_list a) { sim_vsyslog(p, f, a); }
void sim___syslog_chk(int p, int, const char *f, ...) { va_list a; va_start(a, f); sim_vsyslog(p, f, a); va_end(a); }
char *sim___fgets_chk(char *b, size_t k, int n, FILE *fp) { CHK(n, k); return fgets(b, n, fp); }
size_t sim___fread_chk(void *b, size_t k, size_t sz, size_t n, FILE *fp) { CHK(sz * n, k); return fread(b, sz, n, fp); }
ssize_t sim___read_chk(int fd, void *b, size_t n, size_t k) { CHK(n, k); return sim_read(fd, b, n); }
char *sim___getcwd_chk(char *b, size_t n, size_t k) { CHK(n, k); return sim_getcwd(b, n); }
void sim___chk_fail(void) { cur->res.note = "buffer overflow"; die(H_ABORT); }
char *sim_strtok(char *s, const char *d) { return strtok_r(s, d, &cur->strtokPos); }
}

// ================================================================= native actor primitives
namespace sys {
int pid() { return cur->pid; }
bool exists(const str &p) { point(PT_STAT, p); return gSim->fs.exists(p); }
bool read(const str &p, str &out) { point(PT_OPENR, p); return gSim->fs.get(p, out); }
bool write(const str &p, const str &d) { point(PT_OPENW, p); auto n = gSim->fs.lookup(p); if (n) { n->data = d; n->mtime = gSim->now(); return true; } gSim->fs.put(p, d); return true; }
bool createExcl(const str &p, const str &d) { point(PT_OPENW, p); if (gSim->fs.exists(p)) return false; gSim->fs.put(p, d); return true; }
bool pwrite(const str &p, size_t off, const str &d) { point(PT_WRITE, p); auto n = gSim->fs.lookup(p); if (!n) return false; if (n->data.size() < off + d.size()) n->data.resize(off + d.size(), 0); memcpy(&n->data[off], d.data(), d.size()); n->mtime = gSim->now(); return true; }
bool pread(const str &p, size_t off, size_t k, str &out) { point(PT_READ, p); auto n = gSim->fs.lookup(p); if (!n || off > n->data.size()) return false; out = n->data.substr(off, k); return true; }
size_t size(const str &p) { point(PT_STAT, p); auto n = gSim->fs.lookup(p); return n ? n->data.size() : 0; }
bool rename(const str &a, const str &b) { point(PT_RENAME, a); return gSim->fs.mv(a, b); }
bool remove(const str &p) { point(PT_REMOVE, p); return gSim->fs.del(p); }
bool lock(const str &p, bool shared) { point(PT_LOCK, p); auto n = gSim->fs.lookup(p); if (!n) return false; if (conflict(*n, cur->pid, 0, 1, !shared)) return false; n->locks.push_back({cur->pid, 0, 1, !shared}); OFD *o = new OFD; o->ino = n; cur->natLocks[p] = o; return true; }
void unlock(const str &p) { point(PT_LOCK, p); auto it = cur->natLocks.find(p); if (it == cur->natLocks.end()) return; dropLock(*it->second->ino, cur->pid, 0, 1); delete it->second; cur->natLocks.erase(it); }
void sleep(int s) { point(PT_SLEEP, ""); cur->wake = gSim->nowUs + (i64)s * 1000000; toSched(); }
}
