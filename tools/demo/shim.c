// LD_PRELOAD fault shim for the demonstrations: SHIM_OP on a path containing SHIM_MATCH, the SHIM_NTH time, SHIM_ACT fail|kill|stay
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <signal.h>
#include <stdarg.h>
static int cnt;
static FILE *tracked[64]; static char names[64][300];
static int hit(const char *op,const char *path){
  const char *o=getenv("SHIM_OP"),*m=getenv("SHIM_MATCH"),*n=getenv("SHIM_NTH"),*a=getenv("SHIM_ACT");
  if(!o||!m||!n||!a||strcmp(o,op)||!path||!strstr(path,m)) return 0;
  cnt++; int k=atoi(n);
  if(!strcmp(a,"sticky")) return cnt>=k;
  if(cnt!=k) return 0;
  if(!strcmp(a,"kill")) { kill(getpid(),SIGKILL); for(;;) pause(); }
  if(!strcmp(a,"int")) { raise(SIGINT); return 0; }
  return 1;
}
#define REAL(t,n,...) static t (*r)(__VA_ARGS__); if(!r) r=dlsym(RTLD_NEXT,n)
FILE *fopen(const char *p,const char *m){ REAL(FILE*,"fopen",const char*,const char*); if(hit(m[0]=='r'&&!strchr(m,'+')?"openr":"openw",p)) { errno=EACCES; return 0; } FILE *f=r(p,m); if(f) for(int i=0;i<64;i++) if(!tracked[i]) { tracked[i]=f; snprintf(names[i],300,"%s",p); break; } return f; }
static const char *nameOf(FILE *f){ for(int i=0;i<64;i++) if(tracked[i]==f) return names[i]; return ""; }
size_t fwrite(const void *b,size_t s,size_t n,FILE *f){ REAL(size_t,"fwrite",const void*,size_t,size_t,FILE*); if(f!=stdout&&f!=stderr&&hit("write",nameOf(f))) { errno=ENOSPC; return 0; } return r(b,s,n,f); }
int fclose(FILE *f){ REAL(int,"fclose",FILE*); const char *n=nameOf(f); int h=hit("close",n); for(int i=0;i<64;i++) if(tracked[i]==f) tracked[i]=0; int x=r(f); if(h) { errno=ENOSPC; return EOF; } return x; }
int rename(const char *a,const char *b){ REAL(int,"rename",const char*,const char*); char t[2000]; snprintf(t,2000,"%s -> %s",a,b); if(hit("rename",t)) { errno=EIO; return -1; } return r(a,b); }
int remove(const char *a){ REAL(int,"remove",const char*); if(hit("remove",a)) { errno=EIO; return -1; } return r(a); }
int unlink(const char *a){ REAL(int,"unlink",const char*); if(hit("remove",a)) { errno=EIO; return -1; } return r(a); }
time_t time(time_t *t){ const char *s=getenv("SHIM_TIME"); REAL(time_t,"time",time_t*); time_t v=s?atoll(s):r(0); if(t) *t=v; return v; }
