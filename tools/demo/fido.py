# Helpers for the demonstrations: a scratch FidoNet system driven by the built binaries in ./bin
import os,struct,subprocess,tempfile,shutil,atexit,sys
BIN=os.path.join(os.getcwd(),"bin")
HERE=os.path.dirname(os.path.abspath(sys.argv[0]))
class Env:
    def __init__(s,extra="",nodes=None,areas="",akas="AKA 2:203/1\n",routes='ROUTE "*:*/*.*" "*:*/*.*" 2:203/1\n',dupes='DUPEFILE "%D/dupes" 200\nDUPEMODE BAD\n'):
        s.d=tempfile.mkdtemp(prefix="cmdemo"); atexit.register(shutil.rmtree,s.d,True)
        for x in("in","out","temp","create","packets","base"): os.mkdir(s.p(x))
        s.cfg=('SYSOP "Demo Sysop"\nLOGFILE "%D/log"\nLOGLEVEL 6\n'+dupes+'LOOPMODE IGNORE\nDEFAULTZONE 2\n'
          'INBOUND "%D/in"\nOUTBOUND "%D/out"\nTEMPDIR "%D/temp"\nCREATEPKTDIR "%D/create"\nPACKETDIR "%D/packets"\nSTATSFILE "%D/stats"\n'
          'PACKER "TAR" "tar -rf %a -C %D/create %f" "tar -xf %a" "XX"\nAREAFIXNAME "areafix"\n'+extra+akas+
          (nodes if nodes is not None else 'NODE 2:203/10 "" ""\nNODE 2:203/20 "" ""\nNODE 2:203/30 "" ""\n')+routes+areas).replace("%D",s.d)
        s.write("prefs",s.cfg)
    def p(s,*a): return os.path.join(s.d,*a)
    def write(s,n,t,mtime=None):
        f=s.p(n)
        with open(f,"wb") as h: h.write(t if isinstance(t,bytes) else t.encode("latin-1"))
        if mtime: os.utime(f,(mtime,mtime))
    def read(s,n):
        with open(s.p(n),"rb") as h: return h.read()
    def ls(s,n): return sorted(os.listdir(s.p(n))) if os.path.isdir(s.p(n)) else []
    def run(s,*a,prog="crashmail",env=None,settings=True,timeout=60,inp=b""):
        e=dict(os.environ); e["TZ"]="UTC"; e.update(env or {})
        c=[os.path.join(BIN,prog)]+list(a)+(["SETTINGS",s.p("prefs")] if settings else [])
        r=subprocess.run(c,cwd=s.d,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout,input=inp)
        return r.returncode,r.stdout.decode("latin-1")
    def shim(s,op,match,nth=1,act="fail"):
        so=s.p("shim.so")
        if not os.path.exists(so): subprocess.check_call(["gcc","-shared","-fPIC","-O1","-w","-o",so,os.path.join(HERE,"shim.c"),"-ldl"])
        return {"LD_PRELOAD":so,"SHIM_OP":op,"SHIM_MATCH":match,"SHIM_NTH":str(nth),"SHIM_ACT":act}
    # everything queued, per outbound base name: list of (kind, message dict)
    def queued(s):
        q={}
        for dp,dn,fn in os.walk(s.p("out")):
            for f in sorted(fn):
                b,e=os.path.splitext(f); rel=os.path.relpath(os.path.join(dp,b),s.p("out"))
                if e.endswith("ut"): q.setdefault(rel,[]).extend((e,m) for m in parse(open(os.path.join(dp,f),"rb").read()))
                if e.endswith("lo"):
                    for l in open(os.path.join(dp,f),"rb").read().decode("latin-1").splitlines():
                        l=l.strip()
                        if l and l[0] in "#^": l=l[1:]
                        if l and l.lower().endswith(".pkt") and os.path.exists(l): q.setdefault(rel,[]).extend((e,m) for m in parse(open(l,"rb").read()))
                        elif l and not os.path.exists(l): q.setdefault(rel,[]).append((e,{"missing":l}))
        return q
    def msgs(s,area):
        r={}
        for f in s.ls(area):
            if f.endswith(".msg"): r[int(f[:-4])]=msgfile(s.read(os.path.join(area,f)))
        return r
def z(b): return b if isinstance(b,bytes) else b.encode("latin-1")
def addr(a):
    zn,r=a.split(":"); n,f=r.split("/"); p="0"
    if "." in f: f,p=f.split(".")
    return int(zn),int(n),int(f),int(p)
def msg(orig,dest,text,to="All",frm="Demo",subj="subject",attr=0,date="01 Jan 01  10:00:00"):
    o,d=addr(orig),addr(dest)
    return struct.pack("<7H",2,o[2],d[2],o[1],d[1],attr,0)+z(date)+b"\0"+z(to)+b"\0"+z(frm)+b"\0"+z(subj)+b"\0"+z(text)+b"\0"
def pkt(orig,dest,msgs,pw="",term=b"\0\0"):
    o,d=addr(orig),addr(dest)
    h=struct.pack("<12H",o[2],d[2],2001,1,1,1,1,1,0,2,o[1],d[1])+b"\xfe\x01"+z(pw)[:8].ljust(8,b"\0")+struct.pack("<2H",o[0],d[0])+b"\0\0"+b"\0\1\0\5\1\0"+struct.pack("<4H",o[0],d[0],o[3],d[3])+b"\0\0\0\0"
    assert len(h)==58
    return h+b"".join(msgs)+term
def echo(area,orig,body,msgid=None,sb=None,path=None,dest="2:203/1",**k):
    t="AREA:%s\r"%area
    if msgid: t+="\1MSGID: %s\r"%msgid
    t+=body
    if sb: t+="SEEN-BY: %s\r"%sb
    if path: t+="\1PATH: %s\r"%path
    return msg(orig,dest,t,**k)
def parse(b):
    r=[]; o=58
    hdr=struct.unpack("<12H",b[:24]); zz=struct.unpack("<4H",b[46:54])
    while True:
        if o+2>len(b): r.append({"error":"packet not terminated"}); break
        t,=struct.unpack("<H",b[o:o+2])
        if t==0: break
        h=struct.unpack("<7H",b[o:o+14]); o+=14; f=[]
        for i in range(5):
            e=b.index(b"\0",o); f.append(b[o:e].decode("latin-1")); o=e+1
        r.append(dict(on=h[3],of=h[1],dn=h[4],df=h[2],attr=h[5],date=f[0],to=f[1],frm=f[2],subj=f[3],text=f[4],porig=(zz[0],hdr[10],hdr[0],zz[2]),pdest=(zz[1],hdr[11],hdr[1],zz[3])))
    return r
def msgfile(b):
    s=lambda a,n:b[a:a+n].split(b"\0")[0].decode("latin-1")
    h=struct.unpack("<13H",b[164:190])
    return dict(frm=s(0,36),to=s(36,36),subj=s(72,72),date=s(144,20),attr=h[11],reply=h[10],next=h[12],text=b[190:].split(b"\0")[0].decode("latin-1"),raw=b)
def mkmsg(frm,to,subj,text,attr=0,orig="2:203/1",dest="2:203/1",date="01 Jan 01  10:00:00"):
    o,d=addr(orig),addr(dest); fx=lambda v,n:z(v)[:n-1].ljust(n,b"\0")
    return fx(frm,36)+fx(to,36)+fx(subj,72)+fx(date,20)+struct.pack("<13H",0,d[2],o[2],0,o[1],d[1],d[0],o[0],d[3],o[3],0,attr,0)+z(text)+b"\0"
def check(c,what):
    if not c: print("FAILED:",what); sys.exit(1)
    print("ok:",what)
