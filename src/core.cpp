#include "core.h"
#include <cstdarg>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
extern "C" {
#include "ta_libc.h"
}
std::vector<Prop>& props(){ static std::vector<Prop> p; return p; }
Str fmt(const char*f,...){ char b[4096]; va_list a; va_start(a,f); vsnprintf(b,sizeof b,f,a); va_end(a); return b; }

// ------------------------------------------------------------------ serialisation
static void putd(Str&s,double d){ if(d==(long)d && std::fabs(d)<1e15 && !(d==0&&std::signbit(d))) s+=fmt(" %ld",(long)d); else s+=fmt(" %a",d); }
Str ser(const Case&c){
  Str s="sub "+c.sub+"\n"; if(!c.fn.empty()) s+="fn "+c.fn+"\n";
  if(!c.o.empty()){ s+="o"; for(double d:c.o) putd(s,d); s+="\n"; }
  for(auto&v:c.in){ s+="in"; for(double d:v) putd(s,d); s+="\n"; }
  for(auto&v:c.ops){ s+="op"; for(long d:v) s+=fmt(" %ld",d); s+="\n"; }
  for(auto&v:c.env){ s+="env"; for(double d:v) putd(s,d); s+="\n"; }
  for(auto&k:c.p){ s+="p "+k.first; putd(s,k.second); s+="\n"; }
  return s; }
bool parseCases(const Str& t, std::vector<Case>& out){
  Case c; bool any=false; size_t i=0;
  auto flush=[&]{ if(any) out.push_back(c); c=Case(); any=false; };
  while(i<t.size()){ size_t e=t.find('\n',i); if(e==Str::npos) e=t.size(); Str l=t.substr(i,e-i); i=e+1;
    if(l.empty()||l[0]=='#') continue;
    if(l[0]=='-'){ flush(); continue; }
    size_t sp=l.find(' '); Str k=l.substr(0,sp), r= sp==Str::npos?"":l.substr(sp+1); any=true;
    auto nums=[&](const Str&r){ Vec v; const char*q=r.c_str(); char*e; for(;;){ double d=strtod(q,&e); if(e==q) break; v.push_back(d); q=e; } return v; };
    if(k=="sub") c.sub=r; else if(k=="fn") c.fn=r; else if(k=="o") c.o=nums(r); else if(k=="in") c.in.push_back(nums(r));
    else if(k=="env") c.env.push_back(nums(r));
    else if(k=="op"){ std::vector<long> v; const char*q=r.c_str(); char*e; for(;;){ long d=strtol(q,&e,10); if(e==q) break; v.push_back(d); q=e; } c.ops.push_back(v); }
    else if(k=="p"){ size_t s2=r.find(' '); c.p[r.substr(0,s2)]=strtod(r.c_str()+s2,nullptr); }
    else return false; }
  flush(); return true; }

// ------------------------------------------------------------------ allocation accounting / faults
long g_live=0,g_allocCount=0,g_failAt=0,g_allocCap=0; u64 g_badFree=0;
extern "C" { void*__real_malloc(size_t); void*__real_calloc(size_t,size_t); void*__real_realloc(void*,size_t); void __real_free(void*);
static bool deny(size_t n){ long c=__atomic_add_fetch(&g_allocCount,1,__ATOMIC_RELAXED); return (g_failAt && c==g_failAt) || (g_allocCap && n>(size_t)g_allocCap); }
void*__wrap_malloc(size_t n){ if(deny(n)) return nullptr; void*p=__real_malloc(n); if(p) __atomic_add_fetch(&g_live,1,__ATOMIC_RELAXED); return p; }
void*__wrap_calloc(size_t a,size_t b){ size_t n; if(__builtin_mul_overflow(a,b,&n)) n=(size_t)-1; if(deny(n)||n==(size_t)-1) return nullptr; void*p=__real_calloc(a,b); if(p) __atomic_add_fetch(&g_live,1,__ATOMIC_RELAXED); return p; }
void*__wrap_realloc(void*q,size_t n){ if(deny(n)) return nullptr; void*p=__real_realloc(q,n); if(p&&!q) __atomic_add_fetch(&g_live,1,__ATOMIC_RELAXED); return p; }
void __wrap_free(void*p){ if(p) __atomic_sub_fetch(&g_live,1,__ATOMIC_RELAXED); __real_free(p); }
}

// ------------------------------------------------------------------ library helpers
const Fn* findFn(const Str&s){ for(int i=0;i<NFN;i++) if(s==FNS[i].name) return &FNS[i]; return nullptr; }
void resetGlobals(){ TA_SetUnstablePeriod(TA_FUNC_UNST_ALL,0); TA_SetCompatibility(TA_COMPATIBILITY_DEFAULT); TA_RestoreCandleDefaultSettings(TA_AllCandleSettings); }
void applyEnv(const Case&c){ resetGlobals();
  for(auto&e:c.env){ if(e.empty()) continue; int k=(int)e[0];
    if(k==0&&e.size()>2) TA_SetUnstablePeriod((TA_FuncUnstId)(int)e[1],(unsigned)e[2]);
    else if(k==1&&e.size()>1) TA_SetCompatibility((TA_Compatibility)(int)e[1]);
    else if(k==2&&e.size()>4) TA_SetCandleSettings((TA_CandleSettingType)(int)e[1],(TA_RangeType)(int)e[2],(int)e[3],e[4]); } }
static const char* UNST[25]={"ADX","ADXR","ATR","CMO","DX","EMA","HT_DCPERIOD","HT_DCPHASE","HT_PHASOR","HT_SINE","HT_TRENDLINE","HT_TRENDMODE","IMI","KAMA","MAMA","MFI","MINUS_DI","MINUS_DM","NATR","PLUS_DI","PLUS_DM","RSI","STOCHRSI","T3","WLMA"};
int unstId(const Str&f){ for(int i=0;i<25;i++) if(f==UNST[i]) return i; return -1; }

bool validOpts(const Case&c){ const Fn*f=findFn(c.fn); if(!f) return true; if((int)c.o.size()!=f->nOpt) return c.o.empty();
  for(int i=0;i<f->nOpt;i++){ double v=c.o[i]; const OptD&d=f->opt[i]; if(d.type!=1&&v==INT_MIN) continue; if(d.type==1&&v==-4e37) continue; if(!(v>=d.min&&v<=d.max)) return false; if(d.type!=1&&v!=std::floor(v)) return false; }
  return true; }

// ------------------------------------------------------------------ execution
struct Slot { volatile long cur; volatile int done; volatile int failed; volatile long failIdx; char msg[1000]; volatile long evals; };
struct Shared { volatile int stop; Slot slot[64]; };
static Shared* SH; static const int W=8;
static Prop* PR; static bool THOROUGH; static u64 SEED; static Str OUT; static double CPU_LIMIT=60;
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static void onprof(int){ static const char m[]="CPU time limit for one case exceeded (does not terminate)\n"; (void)!write(2,m,sizeof m-1); _exit(98); }
static void arm(double s){ itimerval t{}; t.it_value.tv_sec=(long)s; t.it_value.tv_usec=0; setitimer(ITIMER_PROF,&t,nullptr); }
static Case genCase(u64 idx){ Rng r(mix64(SEED*0x1000193ULL+hashs(PR->id))^mix64(idx*2+1)); return PR->gen(r,idx,THOROUGH); }
static void runCase(const Case&c,Ctx&x){ g_failAt=0; g_allocCap=0; applyEnv(c); PR->run(c,x); g_failAt=0; g_allocCap=0; }

static void worker(int w,long N,double deadline){
  signal(SIGPROF,onprof);
  int fd=open((OUT+fmt("/worker%d.err",w)).c_str(),O_CREAT|O_TRUNC|O_WRONLY,0644); if(fd>=0) dup2(fd,2);
  std::map<Str,long> cls; std::unordered_set<u64> seen; Slot&s=SH->slot[w]; std::vector<Str> samples;
  for(long i=w;i<N;i+=W){ if(SH->stop||now()>deadline) break;
    s.cur=i; arm(CPU_LIMIT);
    Case c=genCase(i); Ctx x; x.cls=&cls;
    try{ runCase(c,x); } catch(Fail&f){ strncpy(s.msg,f.what(),sizeof s.msg-1); s.failIdx=i; s.failed=1; SH->stop=1; break; }
    s.evals=s.evals+1;
    if(x.nontrivial){ Str t=ser(c); if(seen.insert(hashs(t)).second && samples.size()<3 && t.size()<1500) samples.push_back(t); } }
  FILE*f=fopen((OUT+fmt("/worker%d.txt",w)).c_str(),"w");
  for(auto&k:cls) fprintf(f,"C %s\t%ld\n",k.first.c_str(),k.second);
  for(u64 h:seen) fprintf(f,"H %llx\n",(unsigned long long)h);
  for(auto&t:samples){ Str u; for(char ch:t) u+= ch=='\n'?'|':ch; fprintf(f,"S %s\n",u.c_str()); }
  fclose(f); s.done=1; _exit(0);
}
// Run a sequence of cases in a forked child. Returns "" if all hold, else a message.
static Str forkRun(const std::vector<Case>&cs){
  int pfd[2]; if(pipe(pfd)) return ""; fflush(nullptr);
  Str ef=OUT+"/child.err";
  pid_t p=fork();
  if(!p){ close(pfd[0]); int fd=open(ef.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0644); if(fd>=0) dup2(fd,2);
    signal(SIGPROF,onprof);
    for(auto&c:cs){ arm(CPU_LIMIT); Ctx x; try{ runCase(c,x);} catch(Fail&f){ Str m=Str("F")+f.what(); (void)!write(pfd[1],m.data(),m.size()); _exit(3);} }
    _exit(0); }
  close(pfd[1]); Str m; char b[2048]; ssize_t k; while((k=read(pfd[0],b,sizeof b))>0) m.append(b,k); close(pfd[0]);
  int st; waitpid(p,&st,0);
  if(WIFEXITED(st)&&WEXITSTATUS(st)==0) return "";
  if(WIFSIGNALED(st)&&WTERMSIG(st)==SIGKILL) return ""; // resource limits of the sandbox: inconclusive
  if(!m.empty()) return m.substr(1);
  // crash: summarise
  Str e; FILE*f=fopen(ef.c_str(),"r"); if(f){ char l[600]; while(fgets(l,sizeof l,f)){ Str s=l; if(s.find("runtime error")!=Str::npos||s.find("ERROR:")!=Str::npos||s.find("SUMMARY")!=Str::npos||s.find("CPU time")!=Str::npos){ while(!s.empty()&&s.back()=='\n') s.pop_back(); e+=s+"; "; if(e.size()>600) break; } } fclose(f); }
  return fmt("crash/abort (status %x): ",st)+e;
}
static bool still(const Case&c,Str&msg){ Str m=forkRun({c}); if(m.empty()) return false; msg=m; return true; }
static Case shrink(Case c,Str&msg,double budget){
  double end=now()+budget; bool prog=true; long tries=0;
  auto attempt=[&](Case d){ if(now()>end) return false; if(PR->fixup) PR->fixup(d); if(!PR->anyOpts&&!validOpts(d)) return false; if(ser(d)==ser(c)) return false; tries++; Str m; if(still(d,m)){ c=d; msg=m; return true; } return false; };
  while(prog&&now()<end){ prog=false;
    // ops
    for(size_t ch=std::max<size_t>(1,c.ops.size()/2); ch>=1; ch/=2){ for(size_t i=0;i+ch<=c.ops.size();){ Case d=c; d.ops.erase(d.ops.begin()+i,d.ops.begin()+i+ch); if(attempt(d)) prog=true; else i+=ch; if(now()>end) break; } if(ch==1) break; }
    for(size_t i=0;i<c.env.size();){ Case d=c; d.env.erase(d.env.begin()+i); if(attempt(d)) prog=true; else i++; }
    // bars
    if(!c.in.empty()){ for(size_t ch=std::max<size_t>(1,c.in[0].size()/2); ch>=1; ch/=2){
        for(long i=(long)c.in[0].size()-(long)ch;i>=0;){ Case d=c; bool ok=true; for(auto&v:d.in){ if(v.size()<i+ch){ok=false;break;} v.erase(v.begin()+i,v.begin()+i+ch);} if(ok&&attempt(d)) { prog=true; } i-=ch; if(now()>end) break; }
        if(ch==1) break; } }
    // scalars: params and options toward simple values
    for(auto&k:std::map<Str,double>(c.p)){ for(double t:{0.0,1.0,std::floor(k.second/2),k.second-1}){ if(t==k.second||std::fabs(t)>std::fabs(k.second)) continue; Case d=c; d.p[k.first]=t; if(attempt(d)){prog=true;break;} } }
    const Fn*f=findFn(c.fn);
    for(size_t i=0;i<c.o.size();i++){ if(c.o[i]==INT_MIN||c.o[i]<-3.5e37) continue; std::vector<double> ts{0.0,1.0,2.0,3.0,std::floor(c.o[i]/2),c.o[i]-1}; if(f&&i<(size_t)f->nOpt) ts.push_back(f->opt[i].def); for(double t:ts){ if(t==c.o[i]||std::fabs(t)>std::fabs(c.o[i])) continue; Case d=c; d.o[i]=t; if(attempt(d)){prog=true;break;} } }
    for(size_t i=0;i<c.ops.size();i++) for(size_t j=0;j<c.ops[i].size();j++){ long v=c.ops[i][j]; for(long t:{0L,1L,v/2,v-1}){ if(t==v||labs(t)>labs(v)) continue; Case d=c; d.ops[i][j]=t; if(attempt(d)){prog=true;break;} if(now()>end) break; } }
    // values: round (whole series first)
    for(int dig=0;dig<3;dig++){ double m=dig==0?1:dig==1?10:100; Case d=c; for(auto&v:d.in) for(auto&y:v) y=std::round(y*m)/m; if(attempt(d)){prog=true;break;} }
    if(now()<end) for(size_t s=0;s<c.in.size();s++) for(size_t i=0;i<c.in[s].size();i++){ double y=c.in[s][i]; if(y==std::round(y)&&std::fabs(y)<=2) continue; for(double t:{0.0,1.0,std::round(y)}) { if(t==y) continue; if(std::fabs(t)>std::fabs(y)&&t!=std::round(y)) continue; Case d=c; d.in[s][i]=t; if(attempt(d)){prog=true;break;} if(now()>end) break; } }
  }
  return c; }
static Str jesc(const Str&s){ Str o; for(unsigned char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if(c=='\n') o+="\\n"; else if(c<32||c>126) o+=fmt("\\u%04x",c); else o+=c; } return o; }
static Str slurp(const Str&f){ Str s; FILE*h=fopen(f.c_str(),"rb"); if(!h) return s; char b[65536]; size_t k; while((k=fread(b,1,sizeof b,h))>0) s.append(b,k); fclose(h); return s; }

static int survey(long N){ // exploration aid for the author: never stops, prints failures per sub/fn
  std::map<Str,std::pair<long,Str>> fails; long tot=0;
  std::vector<int> fds; std::vector<pid_t> pids;
  for(int w=0;w<W;w++){ int p[2]; if(pipe(p)) return 1; pid_t q=fork(); if(!q){ close(p[0]); FILE*o=fdopen(p[1],"w");
      for(long i=w;i<N;i+=W){ Case c=genCase(i); // batch of cases in a child to isolate crashes
        Ctx x; static std::map<Str,long> cls; x.cls=&cls; Str m; bool crashed=false;
        // optimistic run in-process group: fork per 200
        static pid_t dummy; (void)dummy; (void)crashed;
        int pp[2]; if(pipe(pp)) _exit(1); pid_t k=fork();
        if(!k){ int fd=open("/dev/null",O_WRONLY); dup2(fd,2); signal(SIGPROF,onprof); FILE*oo=fdopen(pp[1],"w");
          long j=i; for(int t=0;t<400&&j<N;t++,j+=W){ Case d=genCase(j); Ctx y; arm(20); fprintf(oo,"R %ld\n",j); fflush(oo); try{ runCase(d,y); } catch(Fail&f){ Str mm=f.what(); for(auto&ch:mm) if(ch=='\n') ch=' '; fprintf(oo,"F %ld %s/%s\t%s\n",j,d.sub.c_str(),d.fn.c_str(),mm.c_str()); fflush(oo);} }
          fprintf(oo,"D\n"); fflush(oo); _exit(0); }
        close(pp[1]); FILE*in=fdopen(pp[0],"r"); char l[5000]; long last=i; bool done=false;
        while(fgets(l,sizeof l,in)){ if(l[0]=='R') last=atol(l+2); else if(l[0]=='D') done=true; else fputs(l,o); }
        fclose(in); int st; waitpid(k,&st,0); if(!done){ Case d=genCase(last); fprintf(o,"F %ld %s/%s\tCRASH %x\n",last,d.sub.c_str(),d.fn.c_str(),st); }
        i=last; }
      fflush(o); _exit(0); }
    close(p[1]); fds.push_back(p[0]); pids.push_back(q); }
  for(int w=0;w<W;w++){ FILE*in=fdopen(fds[w],"r"); char l[5000]; while(fgets(l,sizeof l,in)){ long idx; int off; if(sscanf(l,"F %ld %n",&idx,&off)<1) continue; Str r=l+off; while(!r.empty()&&r.back()=='\n') r.pop_back(); size_t t=r.find('\t'); Str k=r.substr(0,t); if(r.find("CRASH")!=Str::npos) k+=" CRASH"; auto&e=fails[k]; if(!e.first++) e.second=fmt("idx %ld: ",idx)+r.substr(t+1); tot++; } fclose(in); waitpid(pids[w],nullptr,0); }
  for(auto&k:fails) printf("%-40s %6ld  %s\n",k.first.c_str(),k.second.first,k.second.second.c_str());
  printf("total failures %ld of %ld\n",tot,N); return 0; }

// one function only, in this process, by the cases the quick tier has for it: for mutation runs of the author
static int onlyFn(const Str&fn,long scale){ std::vector<Str> F; for(long i=0;i<1000;i++) F.push_back(genCase(i).fn); long T=0; for(long t=1;t<=200&&!T;t++){ bool ok=true; for(long i=0;i+t<1000&&ok;i++) ok=F[i]==F[i+t]; if(ok) T=t; }
  if(!T) T=1; signal(SIGPROF,onprof); long N=PR->quick/scale,ran=0;
  for(long o=0;o<T;o++){ if(T>1&&F[o]!=fn) continue; for(long i=o;i<N;i+=T){ Case c=genCase(i); if(c.fn!=fn) continue; Ctx x; arm(20); ran++; try{ runCase(c,x);} catch(Fail&f){ printf("KILLED %s %ld: %s\n",PR->id.c_str(),ran,f.what()); return 1; } } }
  return 0; }

int main(int argc,char**argv){
  if(argc>=6&&Str(argv[1])=="--only"){ // vf --only FN ID,ID,.. SEED OUT [SCALE]
    OUT=argv[5]; mkdir(OUT.c_str(),0755); TA_Initialize(); SEED=strtoull(argv[4],nullptr,10); Str l=argv[3]; size_t i=0; while(i<l.size()){ size_t e=l.find(',',i); if(e==Str::npos) e=l.size(); Str id=l.substr(i,e-i); i=e+1; PR=nullptr; for(auto&p:props()) if(p.id==id) PR=&p; if(!PR) return 2; if(onlyFn(argv[2],argc>6?atol(argv[6]):1)) return 1; } return 0; }
  // vf PROP TIER SEED OUTDIR [N] | vf PROP --replay FILE OUTDIR | vf PROP --survey N SEED OUT | vf PROP --show IDX SEED OUT
  if(argc<5){ fprintf(stderr,"usage\n"); return 2; }
  for(auto&p:props()) if(p.id==argv[1]) PR=&p;
  if(!PR){ fprintf(stderr,"no property %s\n",argv[1]); return 2; }
  OUT=argv[4]; mkdir(OUT.c_str(),0755);
  if(const char*e=getenv("VF_CPU_LIMIT")) CPU_LIMIT=atof(e);
  if(TA_Initialize()!=TA_SUCCESS){ fprintf(stderr,"TA_Initialize failed\n"); }
  Str mode=argv[2];
  if(mode=="--replay"){ std::vector<Case> cs; if(!parseCases(slurp(argv[3]),cs)||cs.empty()){ fprintf(stderr,"bad replay file\n"); return 2; }
    Str m=forkRun(cs); if(m.empty()){ printf("replay: holds\n"); return 0; } printf("replay: FAILS: %s\n",m.c_str()); return 1; }
  if(mode=="--survey"){ SEED=argc>5?strtoull(argv[5],nullptr,10):1; THOROUGH=getenv("VF_THOROUGH")!=nullptr; return survey(atol(argv[3])); }
  if(mode=="--show"){ SEED=argc>5?strtoull(argv[5],nullptr,10):1; Case c=genCase(atol(argv[3])); fputs(ser(c).c_str(),stdout); Str m; bool f=still(c,m); printf("# %s\n",f?m.c_str():"holds"); if(f&&argc>6){ c=shrink(c,m,40); printf("# shrunk:\n%s# %s\n",ser(c).c_str(),m.c_str()); } return 0; }
  THOROUGH=mode=="thorough"; SEED=strtoull(argv[3],nullptr,10);
  long N=argc>5?atol(argv[5]):(THOROUGH?PR->thorough:PR->quick);
  double cap=THOROUGH?PR->thoroughCap:PR->cap; if(const char*e=getenv("VF_CAP")) cap=atof(e);
  double t0=now();
  SH=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset((void*)SH,0,sizeof(Shared));
  pid_t pid[W]; for(int w=0;w<W;w++){ unlink((OUT+fmt("/worker%d.txt",w)).c_str()); fflush(nullptr); pid[w]=fork(); if(!pid[w]) worker(w,N,t0+cap); }
  std::vector<std::pair<long,int>> failing; Str crashInfo;
  for(int w=0;w<W;w++){ int st; waitpid(pid[w],&st,0); Slot&s=SH->slot[w];
    if(s.failed) failing.push_back({s.failIdx,w});
    else if(!s.done && !(WIFSIGNALED(st)&&WTERMSIG(st)==SIGKILL)) { SH->stop=1; failing.push_back({s.cur,w}); } }
  std::sort(failing.begin(),failing.end());
  // statistics
  long evals=0; std::set<Str> H; std::map<Str,long> C; std::vector<Str> S;
  for(int w=0;w<W;w++){ evals+=SH->slot[w].evals; Str t=slurp(OUT+fmt("/worker%d.txt",w)); size_t i=0; int sc=0;
    while(i<t.size()){ size_t e=t.find('\n',i); Str l=t.substr(i,e-i); i=e+1; if(l.size()<2) continue; if(l[0]=='H') H.insert(l.substr(2)); else if(l[0]=='C'){ size_t q=l.find('\t'); C[l.substr(2,q-2)]+=atol(l.c_str()+q); } else if(l[0]=='S'&&sc++<1&&S.size()<5) S.push_back(l.substr(2)); } }
  int violations=0; Str replay,vmsg;
  for(auto&fw:failing){ Case c=genCase(fw.first); Str m; std::vector<Case> seq{c};
    if(!still(c,m)){ // depends on earlier cases of the same worker?
      bool got=false; for(long k=1;k<=256;k*=4){ std::vector<Case> q; for(long j=k;j>=0;j--){ long ix=fw.first-j*W; if(ix>=0) q.push_back(genCase(ix)); } Str mm=forkRun(q); if(!mm.empty()){ // minimise the history greedily
          double end=now()+60; for(size_t a=0;a+1<q.size()&&now()<end;){ auto r=q; r.erase(r.begin()+a); Str m3=forkRun(r); if(!m3.empty()){ q=r; mm=m3; } else a++; }
          seq=q; m=mm; got=true; break; } }
      if(!got){ fprintf(stderr,"note: case %ld failed once (%s) but does not reproduce; ignored\n",fw.first,SH->slot[fw.second].msg); continue; }
    } else { c=shrink(c,m,THOROUGH?90:45); seq={c}; }
    bool ok=true; for(int k=0;k<3;k++) if(forkRun(seq).empty()) ok=false;
    if(!ok){ fprintf(stderr,"note: case %ld is not stable under replay; ignored\n",fw.first); continue; }
    Str t=fmt("# property %s, seed %llu, case %ld\n# %s\n",PR->id.c_str(),(unsigned long long)SEED,fw.first,m.c_str()); for(auto&k:seq) t+=ser(k)+"-\n";
    replay=OUT+"/"+PR->id+fmt("-%016llx.replay",(unsigned long long)hashs(t)); FILE*f=fopen(replay.c_str(),"w"); fputs(t.c_str(),f); fclose(f); vmsg=m; violations=1; break; }
  // result file for the driver
  FILE*f=fopen((OUT+"/result.json").c_str(),"w");
  fprintf(f,"{\"property\":\"%s\",\"evaluations\":%ld,\"planned\":%ld,\"distinct_nontrivial\":%zu,\"rule\":\"%s\",\"wall_s\":%.2f,\"violations\":%d,\"replay\":\"%s\",\"message\":\"%s\",",PR->id.c_str(),evals,N,H.size(),jesc(PR->rule).c_str(),now()-t0,violations,jesc(replay).c_str(),jesc(vmsg).c_str());
  fprintf(f,"\"classes\":{"); bool first=true; for(auto&k:C){ fprintf(f,"%s\"%s\":%ld",first?"":",",jesc(k.first).c_str(),k.second); first=false; }
  fprintf(f,"},\"assumptions\":["); for(size_t i=0;i<PR->assumptions.size();i++) fprintf(f,"%s\"%s\"",i?",":"",jesc(PR->assumptions[i]).c_str());
  fprintf(f,"],\"samples\":["); for(size_t i=0;i<S.size();i++) fprintf(f,"%s\"%s\"",i?",":"",jesc(S[i]).c_str()); fprintf(f,"]}\n"); fclose(f);
  return violations;
}
