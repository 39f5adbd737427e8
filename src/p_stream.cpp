#include "stream.h"
// ---------------------------------------------------------------- C01 streaming == batch

static bool lateDemaMetastock(const Case&c){ // known finding KF-1: see known_findings.txt
  if(c.fn!="MACDEXT") return false; bool meta=false; for(auto&e:c.env) if(e[0]==1) meta=e[1]!=0; if(!meta) return false;
  int fp=(int)c.o[0],ft=(int)c.o[1],sp=(int)c.o[2],st=(int)c.o[3]; for(int t:{ft,st}) if(t==3||t==4){ (void)fp;(void)sp; return true; } return false; }
static Case genStream(Rng&r,u64 idx,bool th){
  const Fn&f=pickFn(r,idx); Case c; if(f.candle&&r.chance(0.7)){ c=genCandleCase(r,f,th?60:30); c.sub="stream"; c.p.clear(); return c; } c.sub="stream"; c.fn=f.name;
  do { c.env.clear(); genEnv(r,f,c,0.3,0.15,0.4); applyEnv(c); c.o=genOpts(r,f,250); } while(lateDemaMetastock(c));
  bool big=enlarge(r,f,c.o,0.001); int lb=f.lookback(c.o.data()); if(!big&&lb<400&&idx/165%900==7){ genInputs(r,f,(int)r.range(65540,70000),c.in); if(c.fn=="MAVP") for(auto&x:c.in[1]) x=c.o[1]; return c; } /* longer than any 16 bit counter */ int n=std::max(1,lb+(big?(int)r.range(-2,4):slackOf(r,(int)r.range(-2,th?160:70)))); genInputs(r,f,n,c.in); unitChange(r,f,c.in);
  if(c.fn=="MAVP"){ // known finding KF-2: the stream has no variable period; only periods at or above the maximum are in scope
    double mx=c.o[1]; for(auto&x:c.in[1]) x=mx+r.range(0,3); }
  return c; }
static void runStream(const Case&c,Ctx&x){
  const Fn&f=*findFn(c.fn); int n=c.n(); int lb=f.lookback(c.o.data()); if(lb<0) return;
  Bat R=runBatch(f,c.o,c.in,0,n-1); if(R.rc) x.fail(fmt("TA_%s returned %d",f.name,R.rc));
  StateGuard g(f); int rc=f.init(&g.st,c.o.data()); if(rc) x.fail(fmt("TA_%s_StateInit returned %d",f.name,rc));
  Sens S(c,f,0,n-1,1e-12*std::max(1.0,n/1000.0)); bool idxOut=Str(f.name).find("INDEX")!=Str::npos;
  for(int i=0;i<n;i++){ StepOut s=doStep(f,g.st,c,i); bool have=R.nb>0&&i>=R.b&&i<R.b+R.nb;
    if(have&&s.rc!=0) x.fail(fmt("bar %d (lookback %d): TA_%s has a value, the stream returned %d",i,lb,f.name,s.rc));
    if(!have&&s.rc!=NMD) x.fail(fmt("bar %d (lookback %d, %d bars): TA_%s has no value, the stream returned %d",i,lb,n,f.name,s.rc));
    if(have) for(int k=0;k<f.nOut;k++){
      if(f.out[k].isInt){ int A=R.ii[k][i-R.b],B=s.i[k]; if(A==B) continue;
        if(idxOut){ if(A>=0&&A<n&&B>=std::max(0,i-lb)&&B<=i&&c.in[0][A]==c.in[0][B]) continue; } // which of several equal extremes is not specified
        else if(S.intVaries(k,i,A)) { x.tag("~tie"); continue; }
        x.fail(fmt("bar %d out %s: TA_%s gives %d, the stream %d",i,f.out[k].name,f.name,A,B)); }
      else { double A=R.r[k][i-R.b],B=s.r[k]; if(biteq(A,B)) continue; if(std::fabs(A-B)<=1e-9*std::max(std::fabs(A),std::fabs(B))) continue; if(S.scale<0) S.scale=outScale(c); double sl=devSlackAt(c,f,k,R.r,i-R.b,S.scale);
        if(!closeEnough(S,k,i,A,B,1e-8,sl)) x.fail(fmt("bar %d (lookback %d) out %s: TA_%s gives %.12g, the stream %.12g",i,lb,f.out[k].name,f.name,A,B)); } } }
  x.nontrivial=R.nb>0; x.tag(R.nb>0?"values":"no values"); x.tag(f.name); }
static Reg r1({"C01","a case is one function with generated parameters, settings and bars; non-trivial: at least one bar is past the warm-up",500000,4000000,genStream,runStream,fixBars});
