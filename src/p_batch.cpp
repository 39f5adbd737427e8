#include <numeric>
// Properties over the batch calls of all functions: output range contract, window and causality, sub-ranges, aliasing, float entry points.
#include "stream.h"
bool fixedZero(const Fn&);
static Case genRange(Rng&r,u64 idx,int slack,double pC=0.15){ // a function, settings, parameters, bars and a range p.s..p.e
  const Fn&f=pickFn(r,idx); Case c; if(f.candle&&r.chance(0.5)){ c=genCandleCase(r,f,slack); c.p.clear(); c.sub=""; }
  else { c.fn=f.name; genEnv(r,f,c,0.3,pC,0.4); applyEnv(c); c.o=genOpts(r,f,150); int lb=f.lookback(c.o.data()); genInputs(r,f,std::max(1,lb+slackOf(r,(int)r.range(-3,slack))),c.in); unitChange(r,f,c.in); }
  applyEnv(c); int n=c.n(),lb=f.lookback(c.o.data()); long s= r.chance(0.3)?0: r.chance(0.4)? r.range(std::max(0,lb-2),lb+2): r.range(0,n-1); s=std::max(0L,std::min<long>(s,n-1));
  long e= r.chance(0.4)?n-1: r.chance(0.3)?s+r.range(0,2): r.range(s,n-1); e=std::max(s,std::min<long>(e,n-1)); c.p["s"]=s; c.p["e"]=e; return c; }
static bool getRange(const Case&c,int&s,int&e){ int n=c.n(); if(n<1) return false; s=std::max(0,std::min(n-1,(int)c.P("s"))); e=std::max(s,std::min(n-1,(int)c.P("e"))); return true; }
static bool meta(const Case&c){ bool m=false; for(auto&e:c.env) if(e[0]==1) m=e[1]!=0; return m; }
static bool idxOut(const Fn&f){ return Str(f.name).find("INDEX")!=Str::npos; }
// outputs prefilled with a pattern, in buffers of exactly e-s+1 elements
struct Raw { int rc,b,nb; std::vector<Vec> r; std::vector<std::vector<int>> i; };
static Raw rawRun(const Fn&f,const Case&c,const void*const*ip,int s,int e,u64 pat,bool single=false){ Raw R; R.b=-77; R.nb=-77; int m=e-s+1; void*op[3]; Rng g(pat);
  R.r.resize(3); R.i.resize(3); double fill= pat%3==0?std::nan(""): pat%3==1? 1e300: -g.real(1,1e6); int ifill=(int)(0x55550000+(pat&0xffff));
  for(int k=0;k<f.nOut;k++){ if(f.out[k].isInt){ R.i[k].assign(m,ifill); op[k]=R.i[k].data(); } else { R.r[k].assign(m,fill); op[k]=R.r[k].data(); } }
  R.rc=(single?f.sbatch:f.batch)(s,e,ip,c.o.data(),&R.b,&R.nb,op); return R; }
static Str sameRaw(const Fn&f,const Raw&A,const Raw&B,int shiftIdx=0,int upto=-1){ // compares the values of A against B (B's bars start at the same absolute bar)
  if(A.rc!=B.rc) return fmt("return codes %d and %d",A.rc,B.rc); if(A.rc) return ""; int nb=upto>=0?upto:A.nb;
  for(int k=0;k<f.nOut;k++) for(int j=0;j<nb;j++){ if(f.out[k].isInt){ if(A.i[k][j]!=B.i[k][j]+shiftIdx) return fmt("%s[%d] is %d and %d",f.out[k].name,j,A.i[k][j],B.i[k][j]+shiftIdx); } else if(!biteq(A.r[k][j],B.r[k][j])) return fmt("%s[%d] is %.17g and %.17g",f.out[k].name,j,A.r[k][j],B.r[k][j]); }
  return ""; }
static void ptrs(const Case&c,const void**ip){ for(size_t k=0;k<c.in.size();k++) ip[k]=c.in[k].data(); }
// ---------------------------------------------------------------- C06 output range contract
static Case genC06(Rng&r,u64 idx,bool th){ Case c=genRange(r,idx,th?90:40); c.sub="range"; return c; }
static void runC06(const Case&c,Ctx&x){ const Fn&f=*findFn(c.fn); int s,e; if(!getRange(c,s,e)) return; int lb=f.lookback(c.o.data()); if(lb<0) x.fail(fmt("TA_%s_Lookback is %d for valid parameters",f.name,lb));
  std::vector<std::unique_ptr<double[]>> own; const void*ip[4]; for(int k=0;k<f.nIn;k++){ own.emplace_back(new double[e+1]); std::copy(c.in[k].begin(),c.in[k].begin()+e+1,own.back().get()); ip[k]=own.back().get(); } // no readable bar after the range
  Raw A=rawRun(f,c,ip,s,e,3),B=rawRun(f,c,ip,s,e,4),D=rawRun(f,c,ip,s,e,5); if(A.rc) x.fail(fmt("TA_%s returned %d for a valid call",f.name,A.rc));
  for(int k=0;k<f.nIn;k++) if(memcmp(own[k].get(),c.in[k].data(),(e+1)*8)) x.fail(fmt("TA_%s changed its input %s",f.name,f.in[k]));
  int beg=std::max(s,lb),nb=std::max(0,e-beg+1);
  if(A.nb!=nb) x.fail(fmt("TA_%s [%d,%d] with lookback %d: %d values, expected %d",f.name,s,e,lb,A.nb,nb));
  if(nb&&A.b!=beg) x.fail(fmt("TA_%s [%d,%d] with lookback %d: begins at %d, expected %d",f.name,s,e,lb,A.b,beg));
  if(!nb&&A.b!=0) x.fail(fmt("TA_%s [%d,%d] with lookback %d: no value, but it begins at %d",f.name,s,e,lb,A.b));
  if(B.b!=A.b||B.nb!=A.nb||D.nb!=A.nb) x.fail("the range reported depends on the previous content of the output");
  Str w=sameRaw(f,A,B); if(w.empty()) w=sameRaw(f,A,D); if(!w.empty()) x.fail(fmt("TA_%s: values depend on the previous content of the output: ",f.name)+w);
  x.nontrivial=true; x.tag(nb?"values":"no values"); x.tag(f.group); }
static Reg r6({"C06","a case is one function with generated settings, parameters, bars and a range; non-trivial: every case (the range is valid); classes count ranges with and without values",300000,4000000,genC06,runC06,fixBars});
// ---------------------------------------------------------------- C07 window and causality
static Case genC07(Rng&r,u64 idx,bool th){ Case c=genRange(r,idx,th?90:40,0.1); c.sub="window"; c.p["salt"]=r.range(1,1000000); return c; }
static void runC07(const Case&c,Ctx&x){ const Fn&f=*findFn(c.fn); int s,e; if(!getRange(c,s,e)) return; int n=c.n(),lb=f.lookback(c.o.data()); const void*ip[4]; ptrs(c,ip);
  Raw A=rawRun(f,c,ip,s,e,3); if(A.rc) x.fail(fmt("TA_%s returned %d",f.name,A.rc)); if(A.nb<=0) return;
  // bars outside of [first-lookback, e] are irrelevant (with the Metastock setting, only later ones: its averages start at the first bar)
  int lo=meta(c)?0:A.b-lb; Rng g((u64)c.P("salt")); Case d=c; long changed=0; int mode=(int)g.range(0,2);
  for(auto&v:d.in) for(int i=0;i<n;i++) if(i<lo||i>e){ v[i]= mode==0?std::nan(""): mode==1? v[i]*g.real(0.2,5)+g.range(-3,3): (i%2?1e12:-1e12); changed++; }
  const void*iq[4]; ptrs(d,iq); Raw B=rawRun(f,d,iq,s,e,4); Str w=B.nb!=A.nb||B.b!=A.b?Str("a different range"):sameRaw(f,A,B); if(!w.empty()) x.fail(fmt("TA_%s [%d,%d], lookback %d: changing bars outside of [%d,%d] changes the result: ",f.name,s,e,lb,lo,e)+w);
  // the values of a prefix of the range do not depend on what follows
  int e2=(int)g.range(A.b,e); Raw C2=rawRun(f,c,ip,s,e2,5); if(C2.rc||C2.nb!=e2-A.b+1||C2.b!=A.b) x.fail(fmt("TA_%s [%d,%d]: %d values from %d",f.name,s,e2,C2.nb,C2.b)); w=sameRaw(f,C2,A); if(!w.empty()) x.fail(fmt("TA_%s: [%d,%d] and [%d,%d] differ in their common bars: ",f.name,s,e2,s,e)+w);
  x.nontrivial=changed>0||e2<e; x.tag(changed?"bars outside were changed":"whole series"); x.tag(f.group); }
static Reg r7({"C07","a case is one function with generated settings, parameters, bars and a range; bars outside of the range and its lookback are replaced (by not-a-number, other values, huge values), and the range is cut short; non-trivial: values exist and some bar was replaced or cut",550000,4000000,genC07,runC07,fixBars});
// ---------------------------------------------------------------- C08 shifts and sub-ranges
static bool recursive(const Fn&f){ // values depend on where the calculation starts
  Str n=f.name; if(f.unst) return true; static const std::set<Str> R={"AD","OBV","NVI","PVI","PVT","ADOSC","SAR","SAREXT","DEMA","TEMA","TRIX","MACD","MACDEXT","MACDFIX","APO","PPO","MA","MAVP","BBANDS","STOCH","STOCHF","STOCHRSI","HT_TRENDMODE"}; return R.count(n)>0; }
static bool plainMA(const Fn&f,const Case&c){ // a parametrised function whose moving averages are all of finite memory
  Str n=f.name; int a=-1,b=-1; if(n=="MA"||n=="MAVP") a=f.nOpt-1; else if(n=="BBANDS") a=3; else if(n=="APO"||n=="PPO") a=2; else if(n=="STOCHF") a=2; else if(n=="STOCH"){ a=2;b=4; } else return false;
  auto fin=[&](int k){ int t=(int)c.o[k]; if(t==INT_MIN) return true; return t==0||t==2||t==5; }; return fin(a)&&(b<0||fin(b)); }
static Case genC08(Rng&r,u64 idx,bool th){ Case c=genRange(r,idx,th?90:40,0.08); c.sub="shift"; return c; }
static void runC08(const Case&c,Ctx&x){ const Fn&f=*findFn(c.fn); int s,e; if(!getRange(c,s,e)) return; int n=c.n(),lb=f.lookback(c.o.data()); const void*ip[4]; ptrs(c,ip);
  Raw A=rawRun(f,c,ip,s,e,3); if(A.rc) x.fail(fmt("TA_%s returned %d",f.name,A.rc)); if(A.nb<=0) return; int sh=A.b-lb;
  if(sh>0&&!meta(c)){ const void*iq[4]; for(int k=0;k<f.nIn;k++) iq[k]=c.in[k].data()+sh; Raw B=rawRun(f,c,iq,A.b-sh,e-sh,4); if(B.rc||B.nb!=A.nb||B.b!=lb) x.fail(fmt("TA_%s on the series without its first %d bars: %d values from %d",f.name,sh,B.nb,B.b));
    Str w=sameRaw(f,A,B,idxOut(f)?sh:0); if(!w.empty()){ Sens S(c,f,s,e); bool bad=false; // a difference in rounding only is none
      for(int k=0;k<f.nOut;k++) for(int j=0;j<A.nb;j++) bad|= f.out[k].isInt? A.i[k][j]!=B.i[k][j]+(idxOut(f)?sh:0)&&!(!idxOut(f)&&S.intVaries(k,A.b+j,A.i[k][j])): !biteq(A.r[k][j],B.r[k][j])&&!closeEnough(S,k,A.b+j,A.r[k][j],B.r[k][j],1e-9,devSlackAt(c,f,k,&A.r[0],j));
      if(bad) x.fail(fmt("TA_%s: the range [%d,%d] and the same bars without the first %d differ: ",f.name,A.b,e,sh)+w); x.tag("~rounding"); } x.nontrivial=true; x.tag("shift"); }
  if((!recursive(f)||plainMA(f,c))&&(s>0||e<n-1)){ Bat W=runBatch(f,c.o,c.in,0,n-1); Sens S(c,f,0,n-1); bool any=false;
    for(int k=0;k<f.nOut;k++) for(int j=0;j<A.nb;j++){ int bar=A.b+j; any=true; if(bar<W.b||bar>=W.b+W.nb) x.fail(fmt("bar %d has a value in [%d,%d] but not in the whole series",bar,s,e));
      if(f.out[k].isInt){ int p=A.i[k][j],q=W.ii[k][bar-W.b]; if(p==q) continue; if(idxOut(f)){ if(p>=0&&q>=0&&p<n&&q<n&&p<=bar&&q<=bar&&p>=bar-lb&&q>=bar-lb&&c.in[0][p]==c.in[0][q]) continue; } else if(S.intVaries(k,bar,q)) { x.tag("~tie"); continue; } x.fail(fmt("TA_%s bar %d: %d in [%d,%d], %d in the whole series",f.name,bar,p,s,e,q)); }
      else if(!closeEnough(S,k,bar,W.r[k][bar-W.b],A.r[k][j],1e-8,devSlackAt(c,f,k,&A.r[0],j))) x.fail(fmt("TA_%s bar %d: %.12g in [%d,%d], %.12g in the whole series",f.name,bar,A.r[k][j],s,e,W.r[k][bar-W.b])); }
    if(any){ x.nontrivial=true; x.tag("sub-range"); } }
  x.tag(f.group); }
static Reg r8({"C08","a case is one function with generated settings, parameters, bars and a range; non-trivial: the result was compared with the one on a shifted series or, for functions of finite memory, with the one for the whole series",500000,4000000,genC08,runC08,fixBars});
// ---------------------------------------------------------------- C09 single precision entry points
static Case genC09(Rng&r,u64 idx,bool th){ const Fn&f=pickFn(r,idx); Case c; if(f.candle&&r.chance(0.6)){ c=genCandleCase(r,f,th?60:30); c.p.clear(); } else { c.fn=f.name; genEnv(r,f,c,0.3,0.15,0.4); applyEnv(c); c.o=genOpts(r,f,120); int lb=f.lookback(c.o.data()); genInputs(r,f,std::max(1,lb+slackOf(r,(int)r.range(-2,th?80:40))),c.in); }
  c.sub="float"; Str g=f.group; for(int k=0;k<f.nIn;k++){ Str nm=f.in[k]; double q= nm=="inVolume"?0.01:8; double m=0; for(double v:c.in[k]) m=std::max(m,std::fabs(v)); double sc=1; while(m*sc>400) sc/=2; while(m>0&&m*sc<1) sc*=2; if(nm=="inVolume"||nm=="inPeriods") sc=1;
    for(double&v:c.in[k]){ if(nm=="inPeriods") v=std::round(v); else if(nm=="inVolume") v=std::round(v*q)*64; else v=std::round(v*sc*q)/q; } }
  fixBars(c); if(!fixedZero(f)&&r.chance(0.08)){ int k=(int)r.range(20,50)*(r.chance(0.5)?1:-1); for(int q=0;q<f.nIn;q++){ Str nm=f.in[q]; if(nm!="inPeriods"&&nm!="inVolume") for(double&v:c.in[q]) v=std::ldexp(v,k); } } // another unit changes no rounding
  c.p["s"]=r.chance(0.5)?0:r.range(0,c.n()-1); c.p["e"]=c.n()-1; return c; }
static void runC09(const Case&c,Ctx&x){ const Fn&f=*findFn(c.fn); int s,e; if(!getRange(c,s,e)) return; int n=c.n(); std::vector<std::vector<float>> fl; const void*ip[4],*iq[4]; ptrs(c,ip);
  for(auto&v:c.in){ fl.emplace_back(); for(double d:v){ if((double)(float)d!=d) return; fl.back().push_back((float)d); } } for(int k=0;k<f.nIn;k++) iq[k]=fl[k].data(); auto keep=fl;
  Raw A=rawRun(f,c,ip,s,e,3),B=rawRun(f,c,iq,s,e,4,true); if(A.rc!=B.rc) x.fail(fmt("TA_%s returns %d, TA_S_%s %d",f.name,A.rc,f.name,B.rc)); if(A.rc) return;
  if(A.nb!=B.nb||A.b!=B.b) x.fail(fmt("TA_%s gives %d values from %d, TA_S_%s %d from %d",f.name,A.nb,A.b,f.name,B.nb,B.b)); if(fl!=keep) x.fail("TA_S_ changed its input");
  Sens S(c,f,s,e,1e-12); Sens S7(c,f,s,e,1.2e-7); bool flt=Str(f.group)=="Math Operators"||Str(f.group)=="Price Transform"; (void)flt;
  for(int k=0;k<f.nOut;k++) for(int j=0;j<A.nb;j++){ int bar=A.b+j; if(f.out[k].isInt){ if(A.i[k][j]!=B.i[k][j]&&!S.intVaries(k,bar,A.i[k][j])) x.fail(fmt("bar %d: TA_%s gives %d, TA_S_%s %d",bar,f.name,A.i[k][j],f.name,B.i[k][j])); }
    else { if(closeEnough(S,k,bar,A.r[k][j],B.r[k][j],1e-9,devSlackAt(c,f,k,&A.r[0],j))) continue; // float arithmetic between inputs
      static const std::set<Str> FA={"CCI","NVI","PVI","PVT","DIV"}; bool fa=FA.count(f.name)>0; if(fa&&closeEnough(S7,k,bar,A.r[k][j],B.r[k][j],Str(f.name)=="DIV"?2.5e-7:std::min(1e-4,2e-7*(n+2)),Str(f.name)=="CCI"?0.05:Str(f.name)=="PVT"?3e-7*std::accumulate(c.in[1].begin(),c.in[1].end(),0.0):0)) { x.tag("~float arithmetic"); continue; }
      x.fail(fmt("bar %d out %s: TA_%s gives %.12g, TA_S_%s %.12g",bar,f.out[k].name,f.name,A.r[k][j],f.name,B.r[k][j])); } }
  (void)n; x.nontrivial=A.nb>0; x.tag(f.group); }
static Reg r9({"C09","a case is one function with generated settings, parameters, a range, and bars on a grid where float arithmetic between prices is exact; non-trivial: values exist",400000,4000000,genC09,runC09,fixBars});
// ---------------------------------------------------------------- C11 output buffers may be input buffers
static Case genC11(Rng&r,u64 idx,bool th){ Case c; for(int t=0;t<50;t++,idx+=1+r.range(0,60)){ c=genRange(r,idx,th?90:40); const Fn&f=*findFn(c.fn); if(!f.out[0].isInt) break; } const Fn&f=*findFn(c.fn); c.sub="alias"; if(r.chance(0.6)) c.p["s"]=0; if(c.P("e")<c.P("s")) c.p["e"]=c.P("s");
  std::vector<int> in; for(int k=0;k<f.nIn;k++) in.push_back(k); for(int k=(int)in.size()-1;k>0;k--) std::swap(in[k],in[r.range(0,k)]);
  for(int k=0;k<f.nOut;k++) c.p[fmt("a%d",k)]= k<(int)in.size()&&(k==0||r.chance(0.7))? in[k]: -1; if(f.nOut>1&&f.nIn==1&&r.chance(0.5)){ int w=(int)r.range(0,f.nOut-1); for(int k=0;k<f.nOut;k++) c.p[fmt("a%d",k)]= k==w?0:-1; }
  c.p["state"]=r.chance(0.25)?1:0; return c; }
static void runC11(const Case&c,Ctx&x){ const Fn&f=*findFn(c.fn); int s,e; if(!getRange(c,s,e)) return; const void*ip[4]; ptrs(c,ip); bool st=c.P("state")!=0; std::set<int> used; Str what;
  for(int k=0;k<f.nOut;k++){ int a=(int)c.P(fmt("a%d",k).c_str(),-1); if(a>=0&&a<f.nIn&&used.insert(a).second) what+=fmt(" %s=%s",f.out[k].name,f.in[a]); }
  if(f.out[0].isInt||used.empty()) return; used.clear();
  auto call=[&](bool alias,int&rc,int&b,int&nb,std::vector<Vec>&in,std::vector<Vec>&out){ in=c.in; out.assign(3,Vec()); void*op[3]; const void*iq[4]; used.clear(); for(int k=0;k<f.nIn;k++) iq[k]=in[k].data();
    for(int k=0;k<f.nOut;k++){ int a=(int)c.P(fmt("a%d",k).c_str(),-1); out[k].assign(e-s+1,-5); op[k]=out[k].data(); if(alias&&a>=0&&a<f.nIn&&used.insert(a).second) op[k]=in[a].data(); }
    if(!st) rc=f.batch(s,e,iq,c.o.data(),&b,&nb,op);
    else { StateGuard g(f); rc=f.init(&g.st,c.o.data()); if(rc) x.fail("StateInit failed"); for(int i=0;i<s;i++) doStep(f,g.st,c,i); rc=f.bstate(g.st,s,e,iq,&b,&nb,op); }
    for(int k=0;k<f.nOut;k++) if(op[k]!=out[k].data()) out[k].assign((double*)op[k],(double*)op[k]+(e-s+1)); };
  int rc1,b1=0,n1=0,rc2,b2=0,n2=0; std::vector<Vec> i1,o1,i2,o2; call(false,rc1,b1,n1,i1,o1); call(true,rc2,b2,n2,i2,o2);
  const char*nm=st?"_BatchState":""; if(rc1!=rc2||b1!=b2||n1!=n2) x.fail(fmt("TA_%s%s with%s: returned %d, %d values from %d; with separate buffers %d, %d from %d",f.name,nm,what.c_str(),rc2,n2,b2,rc1,n1,b1));
  for(int k=0;k<f.nOut;k++) for(int j=0;j<n1;j++) if(!biteq(o1[k][j],o2[k][j])) x.fail(fmt("TA_%s%s with%s: %s[%d] is %.12g, with separate buffers %.12g",f.name,nm,what.c_str(),f.out[k].name,j,o2[k][j],o1[k][j]));
  x.nontrivial=n1>0; x.tag(st?"state":"batch"); x.tag(f.group); }
static Reg r11({"C11","a case is one function with real outputs, generated settings, parameters, bars, a range, and one or more outputs placed on input buffers, in the batch or the chunk call; non-trivial: values exist",350000,4000000,genC11,runC11,fixBars});
