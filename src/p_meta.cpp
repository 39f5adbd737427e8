// Purity (histories and threads), scaling, and bounds of the outputs.
#include "stream.h"
#include <thread>
#include <atomic>
static bool isIdx(const Fn&f){ return Str(f.name).find("INDEX")!=Str::npos; }
// ---------------------------------------------------------------- C18 purity
struct Obs { std::vector<int> codes; Vec vals; };
static void observe(const Fn&f,const Case&c,int mode,Obs&O){ int n=c.n(); O.codes.clear(); O.vals.clear(); O.codes.push_back(f.lookback(c.o.data())); int s=(int)c.P("s"); if(s<0||s>=n) s=0;
  if(mode!=2){ Bat R=runBatch(f,c.o,c.in,s,n-1); O.codes.push_back(R.rc); O.codes.push_back(R.b); O.codes.push_back(R.nb); for(int k=0;k<f.nOut;k++) for(int j=0;j<R.nb;j++) O.vals.push_back(f.out[k].isInt?R.ii[k][j]:R.r[k][j]); }
  if(mode==1){ std::vector<std::vector<float>> fl; for(auto&v:c.in) fl.emplace_back(v.begin(),v.end()); const void*ip[4]; for(int k=0;k<f.nIn;k++) ip[k]=fl[k].data(); Vec R[3]; std::vector<int> I[3]; void*op[3]; for(int k=0;k<f.nOut;k++){ R[k].assign(n-s,0); I[k].assign(n-s,0); op[k]=f.out[k].isInt?(void*)I[k].data():(void*)R[k].data(); } int b=0,nb=0; O.codes.push_back(f.sbatch(s,n-1,ip,c.o.data(),&b,&nb,op)); O.codes.push_back(nb); for(int k=0;k<f.nOut;k++) for(int j=0;j<nb;j++) O.vals.push_back(f.out[k].isInt?I[k][j]:R[k][j]); }
  if(mode==2){ StateGuard g(f); O.codes.push_back(f.init(&g.st,c.o.data())); if(!g.st) return; for(int i=0;i<n;i++){ StepOut t=doStep(f,g.st,c,i); O.codes.push_back(t.rc); if(!t.rc) for(int k=0;k<f.nOut;k++) O.vals.push_back(f.out[k].isInt?t.i[k]:t.r[k]); } } }
static bool sameObs(const Obs&a,const Obs&b){ if(a.codes!=b.codes||a.vals.size()!=b.vals.size()) return false; for(size_t i=0;i<a.vals.size();i++) if(!biteq(a.vals[i],b.vals[i])) return false; return true; }
static Case noiseCase(long fi,u64 seed){ Rng r(mix64(seed*77+fi)); const Fn&f=FNS[fi%NFN]; Case d; d.fn=f.name; d.o=genOpts(r,f,60); int lb=f.lookback(d.o.data()); genInputs(r,f,std::max(1,lb+slackOf(r,(int)r.range(1,40))),d.in); return d; }
static Case genC18(Rng&r,u64 idx,bool th){ const Fn&f=pickFn(r,idx); Case c; c.fn=f.name; c.sub="pure"; genEnv(r,f,c,0.3,0.15,0.3); applyEnv(c); c.o=genOpts(r,f,80); int lb=f.lookback(c.o.data()); genInputs(r,f,std::max(1,lb+slackOf(r,(int)r.range(1,th?60:30))),c.in); c.p["s"]=r.chance(0.7)?0:r.range(0,c.n()-1); c.p["mode"]=r.range(0,2);
  int m=(int)r.range(1,4); for(int i=0;i<m;i++) c.ops.push_back({r.chance(0.4)?(long)(&f-FNS):r.range(0,NFN-1),r.range(0,2),r.range(1,1000000)}); c.p["threads"]=r.chance(0.25)?1:0; return c; }
static void runC18(const Case&c,Ctx&x){ const Fn&f=*findFn(c.fn); if(c.n()<1) return; int mode=(int)c.P("mode"); Obs A,B; observe(f,c,mode,A); struct N { const Fn*f; Case c; int mode; Obs o; }; std::vector<N> ns;
  for(auto&o:c.ops){ if(o.size()<3||o[0]<0) continue; N q; q.f=&FNS[o[0]%NFN]; q.c=noiseCase(o[0],(u64)o[2]); q.mode=(int)o[1]; observe(*q.f,q.c,q.mode,q.o); ns.push_back(q); }
  observe(f,c,mode,B); if(!sameObs(A,B)) x.fail(fmt("TA_%s gives another result after other calls",f.name));
  for(auto&q:ns){ Obs t; observe(*q.f,q.c,q.mode,t); if(!sameObs(q.o,t)) x.fail(fmt("TA_%s gives another result after other calls",q.f->name)); }
  if(c.P("threads")!=0&&!ns.empty()){ ns.push_back(N{&f,c,mode,A}); std::atomic<int> go{0}; std::vector<int> bad(ns.size(),0); std::vector<std::thread> T; for(size_t i=0;i<ns.size();i++) T.emplace_back([&,i]{ go++; while(go.load()<(int)ns.size()) std::this_thread::yield(); for(int k=0;k<3;k++){ Obs t; observe(*ns[i].f,ns[i].c,ns[i].mode,t); if(!sameObs(ns[i].o,t)) bad[i]=1; } });
    for(auto&t:T) t.join(); for(size_t i=0;i<ns.size();i++) if(bad[i]) x.fail(fmt("TA_%s gives another result when other threads use the library",ns[i].f->name)); x.tag("threads"); }
  x.nontrivial=!A.vals.empty(); x.tag(f.group); }
static Reg r18({"C18","a case is one function run (batch, single precision or stream) before and after up to four other runs, and for a quarter of the cases all of them at once in threads; non-trivial: it gives values",120000,1500000,genC18,runC18,fixBars});
// ---------------------------------------------------------------- C19 scaling
static bool degree(const Fn&f,double&dp,double&dv){ Str n=f.name,g=f.group; dp=0; dv=0; if(f.candle) return true;
  static const std::set<Str> one={"ATR","TRANGE","MOM","MACD","MACDEXT","MACDFIX","APO","STDDEV","AVGDEV","MIN","MAX","MINMAX","SUM","ADD","SUB","AVGPRICE","MEDPRICE","TYPPRICE","WCLPRICE","LINEARREG","LINEARREG_INTERCEPT","LINEARREG_SLOPE","TSF","PLUS_DM","MINUS_DM","HT_PHASOR"};
  static const std::set<Str> zero={"ADX","ADXR","DX","PLUS_DI","MINUS_DI","AROON","AROONOSC","BETA","BOP","CCI","CMO","CORREL","DIV","HT_DCPERIOD","IMI","MAXINDEX","MININDEX","MINMAXINDEX","MFI","NATR","PPO","ROC","ROCP","ROCR","ROCR100","RSI","STOCH","STOCHF","STOCHRSI","ULTOSC","WILLR"};
  if(one.count(n)||g=="Overlap Studies") { dp=1; return true; } if(zero.count(n)) return true; if(n=="VAR"||n=="MULT"){ dp=2; return true; } if(n=="AD"||n=="ADOSC"||n=="OBV"||n=="PVT"){ dv=1; return true; } return false; }
// functions that take magnitudes below a fixed threshold for zero
bool fixedZero(const Fn&f){ static const std::set<Str> T={"ADX","ADXR","BBANDS","BETA","BOP","CCI","CMO","DX","MINUS_DI","NATR","PLUS_DI","PPO","RSI","STDDEV","ULTOSC","CORREL","KAMA","ACCBANDS","STOCHRSI","SAREXT"}; if(T.count(f.name)) return true; for(int i=0;i<f.nOpt;i++) if(f.opt[i].type==2) return true; return false; }
static Case genC19(Rng&r,u64 idx,bool th){ Case c; double a,b; const Fn*f; for(;;idx++){ f=&pickFn(r,idx); if(degree(*f,a,b)) break; } if(f->candle&&r.chance(0.7)){ c=genCandleCase(r,*f,th?60:30); c.p.clear(); } else { c.fn=f->name; genEnv(r,*f,c,0.3,0.15,0.3); applyEnv(c); c.o=genOpts(r,*f,120); int lb=f->lookback(c.o.data()); genInputs(r,*f,std::max(1,lb+slackOf(r,(int)r.range(1,th?90:40))),c.in); }
  c.sub="scale"; bool dev=Str(f->name)=="STDDEV"||Str(f->name)=="BBANDS"; c.p["kp"]=!dev&&r.chance(0.15)?r.range(-30,-5):!fixedZero(*f)&&r.chance(0.12)?r.range(-330,300):r.range(-4,12); if(fixedZero(*f)){ double m=0; for(int k=0;k<f->nIn;k++) if(Str(f->in[k])!="inVolume"&&Str(f->in[k])!="inPeriods") for(double v:c.in[k]) m=std::max(m,std::fabs(v)); while(c.p["kp"]<0&&std::ldexp(m,(int)c.p["kp"])<1e-6) c.p["kp"]++; } c.p["kv"]=r.range(-3,8); c.p["s"]=r.chance(0.7)?0:r.range(0,c.n()-1); return c; }
// a long standstill lets decaying sums fall through the fixed epsilon below which some functions see zero, and where depends on the scale
static bool halted(const Case&c,const Fn&f,int bar){ bool km=Str(f.name)=="KAMA"; for(int i=0;i<f.nOpt;i++) if(f.opt[i].type==2&&c.o[i]==6) km=true; int lim=km?1:20; /* a volatility of nothing is told from its rounding by a fixed bound */ int run=0; for(int i=1;i<=bar&&i<c.n();i++){ bool same=true; for(int k=0;k<f.nIn;k++) if(Str(f.in[k])!="inVolume"&&c.in[k][i]!=c.in[k][i-1]) same=false; run=same?run+1:0; if(run>=lim) return true; } return false; }
static bool level(const Case&c,int bar,int p){ double a=INFINITY,b=-INFINITY; for(int i=std::max(0,bar-p+1);i<=bar;i++){ double t=(c.in[0][i]+c.in[1][i]+c.in[2][i])/3; a=std::min(a,t); b=std::max(b,t); } return b-a<=1e-9*std::max(std::fabs(a),std::fabs(b)); }
static void runC19(const Case&c,Ctx&x){ const Fn&f=*findFn(c.fn); double dp,dv; if(!degree(f,dp,dv)||c.n()<1) return; if(Str(f.name)=="NATR"&&c.o[0]==1) dp=1; /* a period of one is the plain true range */ int n=c.n(),s=std::max(0,std::min(n-1,(int)c.P("s"))); double mp=std::ldexp(1,(int)c.P("kp")),mv=std::ldexp(1,(int)c.P("kv")); Case d=c;
  for(int k=0;k<f.nIn;k++){ Str nm=f.in[k]; if(nm=="inPeriods") continue; for(double&v:d.in[k]) v*= nm=="inVolume"?mv:mp; } if(Str(f.name)=="SAREXT"&&d.o[0]!=-4e37) d.o[0]*=mp;
  Bat A=runBatch(f,c.o,c.in,s,n-1),B=runBatch(f,d.o,d.in,s,n-1); if(A.rc!=B.rc||A.b!=B.b||A.nb!=B.nb) x.fail("the range depends on the scale of the input"); if(A.rc||A.nb<=0) return; double m=std::pow(mp,dp)*std::pow(mv,dv); Sens S(d,f,s,n-1),S0(c,f,s,n-1);
  for(int k=0;k<f.nOut;k++) for(int j=0;j<A.nb;j++){ int bar=A.b+j; if(f.out[k].isInt){ if(A.ii[k][j]!=B.ii[k][j]) { if(!S.intVaries(k,bar,B.ii[k][j])&&!S0.intVaries(k,bar,A.ii[k][j])) x.fail(fmt("TA_%s bar %d: %s is %d, and %d after scaling prices by %g, volumes by %g",f.name,bar,f.out[k].name,A.ii[k][j],B.ii[k][j],mp,mv)); x.tag("~tie"); } continue; }
    double e=A.r[k][j]*m; if(biteq(e,B.r[k][j])) continue; if(closeEnough(S,k,bar,B.r[k][j],e)||std::isinf(S0.spread(k,bar,A.r[k][j]))) { x.tag("~rounding"); continue; } double sp=S0.spread(k,bar,A.r[k][j])*50*std::fabs(m)+devSlackAt(c,f,k,A.r,j)*std::fabs(m)+devSlackAt(d,f,k,B.r,j); if(std::fabs(e-B.r[k][j])<=sp) continue; if(fixedZero(f)&&(halted(c,f,bar)||(Str(f.name)=="CCI"&&level(c,bar,(int)c.o[0])))) { x.tag("~zero"); continue; } if(Str(f.name)=="CORREL"&&(e==0||B.r[k][j]==0)) { x.tag("~zero"); continue; } if(Str(f.name)=="MFI"&&(e==0||B.r[k][j]==0)) { x.tag("~zero"); continue; } /* a money flow below one counts as none; products of deviations below 1e-14 count as no deviation */
    x.fail(fmt("TA_%s bar %d: %s is %.15g, and %.15g after scaling prices by %g, volumes by %g (expected %.15g)",f.name,bar,f.out[k].name,A.r[k][j],B.r[k][j],mp,mv,e)); }
  x.nontrivial=mp!=1||mv!=1; x.tag(f.group); }
static Reg r19({"C19","a case is one function with generated settings, parameters and bars, run on the bars and on the same bars with prices and volumes multiplied by powers of two; non-trivial: values exist and a factor is not one",400000,4000000,genC19,runC19,fixBars});
// ---------------------------------------------------------------- C20 bounds
static int maOpt(const Fn&f,int nth=0){ for(int i=0;i<f.nOpt;i++) if(f.opt[i].type==2&&nth--==0) return i; return -1; }
static bool convexMA(int t){ return t==0||t==1||t==2||t==5||t==6||t==7||t==9; } // weights are not negative: SMA EMA WMA TRIMA KAMA MAMA WLMA
static bool finiteMA(int t){ return t==0||t==2||t==5; }
static Case genC20(Rng&r,u64 idx,bool th){ const Fn*f; for(;;idx++){ f=&pickFn(r,idx); Str g=f->group; if(g!="Math Transform") break; } Case c; c.fn=f->name; c.sub="bounds"; genEnv(r,*f,c,0.3,0.1,0.3); applyEnv(c); c.o=genOpts(r,*f,120); int lb=f->lookback(c.o.data()); if(f->candle&&r.chance(0.5)){ c=genCandleCase(r,*f,30); c.p.clear(); c.sub="bounds"; } else genInputs(r,*f,std::max(1,lb+slackOf(r,(int)r.range(1,th?120:60))),c.in); c.p["s"]=r.chance(0.7)?0:r.range(0,c.n()-1); c.p["stream"]=r.chance(0.3)?1:0; return c; }
static void runC20(const Case&c,Ctx&x){ const Fn&f=*findFn(c.fn); int n=c.n(); if(n<1) return; int s=std::max(0,std::min(n-1,(int)c.P("s"))); int lb=f.lookback(c.o.data()); Str nm=f.name,g=f.group; bool meta=false; for(auto&e:c.env) if(e[0]==1) meta=e[1]!=0; Vec o=c.o; for(int i=0;i<f.nOpt;i++) if(o[i]==INT_MIN||o[i]==-4e37) o[i]=f.opt[i].def;
  Bat R; if(c.P("stream")!=0){ StateGuard q(f); if(f.init(&q.st,c.o.data())) x.fail("StateInit failed"); R.b=lb; R.nb=0; R.rc=0; for(int i=0;i<n;i++){ StepOut t=doStep(f,q.st,c,i); if(!t.rc){ R.nb++; for(int k=0;k<f.nOut;k++) if(f.out[k].isInt) R.ii[k].push_back(t.i[k]); else R.r[k].push_back(t.r[k]); } } s=0; } else R=runBatch(f,c.o,c.in,s,n-1);
  if(R.rc||R.nb<=0) return; double mag=outScale(c); bool any=false;
  auto in=[&](const char*name){ for(int k=0;k<f.nIn;k++) if(Str(f.in[k])==name) return k; return -1; }; int H=in("inHigh"),L=in("inLow"),C=in("inClose"),X=in("inReal"); int hi=X>=0?X:H>=0?H:C, lo=X>=0?X:L>=0?L:C;
  Sens SB(c,f,s,n-1); auto bound=[&](int k,int j,double a,double b,double tol,const char*why){ any=true; double v=R.r[k][j]; if(!(v>=a-tol&&v<=b+tol)) { if(std::isfinite(v)){ double sp=SB.spread(k,R.b+j,v); if(std::isinf(sp)||std::max(a-v,v-b)<=50*sp){ x.tag("~rounding"); return; } } x.fail(fmt("TA_%s bar %d: %s is %.15g, outside of %.15g..%.15g (%s)",f.name,R.b+j,f.out[k].name,v,a,b,why)); } };
  auto hull=[&](int k,int back,bool zero=false){ for(int j=0;j<R.nb;j++){ int bar=R.b+j,a=back<0?0:std::max(0,bar-back); double mn=zero?0:INFINITY,mx=zero?0:-INFINITY; for(int i=a;i<=bar;i++){ mn=std::min(mn,c.in[lo][i]); mx=std::max(mx,c.in[hi][i]); } bound(k,j,mn,mx,1e-11*mag*(nm=="TRIMA"||nm=="WMA"?10:1),"the inputs it averages"); } };
  int t=maOpt(f)>=0?(int)o[maOpt(f)]:-1; Str w0=nm;
  if(nm=="SMA"||nm=="WMA"||nm=="TRIMA"||nm=="MIDPOINT"||nm=="MIDPRICE"||nm=="MIN"||nm=="MAX"||nm=="MEDPRICE"||nm=="TYPPRICE"||nm=="WCLPRICE"||nm=="AVGPRICE") hull(0,lb);
  else if(nm=="EMA"||nm=="KAMA"||nm=="WLMA") hull(0,-1); else if(nm=="MAMA"){ hull(0,-1,true); hull(1,-1,true); }
  else if((nm=="MA"||nm=="MAVP")&&convexMA(t)) hull(0,finiteMA(t)?lb:-1,t==7); else if(nm=="MINMAX"){ hull(0,lb); hull(1,lb); for(int j=0;j<R.nb;j++) if(R.r[0][j]>R.r[1][j]) x.fail(fmt("TA_MINMAX bar %d: min %g above max %g",R.b+j,R.r[0][j],R.r[1][j])); }
  else if(nm=="BBANDS"){ if(convexMA(t)) hull(1,finiteMA(t)?std::max(1,lb):-1,t==7); double tol=1e-9*mag+devSlack(c,f); for(int j=0;j<R.nb;j++){ any=true; double u=R.r[0][j],m=R.r[1][j],d=R.r[2][j]; if(o[1]>=0&&!(u>=m-tol)) x.fail(fmt("TA_BBANDS bar %d: the upper band %.15g is below the middle %.15g",R.b+j,u,m)); if(o[2]>=0&&!(d<=m+tol)) x.fail(fmt("TA_BBANDS bar %d: the lower band %.15g is above the middle %.15g",R.b+j,d,m)); if(o[1]>0&&o[2]>0&&std::fabs((u-m)*o[2]-(m-d)*o[1])>tol*(1+std::fabs(o[1])+std::fabs(o[2]))) x.fail(fmt("TA_BBANDS bar %d: the bands %.12g %.12g %.12g are not at distances %g and %g",R.b+j,u,m,d,o[1],o[2])); } }
  else if(nm=="ACCBANDS"){ for(int j=0;j<R.nb;j++){ any=true; if(!(R.r[0][j]>=R.r[1][j]-1e-9*mag)&&0) x.fail("order"); double mn=INFINITY,mx=-INFINITY; for(int i=std::max(0,R.b+j-lb);i<=R.b+j;i++){ mn=std::min(mn,c.in[C][i]); mx=std::max(mx,c.in[C][i]); } bound(1,j,mn,mx,1e-11*mag,"the closes it averages"); bool pos=true; for(int i=std::max(0,R.b+j-lb);i<=R.b+j;i++) if(!(c.in[L][i]>0)) pos=false; if(pos&&!(R.r[0][j]>=R.r[2][j]-1e-9*mag)) x.fail(fmt("TA_ACCBANDS bar %d: the upper band %.15g is below the lower %.15g",R.b+j,R.r[0][j],R.r[2][j])); } }
  else if(nm=="RSI"||nm=="MFI"||nm=="ADX"||nm=="ADXR"||nm=="DX"||nm=="ULTOSC"||nm=="IMI"||(nm=="PLUS_DI"&&o[0]>1)||(nm=="MINUS_DI"&&o[0]>1)){ bool neg=false; if(nm=="MFI") for(int q=0;q<3;q++) for(double v:c.in[q]) neg|=v<0; /* money flow has no meaning below zero */ for(int j=0;j<R.nb&&!neg;j++){ if(nm=="IMI"&&std::isnan(R.r[0][j])) continue; /* no movement in the window: 0/0 */ bound(0,j,0,100,nm=="PLUS_DI"||nm=="MINUS_DI"?1e-6:nm=="IMI"?1e-6:1e-7,"a percentage"); } }
  else if(nm=="AROON"){ for(int k=0;k<2;k++) for(int j=0;j<R.nb;j++){ bound(k,j,0,100,1e-9,"a percentage"); double q=R.r[k][j]*o[0]/100; if(std::fabs(q-std::round(q))>1e-6) x.fail(fmt("TA_AROON bar %d: %s %.12g is not a multiple of 100/%g",R.b+j,f.out[k].name,R.r[k][j],o[0])); } }
  else if(nm=="STOCHF"||nm=="STOCHRSI"){ double tol=1e-7; for(int j=0;j<R.nb;j++){ bound(0,j,0,100,tol,"a percentage"); if(convexMA((int)o[f.nOpt-1])) bound(1,j,0,100,tol,"an average of percentages"); } }
  else if(nm=="STOCH"){ bool k=convexMA((int)o[2]); for(int j=0;j<R.nb;j++) if(k){ bound(0,j,0,100,1e-7,"an average of percentages"); if(convexMA((int)o[4])) bound(1,j,0,100,1e-7,"an average of percentages"); } }
  else if(nm=="WILLR") { for(int j=0;j<R.nb;j++) bound(0,j,-100,0,1e-9,"a percentage"); } else if(nm=="CMO"||nm=="AROONOSC") { for(int j=0;j<R.nb;j++) bound(0,j,-100,100,1e-7,"a percentage"); }
  else if(nm=="BOP") { for(int j=0;j<R.nb;j++) bound(0,j,-1,1,1e-12,"a ratio"); } else if(nm=="HT_SINE") { for(int k=0;k<2;k++) for(int j=0;j<R.nb;j++) bound(k,j,-1,1,1e-12,"a sine"); }
  else if(nm=="HT_DCPERIOD") { for(int j=0;j<R.nb;j++) bound(0,j,0,50.0001,0,"the limits of the period"); } else if(nm=="HT_DCPHASE") { for(int j=0;j<R.nb;j++) bound(0,j,-45.0001,315.0001,1e-9,"a phase"); }
  else if(nm=="ATR"||nm=="NATR"||nm=="TRANGE"||nm=="AVGDEV"||(nm=="STDDEV"&&o[1]>=0)||nm=="PLUS_DM"||nm=="MINUS_DM") { double top=INFINITY; for(int j=0;j<R.nb;j++){ if(nm=="NATR"&&!(c.in[C][R.b+j]>0)) continue; bound(0,j,0,top,1e-9*mag,"not negative"); } }
  else if(nm=="SAR"){ double mn=INFINITY,mx=-INFINITY; int a=R.b-lb,q=a; if(meta||1) a=0; for(int j=0;j<R.nb;j++){ for(;a<=R.b+j;a++){ mn=std::min(mn,c.in[L][a]); mx=std::max(mx,c.in[H][a]); } (void)q; bound(0,j,mn,mx,1e-10*mag,"the extremes so far"); } }
  else if(nm=="CORREL") { for(int j=0;j<R.nb;j++) { if(std::isnan(R.r[0][j])) continue; if(std::fabs(R.r[0][j])>1){ Sens S(c,f,s,n-1); double sp=S.spread(0,R.b+j,R.r[0][j]); if(std::isinf(sp)) continue; bound(0,j,-1,1,1e-9+50*sp,"a correlation"); } else any=true; } }
  else if(isIdx(f)){ for(int k=0;k<f.nOut;k++) for(int j=0;j<R.nb;j++){ any=true; int bar=R.b+j,q=R.ii[k][j]; if(q>bar||q<bar-lb) x.fail(fmt("TA_%s bar %d: index %d outside of the window",f.name,bar,q)); bool mn=Str(f.out[k].name).find("Min")!=Str::npos||nm=="MININDEX"; for(int i=bar-lb;i<=bar;i++) if(mn?c.in[0][i]<c.in[0][q]:c.in[0][i]>c.in[0][q]) x.fail(fmt("TA_%s bar %d: index %d is not the extreme of the window",f.name,bar,q)); } }
  else if(nm=="HT_TRENDMODE"){ for(int j=0;j<R.nb;j++){ any=true; if(R.ii[0][j]!=0&&R.ii[0][j]!=1) x.fail(fmt("TA_HT_TRENDMODE is %d",R.ii[0][j])); } }
  else if(f.candle){ for(int j=0;j<R.nb;j++){ any=true; int v=R.ii[0][j]; bool ok=v==0||v==100||v==-100||((v==200||v==-200)&&nm.find("HIKKAKE")!=Str::npos)||((v==80||v==-80)&&(nm=="CDLENGULFING"||nm.find("HARAMI")!=Str::npos)); if(!ok) x.fail(fmt("TA_%s bar %d is %d",f.name,R.b+j,v)); } }
  else if(nm=="OBV"){ for(int j=1;j<R.nb;j++){ any=true; double d=R.r[0][j]-R.r[0][j-1],v=c.in[1][R.b+j]; double p=c.in[0][R.b+j]-c.in[0][R.b+j-1]; double e=p>0?v:p<0?-v:0; if(std::fabs(d-e)>1e-9*(std::fabs(R.r[0][j])+std::fabs(v))) x.fail(fmt("TA_OBV bar %d: changed by %.12g, the volume is %.12g",R.b+j,d,v)); } }
  x.nontrivial=any; if(any) x.tag(f.name); }
static Reg r20({"C20","a case is one function with a bounded output, generated settings, parameters and bars, batch or stream; non-trivial: at least one value was checked against its bounds",500000,4000000,genC20,runC20,fixBars});
