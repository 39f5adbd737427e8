#include "core.h"
#include "candle.h"
extern "C" {
#include "ta_libc.h"
}
Bat runBatch(const Fn&f,const Vec&o,const std::vector<Vec>&in,int s,int e){
  Bat R; const void*ip[4]; void*out[3]; int m=std::max(0,e-s+1);
  for(int k=0;k<f.nIn;k++) ip[k]=in[k].data();
  for(int k=0;k<f.nOut;k++){ R.r[k].assign(f.out[k].isInt?0:m,0.0); R.ii[k].assign(f.out[k].isInt?m:0,0); out[k]=f.out[k].isInt?(void*)R.ii[k].data():(void*)R.r[k].data(); }
  R.b=-7; R.nb=-7; R.rc=f.batch(s,e,ip,o.data(),&R.b,&R.nb,out); return R; }
static double hnoise(double v,u64 salt){ u64 b; if(v==0) v=0; memcpy(&b,&v,8); u64 h=mix64(b^mix64(salt)); return ((h>>11)*(1.0/9007199254740992.0))*2-1; }
// functions without comparisons between inputs: there the noise is independent per bar, so that flat runs stop being flat
static bool smoothFn(const Fn&f){ Str n=f.name,g=f.group; return n=="BBANDS"||n.rfind("LINEARREG",0)==0||n=="TSF"||n=="VAR"||n=="STDDEV"||n=="CORREL"||n=="BETA"||n=="AVGDEV"; }
std::vector<Vec> disturb(const Fn&f,const std::vector<Vec>&in,double eps,u64 salt){
  bool indep=smoothFn(f)||(salt%2&&Str(f.name)=="STOCHRSI"); // the stochastic of an unchanged RSI hangs on rounding
  std::vector<Vec> r=in; double mp=0; for(size_t k=0;k<in.size();k++){ Str nm=f.in[k]; if(nm=="inVolume"||nm=="inPeriods") continue; for(double v:in[k]) if(std::isfinite(v)) mp=std::max(mp,std::fabs(v)); }
  for(size_t k=0;k<in.size();k++){ Str nm=f.in[k]; if(nm=="inPeriods") continue; double m=mp; if(nm=="inVolume"){ m=0; for(double v:in[k]) if(std::isfinite(v)) m=std::max(m,std::fabs(v)); }
    long i=0; bool keep0=!indep||Str(f.name)=="BETA"; for(double&v:r[k]){ if(v==0&&keep0){ i++; continue; } /* a zero is exact, and guarded against as such */ v+=eps*m*(indep?hnoise(++i,salt*31+k):hnoise(v,salt+(nm=="inVolume")*77)); } }
  return r; }
void candleSettings(const Case&c,CandleSet*K){
  static const CandleSet def[11]={{0,10,1},{0,10,3},{0,10,1},{1,10,0.1},{0,0,1},{0,0,2},{2,10,1},{1,10,0.1},{1,5,0.2},{1,5,0.6},{1,5,0.05}};
  for(int i=0;i<11;i++) K[i]=def[i];
  for(auto&e:c.env) if(e.size()>4&&e[0]==2&&e[1]>=0&&e[1]<11) K[(int)e[1]]={(int)e[2],(int)e[3],e[4]}; }
void Sens::compute(){ if(done) return; done=true;
  for(int t=0;t<8;t++){
    if(f.candle){ CandleSet K[11]; candleSettings(c,K); for(int k=0;k<11;k++) TA_SetCandleSettings((TA_CandleSettingType)k,(TA_RangeType)K[k].rt,K[k].ap,K[k].fac*(1+eps*hnoise(k+1,t+500))); }
    Vec o=c.o; if(f.candle) /* only penetrations: elsewhere a parameter may have a branch of its own (a deviation of 1) */ for(size_t i=0;i<o.size();i++) if(f.opt[i].type==1&&std::fabs(o[i])<1e6){ double v=o[i]*(1+eps*hnoise(o[i],t+1000)); if(v>=f.opt[i].min&&v<=f.opt[i].max) o[i]=v; }
    runs.push_back(runBatch(f,o,disturb(f,c.in,eps,t+1),s,e)); }
  if(f.candle) applyEnv(c);
  if(!runs.empty()) inner(); }
// A stochastic of an RSI that stands still hangs on the rounding of the RSI, and MAMA or KAMA over a stochastic that stands at 0 or 100 on the
// rounding of the stochastic (the phase of components, or the efficiency of changes, which are all rounding): runs with noise upon these inner series themselves
static double patNoise(int t,int i,int n){ return t==0?i*1.0/n:t==1?-i*1.0/n:t==2?(i%2?1:-1):t==3?(i%2?-1:1):hnoise(i+1,t+77); }
static Vec noisy(Vec v,double eps,int t){ int n=v.size(); for(int i=0;i<n;i++) v[i]+=eps*patNoise(t,i,n); return v; }
void Sens::inner(){ Str nm=f.name; bool rsi=nm=="STOCHRSI",slow=nm=="STOCH"; if(!rsi&&!slow&&nm!="STOCHF") return;
  int K=(int)c.o[rsi?1:0],p1=(int)c.o[slow?1:rsi?2:1],t1=(int)c.o[slow?2:rsi?3:2],p2=slow?(int)c.o[3]:0,t2=slow?(int)c.o[4]:0;
  if(!rsi&&t1!=7&&t2!=7&&t1!=6&&t2!=6) return;
  int lb=f.lookback(c.o.data()),l1=TA_MA_Lookback(p1,(TA_MAType)t1),l2=slow?TA_MA_Lookback(p2,(TA_MAType)t2):0; if(lb<0||l1<0||l2<0) return; int st=std::max(s,lb); if(st>e) return;
  int from=st-l1-l2,n=e-from+1,kf=from-(K-1),m=e-kf+1,b=0,nb=0; if(kf<0) return; Vec H,L,C;
  if(rsi){ H.assign(m,0.0); if(TA_RSI(kf,e,c.in[0].data(),(int)c.o[0],&b,&nb,H.data())||nb!=m) return; L=C=H; }
  else { H.assign(c.in[0].begin()+kf,c.in[0].begin()+e+1); L.assign(c.in[1].begin()+kf,c.in[1].begin()+e+1); C.assign(c.in[2].begin()+kf,c.in[2].begin()+e+1); }
  for(int t=0;t<8;t++){ Vec h=H,l=L,q=C; if(rsi) h=l=q=noisy(H,1e-10,t); Vec k(n),d(n); if(TA_STOCHF(0,m-1,h.data(),l.data(),q.data(),K,1,TA_MAType_SMA,&b,&nb,k.data(),d.data())||nb!=n) return;
    Vec x=noisy(k,1e-12,t+3),y(n),z(n); int n1=0,n2=0; if(TA_MA(0,n-1,x.data(),p1,(TA_MAType)t1,&b,&n1,y.data())||n1!=n-l1) return; y.resize(n1); Bat B; B.rc=0; B.b=st; B.nb=e-st+1;
    if(slow){ z=noisy(y,1e-12,t+4); Vec w(n1); if(TA_MA(0,n1-1,z.data(),p2,(TA_MAType)t2,&b,&n2,w.data())||n2!=B.nb) return; w.resize(n2); B.r[0].assign(y.end()-B.nb,y.end()); B.r[1]=w; }
    else { if(n1!=B.nb) return; B.r[0].assign(k.end()-B.nb,k.end()); B.r[1]=y; }
    runs.push_back(B); } }
// a correlation over a window in which a side stands still is a quotient of the rounding left in the running sums
static bool corrResidue(const Case&c,int bar){ int p=(int)c.o[0]; if(bar-p+1<0) return false; for(int k=0;k<2;k++){ const Vec&v=c.in[k]; double M=0; for(int i=0;i<=bar;i++) if(std::isfinite(v[i])) M=std::max(M,std::fabs(v[i]));
    long double m=0,q=0; for(int i=bar-p+1;i<=bar;i++) m+=v[i]; m/=p; for(int i=bar-p+1;i<=bar;i++) q+=(v[i]-m)*(v[i]-m); if(M>0&&q<1e-12*p*M*M) return true; } return false; }
// likewise the variance of the changes a beta divides by
static bool betaResidue(const Case&c,int bar){ int p=(int)c.o[0]; if(bar-p<0) return false; const Vec&v=c.in[0]; auto ch=[&](int i){ return std::fabs(v[i-1])<1e-14?0.0:(v[i]-v[i-1])/v[i-1]; }; long double m=0,q=0,big=0; for(int i=1;i<=bar&&i<(int)v.size();i++) big=std::max(big,(long double)std::fabs(ch(i))); for(int i=bar-p+1;i<=bar;i++) m+=ch(i); m/=p; for(int i=bar-p+1;i<=bar;i++) q+=(ch(i)-m)*(ch(i)-m); return q*p<1e-12L||q<1e-9L*big*big; }
// a price that stands still for a whole cycle has no phase but that of its rounding, and the trend mode counts the days since the phase crossed
static bool phaseless(const Case&c,int bar,int back){ const Vec&v=c.in[0]; int run=0; for(int i=std::max(1,bar-back-60);i<=bar&&i<(int)v.size();i++){ run=v[i]==v[i-1]?run+1:0; if(run>=9&&i>=bar-back) return true; } return false; }
// the phase of exact components may be that of exact zeros, of which any noise makes another one
static bool phased(const Case&c,const Fn&f){ Str n=f.name; if(n.rfind("HT_",0)==0||n=="MAMA") return true; for(int i=0;i<f.nOpt;i++) if(f.opt[i].type==2&&c.o[i]==7) return true; return false; }
bool haltBefore(const Case&c,int bar){ return phaseless(c,bar,150); }
bool rounded(const Case&c,const Fn&f,int bar){ Str n=f.name; return ((n=="HT_DCPHASE"||n=="HT_SINE")&&phaseless(c,bar,1))||(n=="HT_TRENDMODE"&&phaseless(c,bar,70))||(n=="CORREL"&&corrResidue(c,bar))||(n=="BETA"&&betaResidue(c,bar)); }
double Sens::spread(int k,int bar,double A){ compute(); double d=0; if(rounded(c,f,bar)) return INFINITY; double lo=INFINITY,hi=-INFINITY; bool num=false; for(size_t from=0;from<runs.size();from+=8){ /* the disturbed runs, and those with noise upon inner series, each among themselves: a value of the exact inputs alone, or one by another path, is not noise */
    bool nan=false,some=false; double l=INFINITY,h=-INFINITY; for(size_t q=from;q<from+8&&q<runs.size();q++){ auto&r=runs[q]; if(r.rc||r.nb<=0||bar<r.b||bar>=r.b+r.nb) return INFINITY; double v=r.r[k][bar-r.b]; if(std::isnan(v)) { nan=true; continue; } some=true; l=std::min(l,v); h=std::max(h,v); }
    if(nan&&some) return INFINITY; if(some&&l!=h) d=std::max(d,h-l); if(std::isnan(d)) return INFINITY; if(some&&from==0){ num=true; lo=l; hi=h; } }
  if(phased(c,f)&&num&&!std::isnan(A)) d=std::max(d,std::max(std::fabs(lo-A),std::fabs(hi-A))); return d; }
bool Sens::intVaries(int k,int bar,int A){ if(f.candle&&exactCandles(c)) return false; /* no rounding anywhere: ties count */ compute(); if(Str(f.name)=="HT_TRENDMODE"&&phaseless(c,bar,70)) return true; for(auto&r:runs){ if(r.rc||r.nb<=0||bar<r.b||bar>=r.b+r.nb) return true; if(r.ii[k][bar-r.b]!=runs[0].ii[k][bar-runs[0].b]) return true; if(phased(c,f)&&r.ii[k][bar-r.b]!=A) return true; }
  // a pattern whose conditions hang on the rounding of a running sum (as of bodies that are all zero)
  if(f.candle&&bar<c.n()) if(const CandlePat*p=candlePat(f.name)){ CandleSet K[11]; candleSettings(c,K); CandleRef R(c.in[0],c.in[1],c.in[2],c.in[3],K,c.o.empty()?0:c.o[0],exactCandles(c)); bool und; if(bar>=p->lookback(R)){ candleValue(*p,R,bar,und); return und; } }
  return false; }
double outScale(const Case&c){ double m=0; for(auto&v:c.in) for(double x:v) if(std::isfinite(x)) m=std::max(m,std::fabs(x)); return m; }
bool closeEnough(Sens&S,int k,int bar,double A,double B,double rel,double abst){
  if(biteq(A,B)) return true;
  if(std::isfinite(A)&&std::isfinite(B)&&std::fabs(A-B)<=1e-9*std::max(std::fabs(A),std::fabs(B))) return true;
  double sp=S.spread(k,bar,A); if(std::isinf(sp)) return true; // unstable under rounding noise
  if(!std::isfinite(A)||!std::isfinite(B)) return false;
  return std::fabs(A-B)<=rel*std::max(std::fabs(A),std::fabs(B))+1e-12*std::max(1.0,S.scale<0?S.scale=outScale(S.c):S.scale)+50*sp+abst; }
double devSlack(const Case&c,const Fn&f,double scale){ Str n=f.name; if(n!="BBANDS"&&n!="STDDEV") return 0; double nb=n=="BBANDS"?std::max(std::fabs(c.o[1]),std::fabs(c.o[2])):std::fabs(c.o[1]); return nb*3e-7*(scale<0?outScale(c):scale); }
void fixN(Case&c){ for(auto&v:c.in) if(v.empty()) v.push_back(1); }
double devSlackAt(const Case&c,const Fn&f,int k,const Vec*r,int j,double scale){ if(Str(f.name)=="BBANDS"&&k==1) return 0; double full=devSlack(c,f,scale); if(!(full>0)) return 0; double sd=Str(f.name)=="BBANDS"?std::fabs(r[k][j]-r[1][j]):std::fabs(r[0][j]); return full*std::min(1.0,full/std::max(sd,full)); }
