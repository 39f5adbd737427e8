#include "core.h"
extern "C" {
#include "ta_libc.h"
}
const Fn& pickFn(Rng&r,u64 idx){ // round-robin over all functions: every function gets an equal share, in a seed-independent order
  (void)r; return FNS[idx%NFN]; }
static double genReal(Rng&r,const Fn&f,const OptD&o){
  Str n=o.name;
  if(r.chance(0.2)) return o.def;
  if(n.find("NbDev")!=Str::npos) return r.chance(0.3)? (double)r.range(-2,3) : std::round(r.real(-3,4)*8)/8;
  double lo=std::max(o.min,-4.0), hi=std::min(o.max,4.0);
  if(n.find("Acceleration")!=Str::npos||n.find("Maximum")!=Str::npos) hi=r.chance(0.8)?0.4:2;
  if(n.find("OffsetOnReverse")!=Str::npos) hi=0.3;
  if(n.find("Penetration")!=Str::npos) hi=r.chance(0.85)?1:3;
  if(n.find("StartValue")!=Str::npos) { lo=-120; hi=120; }
  if(r.chance(0.08)) return lo; if(r.chance(0.05)) return hi;
  double v=r.real(lo,hi); if(r.chance(0.5)) v=std::round(v*16)/16; return std::min(hi,std::max(lo,v)); }
Vec genOpts(Rng&r,const Fn&f,int maxLb){
  bool wide=maxLb>=60&&r.chance(0.02); if(wide) maxLb=std::max(maxLb,700); // rarely: a long period
  bool rel=r.chance(0.08); // periods close to each other
  for(int t=0;;t++){ Vec o; int wk=wide&&f.nOpt?(int)r.range(0,f.nOpt-1):-1; long prev=-1;
    for(int i=0;i<f.nOpt;i++){ const OptD&d=f.opt[i];
      if(d.type==1) { double v=genReal(r,f,d); int q=i-1; while(q>=0&&f.opt[q].type!=1) q--; // equal, nearly equal, opposite and tiny values
        if(q>=0&&r.chance(0.12)) { double w=o[q],u=r.unit(); v= u<0.4?w: u<0.6?-w: u<0.8?w+(r.chance(0.5)?1:-1)*std::ldexp(1.0,-(int)r.range(4,12)): w*(1+(r.chance(0.5)?1:-1)*std::ldexp(1.0,-(int)r.range(4,12))); } else if(r.chance(0.02)) v=std::ldexp(v,-(int)r.range(4,12));
        o.push_back(std::min(d.max,std::max(d.min,v))); }
      else if(d.type==2) o.push_back((double)r.range((long)d.min,(long)d.max));
      else { long lo=(long)d.min,hi=(long)d.max; double u=r.unit(); long v;
        if(t>20) v=lo+r.range(0,4);
        else if(u<0.12) v=(long)d.def; else if(u<0.55) v=lo+r.range(0,5); else if(u<0.9) v=lo+r.range(0,25); else v=lo+r.range(0,90);
        static const int SP[]={7,8,9,15,16,17,20,21,26,30,31,32,33,50,60,63,64,65,90,100,120,127,128,129,200,252,255,256,257}; // numbers a special case may be made for
        if(t<=20&&r.chance(0.06)) v=SP[r.range(0,28)];
        if(t<=20&&i==wk) v=r.chance(0.3)?(64L<<r.range(0,3))+r.range(-1,1):r.range(90,600); else if(rel&&prev>0) v=std::max(lo,prev+r.range(-1,1));
        prev=v;
        if(v>hi) v=r.range(lo,hi); o.push_back((double)v); } }
    int lb=f.lookback(o.data()); if(lb>=0&&lb<=maxLb) return o; if(t>60) return o; } }
static double q2(double x){ return std::round(x*100)/100; }
OHLCV genBars(Rng&r,int n,int style){
  if(style==8){ // segments of different character, one after the other at the level reached, with single outliers
    OHLCV b; double lev=0; int outl=r.chance(0.5); while((int)b.c.size()<n){ static const int W[]={0,0,1,2,2,3,4,6,7}; int m=(int)r.range(2,25); OHLCV q=genBars(r,m,W[r.range(0,8)]); double d=b.c.empty()?0:std::round(lev-q.o[0]); int zv=r.chance(0.15);
      for(int i=0;i<m&&(int)b.c.size()<n;i++){ double o=q.o[i]+d,h=q.h[i]+d,l=q.l[i]+d,c=q.c[i]+d; if(outl&&r.chance(0.03)){ double k=r.range(3,40); if(r.chance(0.5)) h+=k; else l=std::min(l,std::max(0.25,l-k)); } double lo=std::min(std::min(o,l),c); if(lo<0.01){ double up=std::ceil(1-lo); o+=up;h+=up;l+=up;c+=up; d+=up; } b.o.push_back(o);b.h.push_back(h);b.l.push_back(l);b.c.push_back(c);b.v.push_back(zv?0:q.v[i]); lev=c; } }
    return b; }
  OHLCV b; auto push=[&](double o,double h,double l,double c,double v){ h=std::max(h,std::max(o,c)); l=std::min(l,std::min(o,c)); b.o.push_back(o);b.h.push_back(h);b.l.push_back(l);b.c.push_back(c);b.v.push_back(v); };
  double p= 20+80*r.unit(); double scale=1;
  if(style==5) scale=std::pow(10.0,r.range(-4,6));
  int dirn=r.chance(0.5)?1:-1; double vol=style==4?8:1.2; long drift=0;
  double sp=r.real(6,45), amp=r.real(1,12), ph=r.real(0,6.28);
  for(int i=0;i<n;i++){
    double v; { double u=r.unit(); v= u<0.05?0: u<0.5? (double)r.range(1,20)*100 : (double)r.range(1,2000000); if(style==2&&i) v=b.v.back(); }
    switch(style){
      case 1: { // small integer alphabet: ties everywhere
        double o=50+r.range(-3,3),c=50+r.range(-3,3); push(o,std::max(o,c)+r.range(0,2),std::min(o,c)-r.range(0,2),c,(double)r.range(0,4)*100); break; }
      case 2: { // flat runs
        if(i&&r.chance(0.7)) push(b.o.back(),b.h.back(),b.l.back(),b.c.back(),v); else { double o=q2(p+r.real(-2,2)),c=r.chance(0.5)?o:q2(o+r.real(-2,2)); push(o,r.chance(0.6)?o:q2(o+r.unit()),r.chance(0.6)?o:q2(o-r.unit()),c,v); } break; }
      case 3: { // trending
        double o=q2(p),c=q2(p+dirn*r.real(0,2)); push(o,q2(std::max(o,c)+r.real(0,.5)),q2(std::min(o,c)-r.real(0,.5)),c,v); p=c; if(r.chance(0.03)) dirn=-dirn; if(p<8) dirn=1; break; }
      case 6: { // cyclic
        double m=60+amp*std::sin(6.283185307*i/sp+ph)+0.3*r.gauss(), m2=60+amp*std::sin(6.283185307*(i+1)/sp+ph)+0.3*r.gauss(); push(q2(m),q2(std::max(m,m2)+r.unit()),q2(std::min(m,m2)-r.unit()),q2(m2),v); break; }
      case 7: { // candle shapes in half-units, exact in binary
        static const int bodies[]={0,0,1,1,2,3,6,8,12}, sh[]={0,0,0,1,2,4,8}; double u=0.5; double o=(i?b.c.back():60)+u*r.range(-6,6); if(r.chance(0.3)&&i) o=b.o.back()+u*r.range(-3,3);
        double c=o+(r.chance(0.5)?1:-1)*u*bodies[r.range(0,8)]; if(o<10||c<10){o+=40;c+=40;} if(o>140||c>140){o-=60;c-=60;} push(o,std::max(o,c)+u*sh[r.range(0,6)],std::min(o,c)-u*sh[r.range(0,6)],c,v); break; }
      default: { double o=q2(p+vol*0.3*r.gauss()); double c=q2(o+vol*r.gauss()); if(c<5) c=q2(5+r.unit()*5); if(o<5) o=q2(5+r.unit()*5); push(o,q2(std::max(o,c)+std::fabs(r.gauss())*vol*.5),q2(std::min(o,c)-std::fabs(r.gauss())*vol*.4),c,v); p=c; if(style==5&&0) drift++; break; }
    } }
  for(int i=0;i<n;i++) for(Vec*x:{&b.o,&b.h,&b.l,&b.c}) { if((*x)[i]<=0.01) (*x)[i]=0.01; (*x)[i]*=scale; }
  for(int i=0;i<n;i++){ b.h[i]=std::max(b.h[i],std::max(b.o[i],b.c[i])); b.l[i]=std::min(b.l[i],std::min(b.o[i],b.c[i])); }
  return b; }
void genInputs(Rng&r,const Fn&f,int n,std::vector<Vec>&in,int style){
  static const int W[]={0,0,0,1,1,2,3,3,4,5,6,6,7,7,8,8}; if(style<0) style=W[r.range(0,15)];
  OHLCV b=genBars(r,n,style), b2; in.clear(); double z0=r.chance(0.03)?r.real(0.02,0.3):0, z1=r.chance(0.08)?r.real(0.02,0.3):0; // prices of exactly zero, which divisions are guarded against
  if(r.chance(0.04)){ double m=std::round(b.c[r.range(0,n-1)]*(r.chance(0.7)?1:r.real(1,2))); for(int i=0;i<n;i++){ b.o[i]-=m; b.h[i]-=m; b.l[i]-=m; b.c[i]-=m; } } // spreads and futures do trade below zero
  if(n>12&&r.chance(n>=60?0.12:0.015)){ // a halt: the same bar for long, so that decaying sums reach zero
    int i0=(int)r.range(0,std::max(1,n/2)),len=(int)r.range(10,n); bool pt=r.chance(0.6); for(int i=i0;i<n&&i<i0+len;i++){ b.o[i]=pt?b.c[i0]:b.o[i0]; b.h[i]=pt?b.c[i0]:b.h[i0]; b.l[i]=pt?b.c[i0]:b.l[i0]; b.c[i]=b.c[i0]; if(r.chance(0.5)) b.v[i]=0; } }
  if(z0>0) for(int i=0;i<n;i++) if(r.chance(z0)) b.o[i]=b.h[i]=b.l[i]=b.c[i]=0;
  for(int k=0;k<f.nIn;k++){ Str s=f.in[k];
    if(s=="inOpen") in.push_back(b.o); else if(s=="inHigh") in.push_back(b.h); else if(s=="inLow") in.push_back(b.l); else if(s=="inClose") in.push_back(b.c); else if(s=="inVolume") in.push_back(b.v);
    else if(s=="inPeriods"){ Vec v; long hi=std::max(3L,(long)60); bool smooth=r.chance(0.5); double cur=(double)r.range(1,20); for(int i=0;i<n;i++){ if(smooth){ if(r.chance(0.2)) cur=(double)r.range(1,25); v.push_back(cur);} else v.push_back(r.chance(0.1)? (double)r.range(-3,hi+40): r.chance(0.2)? r.real(1,30): (double)r.range(1,hi)); } in.push_back(v); }
    else if(s=="inReal1"){ if(r.chance(0.3)){ Vec v=b.c; double a=r.real(-2,2); for(auto&x:v) x=a*x+ (r.chance(0.5)?0:r.real(0,50)); in.push_back(v);} else { b2=genBars(r,n,W[r.range(0,15)]); in.push_back(b2.c);} if(z1>0) for(auto&x:in.back()) if(r.chance(z1)) x=0; }
    else { // inReal / inReal0
      Vec v=b.c; Str g=f.group;
      if(g=="Math Transform"){ int m=r.range(0,3); for(auto&x:v){ if(m==0) x=r.real(-1,1); else if(m==1) x=r.real(-10,10); else if(m==2) x=r.real(-300,300)*0.9; else if(r.chance(0.5)) x=-x; } }
      else if(g=="Math Operators"||g=="Statistic Functions"){ if(r.chance(0.4)) for(auto&x:v) x=r.chance(0.5)?x:-x; }
      else if(r.chance(0.12)) { double m=std::round(v[0]); for(auto&x:v) x-=m; } // signed series around zero
      if(z1>0&&z0==0) for(auto&x:v) if(r.chance(z1)) x=0;
      in.push_back(v); } } }
void genEnv(Rng&r,const Fn&f,Case&c,double pU,double pC,double pK){
  if(r.chance(pU)){ if(r.chance(0.15)) c.env.push_back({0,25,(double)r.range(0,12)}); else { int id=unstId(f.name); if(id>=0&&r.chance(0.8)) c.env.push_back({0,(double)id,(double)r.range(0,30)}); if(r.chance(0.4)||id<0) c.env.push_back({0,(double)r.range(0,24),(double)r.range(0,15)}); if(f.nOpt&&r.chance(0.3)) c.env.push_back({0,5,(double)r.range(1,15)}); } }
  if(r.chance(pC)) c.env.push_back({1,1});
  if(f.candle&&r.chance(pK)){ int k=(int)r.range(1,4); for(int i=0;i<k;i++){ static const double per[]={0,0,1,2,3,5,8,10,13}; static const double fac[]={0,0.125,0.25,0.5,0.75,1,1.25,1.5,2,3}; c.env.push_back({2,(double)r.range(0,10),(double)r.range(0,2),per[r.range(0,8)],fac[r.range(0,9)]}); } } }

bool fixedZero(const Fn&f);
// prices and volumes in another unit: tiny and huge, by a power of two
void unitChange(Rng&r,const Fn&f,std::vector<Vec>&in){
  if(!fixedZero(f)&&r.chance(0.03)){ int k=r.chance(0.7)?-(int)r.range(12,60):(int)r.range(5,100); for(int i=0;i<f.nIn;i++) if(Str(f.in[i])!="inPeriods") for(double&v:in[i]) v=std::ldexp(v,k); }
  for(int i=0;i<f.nIn;i++) if(Str(f.in[i])=="inVolume"&&r.chance(0.05)){ int k=(int)r.range(5,20); for(double&v:in[i]) v=std::ldexp(v,k); } }
// how many bars beyond the warm-up: rarely many
int slackOf(Rng&r,int usual){ return r.chance(0.0006)?(int)r.range(1500,5000):r.chance(0.012)?(int)r.range(300,1500):r.chance(0.015)?(int)r.range(60,200):usual; }

// rarely: one period beyond the reach of the usual generator, where products of periods leave the integers
bool enlarge(Rng&r,const Fn&f,Vec&o,double p){ if(!r.chance(p)) return false; std::vector<int> k; for(int i=0;i<f.nOpt;i++) if(f.opt[i].type==0&&f.opt[i].max>=60000) k.push_back(i); if(k.empty()) return false;
  int i=r.pick(k); double old=o[i]; o[i]= r.chance(0.75)?(double)r.range(1025,2500):(double)r.range(46341,50000); int lb=f.lookback(o.data()); if(lb<0||lb>110000){ o[i]=old; return false; } return true; }
