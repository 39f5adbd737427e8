// Reference models: every indicator computed from its published definition, without running sums or other shortcuts.
#include "stream.h"
extern "C" {
#include "ta_libc.h"
}
namespace {
const double QN=NAN;
struct S { Vec v; int b; };                 // values v[b..]; earlier entries mean nothing
struct Env { bool ms; int u(const char*fn) const { int id=unstId(fn); return id<0?0:(int)TA_GetUnstablePeriod((TA_FuncUnstId)id); } };
struct Out { Vec r[3]; std::vector<std::vector<int>> alt[3]; std::vector<char> und[3]; };
S sr(const Vec&v){ return S{v,0}; }
S from(const S&x,int b){ S y=x; y.b=std::max(x.b,b); return y; }
template<class F> S map1(const S&x,F f){ S y{Vec(x.v.size(),0.0),x.b}; for(size_t i=x.b;i<x.v.size();i++) y.v[i]=f(x.v[i]); return y; }
template<class F> S map2(const S&x,const S&z,F f){ S y{Vec(x.v.size(),0.0),std::max(x.b,z.b)}; for(size_t i=y.b;i<x.v.size();i++) y.v[i]=f(x.v[i],z.v[i]); return y; }
template<class F> S win(const S&x,int p,F f){ int n=x.v.size(); S y{Vec(n,0.0),x.b+p-1}; for(int i=y.b;i<n;i++) y.v[i]=f(&x.v[i-p+1]); return y; } // f sees p values, oldest first
int g_jitter=0; // >0: the smoothed prices of the cycle pipeline and the volatility sum of the adaptive average carry noise of 1e-12, to see whether a value hangs on rounding
bool zero(double v){ return v<1e-14&&v>-1e-14; }
S sma(const S&x,int p){ return win(x,p,[p](const double*w){ long double s=0; for(int i=0;i<p;i++) s+=w[i]; return (double)(s/p); }); }
S wma(const S&x,int p){ return win(x,p,[p](const double*w){ long double s=0; for(int i=0;i<p;i++) s+=(long double)(i+1)*w[i]; return (double)(s/((long double)p*(p+1)/2)); }); }
S trima(const S&x,int p){ return win(x,p,[p](const double*w){ long double s=0,t=0; for(int i=0;i<p;i++){ long k=std::min(i+1,p-i); s+=(long double)k*w[i]; t+=k; } return (double)(s/t); }); }
S emaK(const S&x,int p,double k,int u,bool ms){ int n=x.v.size(); S y{Vec(n,0.0),x.b+p-1+u}; double a=0; if(x.b>=n) return y;
  int i; if(ms){ a=x.v[x.b]; y.v[x.b]=a; i=x.b+1; } else { if(x.b+p>n) return y; long double s=0; for(int j=0;j<p;j++) s+=x.v[x.b+j]; a=(double)(s/p); i=x.b+p-1; y.v[i]=a; i++; }
  for(;i<n;i++){ a=k*x.v[i]+(1-k)*a; y.v[i]=a; } return y; }
S ema(const S&x,int p,const Env&e){ return emaK(x,p,2.0/(p+1),e.u("EMA"),e.ms); }
S wlma(const S&x,int p,const Env&e){ return emaK(x,p,1.0/p,e.u("WLMA"),e.ms); }
S dema(const S&x,int p,const Env&e){ S a=ema(x,p,e),b=ema(a,p,e); return map2(a,b,[](double u,double v){ return 2*u-v; }); }
S tema(const S&x,int p,const Env&e){ S a=ema(x,p,e),b=ema(a,p,e),c=ema(b,p,e); S d=map2(a,b,[](double u,double v){ return 3*u-3*v; }); return map2(d,c,[](double u,double v){ return u+v; }); }
S t3(const S&x,int p,double v,const Env&e){ S s[7]; s[0]=x; for(int i=1;i<=6;i++) s[i]=emaK(s[i-1],p,2.0/(p+1),0,false); double c1=-v*v*v,c2=3*(v*v+v*v*v),c3=-6*v*v-3*(v+v*v*v),c4=1+3*v+v*v*v+3*v*v; S y{Vec(x.v.size(),0.0),s[6].b+e.u("T3")}; for(size_t i=s[6].b;i<x.v.size();i++) y.v[i]=c1*s[6].v[i]+c2*s[5].v[i]+c3*s[4].v[i]+c4*s[3].v[i]; return y; }
S kama(const S&x,int p,const Env&e){ int n=x.v.size(); S y{Vec(n,0.0),x.b+p+e.u("KAMA")}; if(x.b+p>=n) return y; double a=x.v[x.b+p-1],scale=0; if(g_jitter) for(int t=std::max(0,x.b);t<n;t++) scale=std::max(scale,std::fabs(x.v[t])); for(int i=x.b+p;i<n;i++){ double d=x.v[i]-x.v[i-p]; long double s=0; for(int j=i-p+1;j<=i;j++) s+=std::fabs(x.v[j]-x.v[j-1]); if(g_jitter) s=std::max(0.0,(double)s+scale*std::pow(10.0,-12-g_jitter%5)*((double)(mix64(g_jitter*1000003ULL+(g_jitter%2?0:i))%2001)/1000-1)); double er= (s<=std::fabs(d)||zero((double)s))?1:std::fabs(d/(double)s); double c=er*(2.0/3-2.0/31)+2.0/31; a+=c*c*(x.v[i]-a); y.v[i]=a; } return y; }
// ---- Ehlers' cycle pipeline: x is cut so that its bar b is the first one the indicator looks at; the pipeline starts at b+skip
struct Cyc { Vec smooth,Q1,I1,period,sp; };
Cyc cycle(const S&x,int skip){ int n=x.v.size(); Cyc c; Vec z(n,0.0); c.smooth=c.Q1=c.I1=c.period=c.sp=z; Vec det=z,jI=z,jQ=z; double I2p=0,Q2p=0,Re=0,Im=0,per=0,sp=0; int t0=x.b+skip; double scale=0; if(g_jitter) for(int t=std::max(0,x.b);t<n;t++) scale=std::max(scale,std::fabs(x.v[t]));
  auto H=[&](const Vec&a,int t,double adj){ auto g=[&](int k){ return k>=t0?a[k]:0.0; }; return (0.0962*(g(t)-g(t-6))+0.5769*(g(t-2)-g(t-4)))*adj; };
  for(int t=t0;t<n;t++){ c.smooth[t]=(4*x.v[t]+3*x.v[t-1]+2*x.v[t-2]+x.v[t-3])/10; if(g_jitter) c.smooth[t]+=scale*std::pow(10.0,-12-g_jitter%5)*((double)(mix64(g_jitter*1000003ULL+t)%2001)/1000-1); double adj=0.075*per+0.54; det[t]=H(c.smooth,t,adj); c.Q1[t]=H(det,t,adj); c.I1[t]=t-3>=t0?det[t-3]:0; jI[t]=H(c.I1,t,adj); jQ[t]=H(c.Q1,t,adj);
    double Q2=0.2*(c.Q1[t]+jI[t])+0.8*Q2p,I2=0.2*(c.I1[t]-jQ[t])+0.8*I2p; Re=0.2*(I2*I2p+Q2*Q2p)+0.8*Re; Im=0.2*(I2*Q2p-Q2*I2p)+0.8*Im; Q2p=Q2; I2p=I2; double pp=per; if(Im!=0&&Re!=0) per=2*M_PI/std::atan(Im/Re); per=std::min(per,1.5*pp); per=std::max(per,0.67*pp); per=std::min(50.0,std::max(6.0,per)); per=0.2*per+0.8*pp; c.period[t]=per; sp=0.33*per+0.67*sp; c.sp[t]=sp; }
  return c; }
void mama(const S&x,double fast,double slow,const Env&e,S&m,S&f){ int n=x.v.size(); Cyc c=cycle(x,12); m=f=S{Vec(n,0.0),x.b+32+e.u("MAMA")}; double a=0,b=0,pp=0; for(int t=x.b+12;t<n;t++){ double ph=c.I1[t]!=0?std::atan(c.Q1[t]/c.I1[t])*180/M_PI:0; double d=std::max(1.0,pp-ph); pp=ph; double al= d>1?std::max(fast/d,slow):fast; a=al*x.v[t]+(1-al)*a; b=0.5*al*a+(1-0.5*al)*b; m.v[t]=a; f.v[t]=b; } }
int maLb(int p,int type,const Env&e){ if(p<=1) return 0; switch(type){ case 0: case 2: case 5: return p-1; case 1: return p-1+e.u("EMA"); case 3: return 2*(p-1+e.u("EMA")); case 4: return 3*(p-1+e.u("EMA")); case 6: return p+e.u("KAMA"); case 7: return 32+e.u("MAMA"); case 8: return 6*(p-1)+e.u("T3"); default: return p-1+e.u("WLMA"); } }
S ma(const S&x,int p,int type,const Env&e){ if(p<=1) return x; switch(type){ case 0: return sma(x,p); case 1: return ema(x,p,e); case 2: return wma(x,p); case 3: return dema(x,p,e); case 4: return tema(x,p,e); case 5: return trima(x,p); case 6: return kama(x,p,e); case 7: { S m,f; mama(x,0.5,0.05,e,m,f); return m; } case 8: return t3(x,p,0.7,e); default: return wlma(x,p,e); } }
// average over the whole array x whose first value is at bar first (a Metastock seed is always the first element of the array)
S maAt(const S&x,int p,int type,const Env&e,int first){ if(e.ms&&p>1&&(type==1||type==9)){ S y=ma(x,p,type,e); y.b=first; return y; }
  if(e.ms&&p>1&&(type==3||type==4)){ int q=p-1+e.u("EMA"); S a=ema(x,p,e); a.b=first-(type-2)*q; S b=ema(a,p,e); if(type==3) return map2(a,b,[](double u,double v){ return 2*u-v; }); S c=ema(b,p,e); return map2(map2(a,b,[](double u,double v){ return 3*u-3*v; }),c,[](double u,double v){ return u+v; }); }
  return ma(from(x,first-maLb(p,type,e)),p,type,e); }
S emaAt(const S&x,int p,double k,const Env&e,int first){ S y=emaK(e.ms?x:from(x,first-(p-1)-e.u("EMA")),p,k,e.u("EMA"),e.ms); y.b=first; return y; }
S trange(const Vec&h,const Vec&l,const Vec&c){ int n=h.size(); S y{Vec(n,0.0),1}; for(int i=1;i<n;i++) y.v[i]=std::max(h[i]-l[i],std::max(std::fabs(c[i-1]-h[i]),std::fabs(c[i-1]-l[i]))); return y; }
double wmax(const double*w,int p){ return *std::max_element(w,w+p); } double wmin(const double*w,int p){ return *std::min_element(w,w+p); }
double pvar(const double*w,int p){ long double m=0,s=0; for(int i=0;i<p;i++) m+=w[i]; m/=p; for(int i=0;i<p;i++) s+=(w[i]-m)*(w[i]-m); return (double)(s/p); }
S rsiLike(const S&x,int p,int u,bool ms,bool cmo){ int n=x.v.size(); S y{Vec(n,0.0),x.b+p+u-(ms?1:0)}; auto val=[&](double g,double l){ double t=g+l; return zero(t)?0.0:cmo?100*((g-l)/t):100*(g/t); }; double g=0,l=0;
  for(int i=x.b+1;i<n;i++){ double d=x.v[i]-x.v[i-1],up=d>0?d:0,dn=d<0?-d:0; int k=i-x.b; if(k<=p){ g+=up; l+=dn; if(k==p-1&&ms&&u==0) y.v[i]=val(g/p,l/p); if(k==p){ g/=p; l/=p; y.v[i]=val(g,l); } } else { g=(g*(p-1)+up)/p; l=(l*(p-1)+dn)/p; y.v[i]=val(g,l); } } return y; }
S stochK(const Vec&h,const Vec&l,const Vec&c,int b,int p){ int n=h.size(); S y{Vec(n,0.0),b+p-1}; for(int i=y.b;i<n;i++){ double H=wmax(&h[i-p+1],p),L=wmin(&l[i-p+1],p),d=(H-L)/100; y.v[i]=d!=0?(c[i]-L)/d:0; } return y; }
// directional movement of each bar
void dms(const Vec&h,const Vec&l,Vec&P,Vec&M){ int n=h.size(); P.assign(n,0); M.assign(n,0); for(int i=1;i<n;i++){ double u=h[i]-h[i-1],d=l[i-1]-l[i]; if(d>0&&u<d) M[i]=d; else if(u>0&&u>d) P[i]=u; } }
// Wilder sum: w[i] for i>=p-1, seeded with the first p-1 values (bars 1..p-1)
Vec wsum(const Vec&v,int p){ int n=v.size(); Vec y(n,0.0); double a=0; for(int i=1;i<n;i++){ if(i<=p-1) a+=v[i]; else a=a-a/p+v[i]; y[i]=a; } return y; }
struct DI { Vec p,m,tr,dx; std::vector<char> ok,dxok; };
DI dirs(const Vec&h,const Vec&l,const Vec&c,int p){ int n=h.size(); DI d; Vec P,M; dms(h,l,P,M); Vec T=trange(h,l,c).v,a=wsum(P,p),b=wsum(M,p),t=wsum(T,p); d.p=d.m=d.dx=Vec(n,0.0); d.tr=t; d.ok.assign(n,0); d.dxok=d.ok; for(int i=p;i<n;i++) if(!zero(t[i])){ d.ok[i]=1; d.p[i]=100*a[i]/t[i]; d.m[i]=100*b[i]/t[i]; if(!zero(d.p[i]+d.m[i])){ d.dxok[i]=1; d.dx[i]=100*std::fabs(d.m[i]-d.p[i])/(d.p[i]+d.m[i]); } } return d; }
S adx(const DI&d,int n,int p,int u){ S y{Vec(n,0.0),2*p-1+u}; double a=0; for(int i=p;i<n;i++){ if(i<2*p-1){ if(d.dxok[i]) a+=d.dx[i]; } else if(i==2*p-1){ if(d.dxok[i]) a+=d.dx[i]; a/=p; } else if(d.dxok[i]) a=(a*(p-1)+d.dx[i])/p; if(i>=2*p-1) y.v[i]=a; } return y; }
void linreg(const double*w,int p,double&m,double&b){ long double sx=0,sy=0,sxy=0,sxx=0; for(int i=0;i<p;i++){ sx+=i; sy+=w[i]; sxx+=(long double)i*i; sxy+=(long double)i*w[i]; } long double dv=p*sxx-sx*sx; long double mm=(p*sxy-sx*sy)/dv; m=(double)mm; b=(double)((sy-mm*sx)/p); }
}
static bool elementMath(const Str&n,double x,double&y){ 
  if(n=="ACOS") y=std::acos(x); else if(n=="ASIN") y=std::asin(x); else if(n=="ATAN") y=std::atan(x); else if(n=="CEIL") y=std::ceil(x); else if(n=="COS") y=std::cos(x); else if(n=="COSH") y=std::cosh(x); else if(n=="EXP") y=std::exp(x); else if(n=="FLOOR") y=std::floor(x); else if(n=="LN") y=std::log(x); else if(n=="LOG10") y=std::log10(x); else if(n=="SIN") y=std::sin(x); else if(n=="SINH") y=std::sinh(x); else if(n=="SQRT") y=std::sqrt(x); else if(n=="TAN") y=std::tan(x); else if(n=="TANH") y=std::tanh(x); else return false; return true; }
static bool isMetaDep(const Str&n){ static const std::set<Str> s={"EMA","WLMA","DEMA","TEMA","TRIX","MA","MAVP","MACD","MACDEXT","MACDFIX","APO","PPO","BBANDS","STOCH","STOCHF","STOCHRSI","RSI","CMO"}; return s.count(n)>0; }
// Computes the reference over the whole of in (already cut to start at the first bar the call looks at); first = lookback.
// Integer outputs: the set of acceptable values per bar (ties). Returns false when there is no model.
static bool refModel(const Fn&f,const Vec&o,const std::vector<Vec>&in,int first,int sRel,Out&R){
  Str n=f.name; int N=in[0].size(); Env e; e.ms=TA_GetCompatibility()==TA_COMPATIBILITY_METASTOCK; int p=f.nOpt?(int)o[0]:0; const Vec&a=in[0]; const Vec&b=in.size()>1?in[1]:in[0]; const Vec&c=in.size()>2?in[2]:in[0]; const Vec&d=in.size()>3?in[3]:in[0]; S x=sr(a);
  auto put=[&](int k,const S&s){ R.r[k]=s.v; for(int i=0;i<std::min(N,s.b);i++) R.r[k][i]=QN; }; auto each=[&](int k,std::function<double(int)> g){ R.r[k].assign(N,QN); for(int i=first;i<N;i++) R.r[k][i]=g(i); }; auto und=[&](int k,int i){ if(R.und[k].empty()) R.und[k].assign(N,0); R.und[k][i]=1; };
  double y; if(elementMath(n,1,y)){ each(0,[&](int i){ double z; elementMath(n,a[i],z); return z; }); return true; }
  if(n=="ADD") { each(0,[&](int i){ return a[i]+b[i]; }); return true; } if(n=="SUB") { each(0,[&](int i){ return a[i]-b[i]; }); return true; } if(n=="MULT") { each(0,[&](int i){ return a[i]*b[i]; }); return true; } if(n=="DIV") { each(0,[&](int i){ return a[i]/b[i]; }); return true; }
  if(n=="AVGPRICE") { each(0,[&](int i){ return (a[i]+b[i]+c[i]+d[i])/4; }); return true; } if(n=="MEDPRICE") { each(0,[&](int i){ return (a[i]+b[i])/2; }); return true; } if(n=="TYPPRICE") { each(0,[&](int i){ return (a[i]+b[i]+c[i])/3; }); return true; } if(n=="WCLPRICE") { each(0,[&](int i){ return (a[i]+b[i]+2*c[i])/4; }); return true; }
  if(n=="BOP") { each(0,[&](int i){ double r=b[i]-c[i]; return r<1e-14?0.0:(d[i]-a[i])/r; }); return true; } if(n=="TRANGE") { put(0,trange(a,b,c)); return true; }
  if(n=="MOM") { each(0,[&](int i){ return a[i]-a[i-p]; }); return true; } if(n=="ROC") { each(0,[&](int i){ return a[i-p]!=0?(a[i]/a[i-p]-1)*100:0; }); return true; } if(n=="ROCP") { each(0,[&](int i){ return a[i-p]!=0?(a[i]-a[i-p])/a[i-p]:0; }); return true; } if(n=="ROCR") { each(0,[&](int i){ return a[i-p]!=0?a[i]/a[i-p]:0; }); return true; } if(n=="ROCR100") { each(0,[&](int i){ return a[i-p]!=0?a[i]/a[i-p]*100:0; }); return true; }
  if(n=="SUM") { put(0,win(x,p,[p](const double*w){ long double s=0; for(int i=0;i<p;i++) s+=w[i]; return (double)s; })); return true; }
  if(n=="MAX"||n=="MIN") { bool mx=n=="MAX"; put(0,win(x,p,[p,mx](const double*w){ return mx?wmax(w,p):wmin(w,p); })); return true; } if(n=="MINMAX") { put(0,win(x,p,[p](const double*w){ return wmin(w,p); })); put(1,win(x,p,[p](const double*w){ return wmax(w,p); })); return true; }
  if(n=="MAXINDEX"||n=="MININDEX"||n=="MINMAXINDEX") { for(int k=0;k<f.nOut;k++){ bool mx=n=="MAXINDEX"||k==1; R.alt[k].assign(N,{}); for(int i=first;i<N;i++){ double m=mx?wmax(&a[i-p+1],p):wmin(&a[i-p+1],p); for(int j=i-p+1;j<=i;j++) if(a[j]==m) R.alt[k][i].push_back(j); } } return true; }
  // moving averages
  static const char*mas[]={"SMA","EMA","WMA","DEMA","TEMA","TRIMA","KAMA",0,0,"WLMA"}; for(int t=0;t<10;t++) if(mas[t]&&n==mas[t]){ switch(t){ case 0: put(0,sma(x,p)); break; case 1: put(0,ema(x,p,e)); break; case 2: put(0,wma(x,p)); break; case 3: put(0,dema(x,p,e)); break; case 4: put(0,tema(x,p,e)); break; case 5: put(0,trima(x,p)); break; case 6: put(0,kama(x,p,e)); break; default: put(0,wlma(x,p,e)); } return true; }
  if(n=="T3") { put(0,t3(x,p,o[1],e)); return true; } if(n=="MA") { put(0,ma(x,p,(int)o[1],e)); return true; } if(n=="MAMA") { S m,q; mama(x,o[0],o[1],e,m,q); put(0,m); put(1,q); return true; }
  if(n=="MAVP") { int lo=(int)o[0],hi=(int)o[1]; R.r[0].assign(N,QN); std::map<int,S> memo; for(int i=first;i<N;i++){ int q=(int)b[i]; if(q<lo) q=lo; if(q>hi) q=hi; auto it=memo.find(q); if(it==memo.end()) it=memo.emplace(q,maAt(x,q,(int)o[2],e,first)).first; R.r[0][i]=it->second.v[i]; } return true; }
  if(n=="TRIX") { S t=ema(ema(ema(x,p,e),p,e),p,e); S q{Vec(N,0.0),t.b+1}; for(int i=q.b;i<N;i++) q.v[i]=t.v[i-1]!=0?(t.v[i]/t.v[i-1]-1)*100:0; put(0,q); return true; }
  // bands, stops, mid points
  if(n=="ACCBANDS") { auto g=[&](double s){ S q{Vec(N,0.0),0}; for(int i=0;i<N;i++){ double t=a[i]+b[i],w=zero(t)?0:4*(a[i]-b[i])/t; q.v[i]= s>0?a[i]*(1+w):b[i]*(1-w); } return sma(q,p); }; put(0,g(1)); put(1,sma(sr(c),p)); put(2,g(-1)); return true; }
  if(n=="BBANDS") { S m=maAt(x,p,(int)o[3],e,std::max(sRel,maLb(p,(int)o[3],e))); put(1,m); R.r[0]=R.r[2]=R.r[1]; for(int i=first;i<N;i++){ double s=std::sqrt(pvar(&a[i-p+1],p)); R.r[0][i]=m.v[i]+o[1]*s; R.r[2][i]=m.v[i]-o[2]*s; } return true; }
  if(n=="MIDPOINT") { put(0,win(x,p,[p](const double*w){ return (wmax(w,p)+wmin(w,p))/2; })); return true; } if(n=="MIDPRICE") { each(0,[&](int i){ return (wmax(&a[i-p+1],p)+wmin(&b[i-p+1],p))/2; }); return true; }
  if(n=="SAR"||n=="SAREXT") { bool ext=n=="SAREXT"; double start=0,off=0,iL,aL,mL,iS,aS,mS; if(ext){ start=o[0]; off=o[1]; iL=o[2]; aL=o[3]; mL=o[4]; iS=o[5]; aS=o[6]; mS=o[7]; } else { iL=aL=iS=aS=o[0]; mL=mS=o[1]; } iL=std::min(iL,mL); aL=std::min(aL,mL); iS=std::min(iS,mS); aS=std::min(aS,mS);
    R.r[0].assign(N,QN); if(N<2) return true; double u=a[1]-a[0],dn=b[0]-b[1]; bool lng= start!=0?start>0:!(dn>0&&dn>u); double ep=lng?a[1]:b[1],sar= start!=0?std::fabs(start):lng?b[0]:a[0],af=lng?iL:iS;
    for(int i=1;i<N;i++){ double ph=i==1?a[1]:a[i-1],pl=i==1?b[1]:b[i-1],h=a[i],l=b[i]; auto floorAt=[&]{ sar=std::max(sar,std::max(ph,h)); }; auto ceilAt=[&]{ sar=std::min(sar,std::min(pl,l)); };
      if(lng){ if(l<=sar){ lng=false; sar=ep; floorAt(); sar+=sar*off; R.r[0][i]=ext?-sar:sar; af=iS; ep=l; sar+=af*(ep-sar); floorAt(); } else { R.r[0][i]=sar; if(h>ep){ ep=h; af=std::min(af+aL,mL); } sar+=af*(ep-sar); ceilAt(); } }
      else { if(h>=sar){ lng=true; sar=ep; ceilAt(); sar-=sar*off; R.r[0][i]=sar; af=iL; ep=h; sar+=af*(ep-sar); ceilAt(); } else { R.r[0][i]=ext?-sar:sar; if(l<ep){ ep=l; af=std::min(af+aS,mS); } sar+=af*(ep-sar); floorAt(); } } } return true; }
  // momentum
  if(n=="APO"||n=="PPO") { int fa=std::min((int)o[0],(int)o[1]),sl=std::max((int)o[0],(int)o[1]),t=(int)o[2]; S q=maAt(x,fa,t,e,std::max(sRel,maLb(fa,t,e))),w=maAt(x,sl,t,e,first); bool pc=n=="PPO"; put(0,map2(q,w,[pc](double f1,double s1){ return pc?(zero(s1)?0:(f1-s1)/s1*100):f1-s1; })); return true; }
  if(n=="MACD"||n=="MACDFIX"||n=="MACDEXT") { S m,g; if(n=="MACDEXT"){ int fp=(int)o[0],ft=(int)o[1],sp=(int)o[2],st=(int)o[3]; if(sp<fp){ std::swap(fp,sp); std::swap(ft,st); } int big=std::max(maLb(fp,ft,e),maLb(sp,st,e)); S q=maAt(x,fp,ft,e,big),w=maAt(x,sp,st,e,big); m=map2(q,w,[](double u,double v){ return u-v; }); m.b=big; g=ma(m,(int)o[4],(int)o[5],e); }
    else { int fp,sp,sg; double kf,ks; if(n=="MACDFIX"){ fp=12; sp=26; sg=(int)o[0]; kf=0.15; ks=0.075; } else { fp=std::min((int)o[0],(int)o[1]); sp=std::max((int)o[0],(int)o[1]); sg=(int)o[2]; kf=2.0/(fp+1); ks=2.0/(sp+1); } int big=sp-1+e.u("EMA"); S q=emaAt(x,fp,kf,e,big),w=emaAt(x,sp,ks,e,big); m=map2(q,w,[](double u,double v){ return u-v; }); m.b=big; g=emaK(m,sg,2.0/(sg+1),e.u("EMA"),e.ms); }
    put(0,m); put(1,g); put(2,map2(m,g,[](double u,double v){ return u-v; })); return true; }
  if(n=="RSI"||n=="CMO") { put(0,rsiLike(x,p,e.u(f.name),e.ms,n=="CMO")); return true; }
  if(n=="STOCH") { S k=stochK(a,b,c,0,p),s1=ma(k,(int)o[1],(int)o[2],e),s2=ma(s1,(int)o[3],(int)o[4],e); put(0,s1); put(1,s2); return true; } if(n=="STOCHF") { S k=stochK(a,b,c,0,p); put(0,k); put(1,ma(k,(int)o[1],(int)o[2],e)); return true; }
  if(n=="STOCHRSI") { S r=rsiLike(x,p,e.u("RSI"),e.ms,false); S k=stochK(r.v,r.v,r.v,r.b,(int)o[1]); put(0,k); put(1,ma(k,(int)o[2],(int)o[3],e));
    long hangs=-1; int q=(int)o[1],t=(int)o[3]; bool fin=o[2]<=1||t==0||t==2||t==5; // where the RSI stands still its range is rounding: 0 or 100
    for(int i=k.b;i<N;i++){ double H=wmax(&r.v[i-q+1],q),L=wmin(&r.v[i-q+1],q); if(H-L<1e-11&&!(H==L&&(H==0||H==100))){ und(0,i); hangs=i; } if((hangs>=0&&(!fin||i-hangs<=o[2]))||(t==7&&o[2]>1)) und(1,i); /* MAMA of values that are 0 or 100 to the last bit hangs on that bit */ } return true; }
  if(n=="WILLR") { each(0,[&](int i){ double H=wmax(&a[i-p+1],p),L=wmin(&b[i-p+1],p); return H!=L?-100*(H-c[i])/(H-L):0; }); return true; }
  if(n=="AROON"||n=="AROONOSC") { for(int k=0;k<f.nOut;k++) R.r[k].assign(N,QN); for(int i=first;i<N;i++){ int hi=i,lo=i; for(int j=i;j>=i-p;j--){ if(a[j]>a[hi]) hi=j; if(b[j]<b[lo]) lo=j; } double up=100.0*(p-(i-hi))/p,dn=100.0*(p-(i-lo))/p; if(f.nOut==2){ R.r[0][i]=dn; R.r[1][i]=up; } else R.r[0][i]=up-dn; } return true; }
  if(n=="IMI") { each(0,[&](int i){ double u=0,w=0; for(int j=i-p+1;j<=i;j++){ double t=b[j]-a[j]; if(t>0) u+=t; else w-=t; } return 100*(u/(u+w)); }); return true; }
  if(n=="MFI") { Vec tp(N); for(int i=0;i<N;i++) tp[i]=(a[i]+b[i]+c[i])/3; each(0,[&](int i){ double u=0,w=0; for(int j=i-p+1;j<=i;j++){ if(tp[j]>tp[j-1]) u+=tp[j]*d[j]; else if(tp[j]<tp[j-1]) w+=tp[j]*d[j]; } if(std::fabs(u+w-1)<1e-6) und(0,i); return u+w<1?0:100*u/(u+w); }); return true; }
  if(n=="ULTOSC") { int P[3]={(int)o[0],(int)o[1],(int)o[2]}; std::sort(P,P+3); Vec T=trange(a,b,c).v; each(0,[&](int i){ double r=0; for(int k=0;k<3;k++){ double s=0,t=0; for(int j=i-P[k]+1;j<=i;j++){ s+=c[j]-std::min(b[j],c[j-1]); t+=T[j]; } double tm=0; for(int j=0;j<=i;j++) tm=std::max(tm,T[j]); if(t<1e-9*tm) und(0,i); /* what is left of the true ranges is rounding */ if(!zero(t)) r+=(4>>k)*(s/t); } return 100*r/7; }); return true; }
  if(n=="CCI") { S tp{Vec(N,0.0),0}; for(int i=0;i<N;i++) tp.v[i]=(a[i]+b[i]+c[i])/3; each(0,[&](int i){ const double*w=&tp.v[i-p+1]; long double m=0,s=0; for(int j=0;j<p;j++) m+=w[j]; m/=p; for(int j=0;j<p;j++) s+=std::fabs((double)(w[j]-m)); double mx=wmax(w,p),mn=wmin(w,p); if(mx-mn<=1e-9*std::max(std::fabs(mx),std::fabs(mn))) und(0,i); double t=(double)(w[p-1]-m); return t!=0&&s!=0?t/(0.015*(double)(s/p)):0; }); return true; }
  // directional movement
  if(n=="PLUS_DM"||n=="MINUS_DM") { Vec P,M; dms(a,b,P,M); const Vec&v=n=="PLUS_DM"?P:M; if(p<=1) put(0,S{v,1}); else put(0,S{wsum(v,p),p-1}); return true; }
  if(n=="PLUS_DI"||n=="MINUS_DI") { bool pl=n=="PLUS_DI"; if(p<=1){ Vec P,M; dms(a,b,P,M); Vec T=trange(a,b,c).v; each(0,[&](int i){ double t=pl?P[i]:M[i]; return zero(T[i])?0:t/T[i]; }); } else { DI q=dirs(a,b,c,p); put(0,S{pl?q.p:q.m,p}); } return true; }
  if(n=="DX") { DI q=dirs(a,b,c,p); double last=0; R.r[0].assign(N,QN); for(int i=p;i<N;i++){ if(q.dxok[i]) last=q.dx[i]; R.r[0][i]=last; } return true; }
  if(n=="ADX") { put(0,adx(dirs(a,b,c,p),N,p,e.u("ADX"))); return true; } if(n=="ADXR") { S q=adx(dirs(a,b,c,p),N,p,e.u("ADX")); each(0,[&](int i){ return (q.v[i]+q.v[i-(p-1)])/2; }); return true; }
  // statistics
  if(n=="VAR") { put(0,win(x,p,[p](const double*w){ return pvar(w,p); })); return true; } if(n=="STDDEV") { double nb=o[1]; put(0,win(x,p,[p,nb](const double*w){ return nb*std::sqrt(pvar(w,p)); })); return true; }
  if(n=="AVGDEV") { put(0,win(x,p,[p](const double*w){ long double m=0,s=0; for(int i=0;i<p;i++) m+=w[i]; m/=p; for(int i=0;i<p;i++) s+=std::fabs((double)(w[i]-m)); return (double)(s/p); })); return true; }
  if(n=="LINEARREG"||n=="LINEARREG_SLOPE"||n=="LINEARREG_INTERCEPT"||n=="LINEARREG_ANGLE"||n=="TSF") { put(0,win(x,p,[p,n](const double*w){ double m,k; linreg(w,p,m,k); return n=="LINEARREG"?k+m*(p-1):n=="TSF"?k+m*p:n=="LINEARREG_SLOPE"?m:n=="LINEARREG_INTERCEPT"?k:std::atan(m)*180/M_PI; })); return true; }
  if(n=="CORREL") { each(0,[&](int i){ const double*w=&a[i-p+1],*z=&b[i-p+1]; long double mx=0,my=0,xx=0,yy=0,xy=0; for(int j=0;j<p;j++){ mx+=w[j]; my+=z[j]; } mx/=p; my/=p; for(int j=0;j<p;j++){ xx+=(w[j]-mx)*(w[j]-mx); yy+=(z[j]-my)*(z[j]-my); xy+=(w[j]-mx)*(z[j]-my); } double q=(double)(xx*yy); auto sc=[&](const double*v){ double m=0; for(int j=0;j<p;j++) m=std::max(m,std::fabs(v[j])); return m*m*p; }; if(xx<=1e-9*sc(w)||yy<=1e-9*sc(z)||q<1e-13) und(0,i); return q<1e-14?0:(double)(xy/sqrtl(xx*yy)); }); return true; }
  if(n=="BETA") { auto ch=[&](const Vec&v,int i){ return zero(v[i-1])?0.0:(v[i]-v[i-1])/v[i-1]; }; double big=0,bigy=0; int at=1; each(0,[&](int i){ for(;at<=i;at++){ big=std::max(big,std::fabs(ch(a,at))); bigy=std::max(bigy,std::fabs(ch(b,at))); } long double mx=0,my=0,xx=0,xy=0,raw=0; for(int j=i-p+1;j<=i;j++){ mx+=ch(a,j); my+=ch(b,j); } mx/=p; my/=p; for(int j=i-p+1;j<=i;j++){ double q=ch(a,j); xx+=(q-mx)*(q-mx); xy+=(q-mx)*(ch(b,j)-my); raw+=q*q; } if(xx*p<1e-12||xx<=1e-9*raw||xx<=1e-6L*big*big||1e-6L*big*bigy>std::max(xx,std::abs(xy))) und(0,i); /* the running sums keep the rounding of every change so far */ return xx*p<1e-14?0:(double)(xy/xx); }); return true; }
  // volume and volatility
  if(n=="AD"||n=="ADOSC") { S ad{Vec(N,0.0),0}; double s=0; for(int i=0;i<N;i++){ double t=a[i]-b[i]; if(t>0) s+=(((c[i]-b[i])-(a[i]-c[i]))/t)*d[i]; ad.v[i]=s; } if(n=="AD") put(0,ad); else { double k[2]={2.0/((int)o[0]+1),2.0/((int)o[1]+1)}; double q=ad.v[0],w=q; R.r[0].assign(N,QN); for(int i=0;i<N;i++){ if(i){ q=k[0]*ad.v[i]+(1-k[0])*q; w=k[1]*ad.v[i]+(1-k[1])*w; } R.r[0][i]=q-w; } } return true; }
  if(n=="OBV") { double s=b[0]; R.r[0].assign(N,s); for(int i=1;i<N;i++){ if(a[i]>a[i-1]) s+=b[i]; else if(a[i]<a[i-1]) s-=b[i]; R.r[0][i]=s; } return true; }
  if(n=="NVI"||n=="PVI") { double s=100; R.r[0].assign(N,QN); for(int i=1;i<N;i++){ if(n=="NVI"?b[i]<b[i-1]:b[i]>b[i-1]) s*=a[i]/a[i-1]; R.r[0][i]=s; } return true; } if(n=="PVT") { double s=0; R.r[0].assign(N,QN); for(int i=1;i<N;i++){ s+=b[i]*(a[i]/a[i-1]-1); R.r[0][i]=s; } return true; }
  if(n=="ATR"||n=="NATR") { S t=trange(a,b,c); if(p<=1){ put(0,t); return true; } double q=0; R.r[0].assign(N,QN); for(int i=1;i<N;i++){ if(i<=p) q+=t.v[i]/p; else q=(q*(p-1)+t.v[i])/p; if(i>=p) R.r[0][i]= n=="ATR"?q:zero(c[i])?0:q/c[i]*100; } return true; }
  // cycles
  if(n.rfind("HT_",0)==0) { int skip=(n=="HT_DCPERIOD"||n=="HT_PHASOR")?12:37; Cyc q=cycle(x,skip); if(n=="HT_DCPERIOD") { put(0,S{q.sp,skip}); return true; } if(n=="HT_PHASOR") { put(0,S{q.I1,skip}); put(1,S{q.Q1,skip}); return true; }
    Vec ph(N,0.0),si(N,0.0),ls(N,0.0),tl(N,0.0),av(N,0.0); std::vector<int> mode(N,0); double P=0,ps=0,pl=0; int days=0; for(int t=skip;t<N;t++){ int m=(int)(q.sp[t]+0.5); double re=0,im=0; for(int k=0;k<m;k++){ double w=2*M_PI*k/m,s=t-k>=skip?q.smooth[t-k]:0; re+=std::sin(w)*s; im+=std::cos(w)*s; } double mx=0; for(int k=0;k<m;k++) mx=std::max(mx,t-k>=skip?std::fabs(q.smooth[t-k]):0); if(mx>0&&n!="HT_TRENDLINE"&&std::hypot(re,im)<=1e-10*m*mx) for(int z=t;z<N&&z<=t+(n=="HT_TRENDMODE"?55:0);z++) und(0,z),und(1,z); /* a standing price has no phase but that of its rounding */ double was=P; if(std::fabs(im)>0) P=std::atan(re/im)*180/M_PI; else P+= re<0?-90:re>0?90:0; P+=90; P+=360/q.sp[t]; if(im<0) P+=180; if(P>315) P-=360; ph[t]=P; si[t]=std::sin(P*M_PI/180); ls[t]=std::sin((P+45)*M_PI/180);
      double s=0; for(int k=0;k<m;k++) s+=a[t-k]; if(m>0) s/=m; av[t]=s; auto g=[&](int k){ return t-k>=skip?av[t-k]:0.0; }; tl[t]=(4*g(0)+3*g(1)+2*g(2)+g(3))/10;
      bool tr=true; if((si[t]>ls[t]&&ps<=pl)||(si[t]<ls[t]&&ps>=pl)){ days=0; tr=false; } days++; if(days<0.5*q.sp[t]) tr=false; double dp=P-was; if(q.sp[t]!=0&&dp>0.67*360/q.sp[t]&&dp<1.5*360/q.sp[t]) tr=false; if(tl[t]!=0&&std::fabs((q.smooth[t]-tl[t])/tl[t])>=0.015) tr=true; mode[t]=tr; ps=si[t]; pl=ls[t]; }
    if(n=="HT_DCPHASE") { put(0,S{ph,skip}); return true; } if(n=="HT_SINE") { put(0,S{si,skip}); put(1,S{ls,skip}); return true; } if(n=="HT_TRENDLINE") { put(0,S{tl,skip}); return true; } if(n=="HT_TRENDMODE") { R.alt[0].assign(N,{}); for(int t=first;t<N;t++) R.alt[0][t]={mode[t]}; return true; } }
  return false; }

// bars needed before the first value, from the definitions; -1: no model
static int refLookback(const Fn&f,const Vec&o){ Str n=f.name,g=f.group; Env e; e.ms=TA_GetCompatibility()==TA_COMPATIBILITY_METASTOCK; int p=f.nOpt?(int)o[0]:0; auto u=[&](const char*x){ return e.u(x); }; auto is=[&](std::initializer_list<const char*> l){ for(auto x:l) if(n==x) return true; return false; };
  if(g=="Math Transform"||(g=="Price Transform"&&n!="AVGDEV")||is({"ADD","SUB","MULT","DIV","BOP","AD","OBV"})) return 0;
  if(is({"MOM","ROC","ROCP","ROCR","ROCR100","AROON","AROONOSC","BETA"})) return p;
  if(is({"SUM","MAX","MIN","MINMAX","MAXINDEX","MININDEX","MINMAXINDEX","ACCBANDS","MIDPOINT","MIDPRICE","WILLR","CCI","VAR","STDDEV","AVGDEV","LINEARREG","LINEARREG_SLOPE","LINEARREG_INTERCEPT","LINEARREG_ANGLE","TSF","CORREL","SMA","WMA","TRIMA"})) return p-1;
  int E=p-1+u("EMA"); if(n=="EMA") return E; if(n=="DEMA") return 2*E; if(n=="TEMA") return 3*E; if(n=="TRIX") return 3*E+1; if(n=="WLMA") return p-1+u("WLMA"); if(n=="KAMA") return p+u("KAMA"); if(n=="T3") return 6*(p-1)+u("T3"); if(n=="MAMA") return 32+u("MAMA");
  if(n=="MA") return maLb(p,(int)o[1],e); if(n=="MAVP") return maLb((int)o[1],(int)o[2],e); if(n=="BBANDS") return std::max(p-1,maLb(p,(int)o[3],e)); if(is({"SAR","SAREXT","TRANGE","NVI","PVI","PVT"})) return 1;
  if(is({"APO","PPO"})) return maLb(std::max((int)o[0],(int)o[1]),(int)o[2],e); if(n=="MACD") return std::max((int)o[0],(int)o[1])-1+(int)o[2]-1+2*u("EMA"); if(n=="MACDFIX") return 25+p-1+2*u("EMA"); if(n=="MACDEXT") return std::max(maLb((int)o[0],(int)o[1],e),maLb((int)o[2],(int)o[3],e))+maLb((int)o[4],(int)o[5],e);
  if(n=="RSI"||n=="CMO") return p+u(n.c_str())-(e.ms?1:0); if(n=="STOCH") return p-1+maLb((int)o[1],(int)o[2],e)+maLb((int)o[3],(int)o[4],e); if(n=="STOCHF") return p-1+maLb((int)o[1],(int)o[2],e); if(n=="STOCHRSI") return p+u("RSI")-(e.ms?1:0)+(int)o[1]-1+maLb((int)o[2],(int)o[3],e);
  if(n=="IMI") return p-1+u("IMI"); if(n=="MFI") return p+u("MFI"); if(n=="ULTOSC") return std::max(p,std::max((int)o[1],(int)o[2])); if(n=="ADOSC") return std::max(p,(int)o[1])-1+u("EMA");
  if(n=="PLUS_DM"||n=="MINUS_DM") return p>1?p-1+u(n.c_str()):1; if(n=="PLUS_DI"||n=="MINUS_DI"||n=="ATR"||n=="NATR") return p>1||n=="ATR"||n=="NATR"?p+u(n.c_str()):1; if(n=="DX") return p+u("DX"); if(n=="ADX") return 2*p-1+u("ADX"); if(n=="ADXR") return 3*p-2+u("ADX");
  if(n=="HT_DCPERIOD"||n=="HT_PHASOR") return 32+u(n.c_str()); if(n.rfind("HT_",0)==0) return 63+u(n.c_str()); return -1; }
static std::vector<const Fn*> fnList(const std::vector<Str>&names){ std::vector<const Fn*> v; for(auto&s:names){ const Fn*f=findFn(s); if(!f){ fprintf(stderr,"no function %s\n",s.c_str()); exit(3); } v.push_back(f); } return v; }
static Case genRef(const std::vector<Str>&names,Rng&r,u64 idx,bool th){ auto v=fnList(names); const Fn&f=*v[idx%v.size()]; Case c; c.fn=f.name; c.sub="ref"; genEnv(r,f,c,0.25,0.2,0); applyEnv(c); bool cyc=Str(f.name).rfind("HT_",0)==0||Str(f.name)=="MAMA"; c.o=genOpts(r,f,th?260:140); bool big=th&&enlarge(r,f,c.o,0.002); int lb=f.lookback(c.o.data()); genInputs(r,f,std::max(1,lb+slackOf(r,(int)r.range(-1,big?4:cyc?(th?260:120):(th?120:45)))),c.in); if(!fixedZero(f)&&r.chance(0.04)){ int k=r.chance(0.8)?-(int)r.range(5,250):(int)r.range(5,100); for(int i=0;i<f.nIn;i++) if(Str(f.in[i])!="inPeriods") for(double&v:c.in[i]) v=std::ldexp(v,k); } bool ms=TA_GetCompatibility()==TA_COMPATIBILITY_METASTOCK; c.p["s"]= ms&&isMetaDep(f.name)?0:r.chance(0.5)?0:r.range(0,c.n()-1); return c; }
static void runRef(const Case&c,Ctx&x){ const Fn&f=*findFn(c.fn); int n=c.n(); if(n<1) return; int s=std::max(0,std::min(n-1,(int)c.P("s"))); bool ms=TA_GetCompatibility()==TA_COMPATIBILITY_METASTOCK; if(ms&&isMetaDep(f.name)) s=0; int lb=f.lookback(c.o.data()),first=std::max(s,lb),base=first-lb;
  int rl=refLookback(f,c.o); if(rl!=lb) x.fail(fmt("TA_%s_Lookback is %d, the definition needs %d",f.name,lb,rl));
  Bat B=runBatch(f,c.o,c.in,s,n-1); if(B.rc) x.fail(fmt("TA_%s returned %d",f.name,B.rc)); if(first>=n){ if(B.nb) x.fail("values without data"); x.tag("no values"); return; } if(B.b!=first||B.nb!=n-first) x.fail(fmt("TA_%s gave %d values from bar %d, expected %d from bar %d",f.name,B.nb,B.b,n-first,first));
  std::vector<Vec> sub; for(auto&v:c.in) sub.emplace_back(v.begin()+base,v.end()); Out R; if(!refModel(f,c.o,sub,lb,s-base,R)) x.fail("no model"); std::vector<Out> J; // the tolerance comes from the model alone: the model under noise upon its inner series, and upon rounded inputs
  auto jit=[&](int k,int q,double want,int wi){ if(J.empty()){ J.resize(38); for(int t=0;t<30;t++){ g_jitter=t+1; refModel(f,c.o,sub,lb,s-base,J[t]); } g_jitter=0; for(int t=0;t<8;t++) refModel(f,c.o,disturb(f,sub,1e-12,t+1),lb,s-base,J[30+t]); } double m=0; int i=0; for(auto&o:J){ double w=i++<30?1:1; if(f.out[k].isInt){ if(o.alt[k][q]!=std::vector<int>{wi}) m=INFINITY; } else if(!biteq(o.r[k][q],want)) m=std::max(m,w*std::fabs(o.r[k][q]-want)); if(std::isnan(m)) m=INFINITY; } return m; }; Sens S(c,f,s,n-1); long cmp=0; bool cyc=Str(f.name).rfind("HT_",0)==0||Str(f.name)=="MAMA"; double sc=1e-12*std::max(1.0,outScale(c));
  for(int k=0;k<f.nOut;k++) for(int j=0;j<B.nb;j++){ int bar=first+j,q=bar-base; if(!R.und[k].empty()&&R.und[k][q]){ x.tag("~undecided"); continue; }
    if(f.out[k].isInt){ int got=B.ii[k][j]; bool ok=false; Str want; bool idx=Str(f.name).find("INDEX")!=Str::npos; for(int w:R.alt[k][q]){ int v=idx?w+base:w; if(v==got) ok=true; want+=fmt(" %d",v); } if(!ok&&!idx&&rounded(c,f,bar)) { x.tag("~tie"); continue; } if(!ok&&!idx&&R.alt[k][q].size()==1&&jit(k,q,0,R.alt[k][q][0])>0){ x.tag("~tie"); continue; } if(!ok&&!idx&&S.intVaries(k,bar,got)) { x.tag("~unstable"); continue; } if(!ok) x.fail(fmt("TA_%s bar %d: %s is %d, expected%s",f.name,bar,f.out[k].name,got,want.c_str())); cmp++; continue; }
    double got=B.r[k][j],want=R.r[k][q]; double mx=std::max(std::fabs(got),std::fabs(want)); if(biteq(got,want)||std::fabs(got-want)<=1e-9*mx){ cmp++; continue; } if(rounded(c,f,bar)){ x.tag("~rounding"); continue; }
    Vec wr[3]; for(int q2=0;q2<f.nOut&&q2<3;q2++) if(!f.out[q2].isInt) wr[q2].assign(1,R.r[q2][q]); if(std::isfinite(got)&&std::isfinite(want)&&std::fabs(got-want)<=1e-8*mx+sc+devSlackAt(c,f,k,wr,0)+(Str(f.name)=="CCI"?1e-9:0)){ cmp++; continue; }
    double js=jit(k,q,want,0); if(std::fabs(got-want)<=50*js||js>1e-5*mx){ x.tag("~rounding"); continue; } if(closeEnough(S,k,bar,got,want,1e-8)){ x.tag("~unstable"); continue; } if(cyc&&haltBefore(c,bar)){ x.tag("~phaseless"); continue; }
    x.fail(fmt("TA_%s bar %d: %s is %.15g, expected %.15g",f.name,bar,f.out[k].name,got,want)); }
  x.nontrivial=cmp>0; x.tag(f.name); }
#define REF(ID,VAR,Q,T,...) static const std::vector<Str> VAR={__VA_ARGS__}; static Reg reg_##VAR({ID,"a case is one function with generated settings, parameters, start bar and series, computed by the library and by the reference model; non-trivial: at least one value was compared",Q,T,[](Rng&r,u64 i,bool t){ return genRef(VAR,r,i,t); },runRef,fixBars});
REF("C21",f21,600000,3000000,"ACOS","ASIN","ATAN","CEIL","COS","COSH","EXP","FLOOR","LN","LOG10","SIN","SINH","SQRT","TAN","TANH","ADD","SUB","MULT","DIV","AVGPRICE","MEDPRICE","TYPPRICE","WCLPRICE","BOP","MOM","ROC","ROCP","ROCR","ROCR100","SUM","MAX","MIN","MINMAX","MAXINDEX","MININDEX","MINMAXINDEX")
REF("C22",f22,700000,2000000,"SMA","EMA","WMA","DEMA","TEMA","TRIMA","KAMA","T3","WLMA","MA","MAVP","TRIX")
REF("C23",f23,700000,2000000,"ACCBANDS","BBANDS","MIDPOINT","MIDPRICE","SAR","SAREXT")
REF("C24",f24,500000,2000000,"APO","PPO","MACD","MACDFIX","MACDEXT","RSI","CMO","STOCH","STOCHF","STOCHRSI","WILLR","AROON","AROONOSC","IMI","MFI","ULTOSC","CCI")
REF("C25",f25,600000,1500000,"PLUS_DM","MINUS_DM","PLUS_DI","MINUS_DI","DX","ADX","ADXR")
REF("C26",f26,700000,2000000,"VAR","STDDEV","AVGDEV","LINEARREG","LINEARREG_SLOPE","LINEARREG_INTERCEPT","LINEARREG_ANGLE","TSF","CORREL","BETA")
REF("C27",f27,800000,1500000,"AD","ADOSC","OBV","NVI","PVI","PVT","TRANGE","ATR","NATR")
REF("C28",f28,300000,800000,"HT_DCPERIOD","HT_DCPHASE","HT_PHASOR","HT_SINE","HT_TRENDLINE","HT_TRENDMODE","MAMA")
