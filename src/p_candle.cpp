#include "candle.h"
// ---------------------------------------------------------------- candlesticks against the definition of each pattern
static std::vector<const Fn*>& cdl(){ static std::vector<const Fn*> v; if(v.empty()) for(int i=0;i<NFN;i++) if(FNS[i].candle) v.push_back(&FNS[i]); return v; }
static Case genC(Rng&r,u64 idx,bool){ const Fn&f=*cdl()[idx%cdl().size()]; return genCandleCase(r,f,40); }
static void runC(const Case&c,Ctx&x){
  const Fn&f=*findFn(c.fn); const CandlePat*p=candlePat(c.fn); if(!p) x.fail(fmt("no model of %s",c.fn.c_str())); int n=c.n();
  CandleSet K[11]; candleSettings(c,K); bool ex=exactCandles(c); CandleRef k(c.in[0],c.in[1],c.in[2],c.in[3],K,c.o.empty()?0:c.o[0],ex);
  int lb=f.lookback(c.o.data()), ref=p->lookback(k); if(lb!=ref) x.fail(fmt("TA_%s_Lookback is %d, the definition needs %d",f.name,lb,ref));
  int s=(int)c.P("s"); if(s>=n) s=n-1; Bat R=runBatch(f,c.o,c.in,s,n-1); if(R.rc) x.fail(fmt("TA_%s returned %d",f.name,R.rc));
  int beg=std::max(s,lb); int nb=std::max(0,n-beg); if(R.nb!=nb||(nb&&R.b!=beg)) x.fail(fmt("TA_%s: %d values from bar %d, expected %d from %d",f.name,R.nb,R.b,nb,beg));
  bool hit=false; for(int i=beg;i<n;i++){ bool und; int e=candleValue(*p,k,i,und); if(und){ x.tag("~tie"); continue; } int g=R.ii[0][i-beg]; if(e) hit=true; x.tag(Str(f.name)+fmt(":%d",e)); if(g!=e) x.fail(fmt("bar %d: TA_%s gives %d, by the definition %d",i,f.name,g,e)); }
  x.nontrivial=hit; if(ex) x.tag("~exact"); }
static Reg r1({"C29","a case is one of the 61 patterns, generated candle settings and bars that approach the pattern by hill climbing; non-trivial: the pattern occurs at least once",200000,3000000,genC,runC,fixBars});
