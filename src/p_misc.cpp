// Parameter validation, settings, extreme values, unstable periods.
#include "stream.h"
#include "candle.h"
static bool optOk(const OptD&d,double v){ if(d.type!=1) return v==INT_MIN||(v>=d.min&&v<=d.max); return v==-4e37||(v>=d.min&&v<=d.max); }
static Vec withDefaults(const Fn&f,const Vec&o){ Vec r=o; for(int i=0;i<f.nOpt;i++){ if(f.opt[i].type!=1&&r[i]==INT_MIN) r[i]=f.opt[i].def; if(f.opt[i].type==1&&r[i]==-4e37) r[i]=f.opt[i].def; } return r; }
// ---------------------------------------------------------------- C10 validation and defaults
static Case genC10(Rng&r,u64 idx,bool th){ const Fn&f=pickFn(r,idx); Case c; c.fn=f.name; c.sub="validate"; genEnv(r,f,c,0.2,0.1,0.2); applyEnv(c); c.o=genOpts(r,f,60);
  int k=r.chance(0.15)?0:(int)r.range(1,2); for(int t=0;t<k&&f.nOpt;t++){ int i=(int)r.range(0,f.nOpt-1); const OptD&d=f.opt[i];
    if(d.type!=1){ switch(r.range(0,11)){ case 0: c.o[i]=d.min; break; case 1: c.o[i]=d.max; break; case 2: case 3: c.o[i]=d.min-1; break; case 4: case 5: c.o[i]=d.max+1; break; case 6: case 7: c.o[i]=INT_MIN; break; case 8: c.o[i]=r.chance(0.5)?INT_MIN+1:INT_MAX; break; case 9: c.o[i]=(double)r.range(-5,0); break; case 10: c.o[i]=d.min-r.range(1,1000000); break; default: c.o[i]=d.max+r.range(1,1000000); } }
    else { switch(r.range(0,9)){ case 0: c.o[i]=d.min; break; case 1: c.o[i]=d.max; break; case 2: c.o[i]=std::nextafter(d.min,-INFINITY); break; case 3: c.o[i]=std::nextafter(d.max,INFINITY); break; case 4: case 5: c.o[i]=-4e37; break; case 6: c.o[i]=r.chance(0.5)?1e39:-1e39; break; case 7: c.o[i]=r.chance(0.5)?INFINITY:-INFINITY; break; case 8: c.o[i]=d.min-0.001-std::fabs(d.min)*0.1; break; default: c.o[i]=d.max+0.001+std::fabs(d.max)*0.1; } } }
  bool ok=true; for(int i=0;i<f.nOpt;i++) ok=ok&&optOk(f.opt[i],c.o[i]); int lb=ok?f.lookback(c.o.data()):0; int n=lb>400?(int)r.range(1,30):std::max(1,lb+slackOf(r,(int)r.range(-2,20))); genInputs(r,f,n,c.in);
  long s=r.chance(0.6)?0:r.range(0,n-1),e=n-1; if(r.chance(0.25)){ int m=(int)r.range(0,6); if(m==0) s=-1; else if(m==1) s=INT_MIN; else if(m==2) e=-1; else if(m==3) e=s-1; else if(m==4) { s=-(long)r.range(1,9); e=s+r.range(0,3); } else if(m==5) e=INT_MIN; else { s=n+3; } } c.p["s"]=s; c.p["e"]=e;
  if(r.chance(0.2)) c.p["nul"]=r.chance(0.5)&&f.nIn?r.range(1,f.nIn):10+r.range(1,f.nOut); return c; }
static void runC10(const Case&c,Ctx&x){ const Fn&f=*findFn(c.fn); if((int)c.o.size()!=f.nOpt) return; int n=c.n(); if(n<1) return; bool ok=true; for(int i=0;i<f.nOpt;i++) ok=ok&&optOk(f.opt[i],c.o[i]); Vec d=withDefaults(f,c.o); bool sent=d!=c.o;
  long sl=(long)c.P("s"),el=(long)c.P("e"); int s=(int)sl,e=(int)el,nul=(int)c.P("nul"); if(s>=0&&e>=s&&e>=n) e=n-1; if(s>=n&&e>=s) s=n-1;
  int lb=f.lookback(c.o.data()); if(ok&&lb<0) x.fail(fmt("TA_%s_Lookback is %d for valid parameters",f.name,lb)); if(!ok&&lb!=-1) x.fail(fmt("TA_%s_Lookback is %d for invalid parameters",f.name,lb)); if(ok&&f.lookback(d.data())!=lb) x.fail(fmt("TA_%s_Lookback differs between defaults asked for and given",f.name));
  std::set<int> err; if(s<0) err.insert(TA_OUT_OF_RANGE_START_INDEX); else if(e<0||e<s) err.insert(TA_OUT_OF_RANGE_END_INDEX); if(!ok||nul) err.insert(TA_BAD_PARAM); int m=err.empty()?e-s+1:4;
  std::vector<std::vector<float>> fl; for(auto&v:c.in) fl.emplace_back(v.begin(),v.end());
  auto call=[&](bool single,const Vec&o,bool nulls,std::vector<Vec>&R,std::vector<std::vector<int>>&I,int&b,int&nb){ const void*ip[4]; void*op[3]; R.assign(3,Vec(m,-7.5)); I.assign(3,std::vector<int>(m,-77)); b=-5; nb=-6;
    for(int k=0;k<f.nIn;k++) ip[k]=nulls&&nul==k+1?nullptr:single?(const void*)fl[k].data():(const void*)c.in[k].data(); for(int k=0;k<f.nOut;k++) op[k]=nulls&&nul==11+k?nullptr:f.out[k].isInt?(void*)I[k].data():(void*)R[k].data(); return (single?f.sbatch:f.batch)(s,e,ip,o.data(),&b,&nb,op); };
  for(int single=0;single<2;single++){ const char*pre=single?"S_":""; std::vector<Vec> R,R2; std::vector<std::vector<int>> I,I2; int b,nb,b2,nb2; int rc=call(single,c.o,true,R,I,b,nb);
    if(err.empty()){ if(rc) x.fail(fmt("TA_%s%s returned %d for a valid call",pre,f.name,rc)); int rc2=call(single,d,false,R2,I2,b2,nb2); if(rc2||b!=b2||nb!=nb2||I!=I2) x.fail(fmt("TA_%s%s differs between defaults asked for and given",pre,f.name)); for(int k=0;k<f.nOut;k++) for(int j=0;j<m;j++) if(!biteq(R[k][j],R2[k][j])) x.fail(fmt("TA_%s%s differs between defaults asked for and given: %s[%d] %.17g and %.17g",pre,f.name,f.out[k].name,j,R[k][j],R2[k][j])); }
    else { if(!err.count(rc)){ Str l; for(int q:err) l+=fmt(" %d",q); x.fail(fmt("TA_%s%s(%d..%d) returned %d, expected%s",pre,f.name,s,e,rc,l.c_str())); }
      for(int k=0;k<f.nOut;k++) for(int j=0;j<m;j++) if(R[k][j]!=-7.5||I[k][j]!=-77) x.fail(fmt("TA_%s%s returned %d but wrote output",pre,f.name,rc)); } }
  // states
  if(f.init(nullptr,c.o.data())!=TA_BAD_PARAM) x.fail("StateInit of a null pointer was not refused"); if(f.free_(nullptr)!=TA_BAD_PARAM&&0) x.fail("");
  { void*st=nullptr; int rc=f.init(&st,c.o.data()); if(!ok){ if(rc!=TA_BAD_PARAM) { if(st) f.free_(&st); x.fail(fmt("TA_%s_StateInit returned %d for invalid parameters",f.name,rc)); } if(st) x.fail(fmt("TA_%s_StateInit refused its parameters but left a state",f.name)); }
    else { StateGuard a(f),b(f); a.st=st; if(rc||!st) x.fail(fmt("TA_%s_StateInit returned %d for valid parameters",f.name,rc)); if(f.init(&b.st,d.data())) x.fail("StateInit with the defaults failed"); Str why; bool val=false;
      for(int i=0;i<n;i++){ StepOut p=doStep(f,a.st,c,i),q=doStep(f,b.st,c,i); if(!sameStep(f,q,p,&why)) x.fail(fmt("TA_%s_State, bar %d: defaults asked for and given differ: ",f.name,i)+why); if(p.rc!=0&&p.rc!=NMD) x.fail(fmt("TA_%s_State returned %d",f.name,p.rc)); if((p.rc==NMD)!=(i<lb)) x.fail(fmt("TA_%s_State returned %d at bar %d, lookback %d",f.name,p.rc,i,lb)); val|=p.rc==0; }
      double z[4]={1,1,1,1}; double so[3]; int si[3]; void*op[3]; for(int k=0;k<f.nOut;k++) op[k]=f.out[k].isInt?(void*)&si[k]:(void*)&so[k];
      if(f.step(nullptr,z,op)!=TA_BAD_PARAM) x.fail(fmt("TA_%s_State of a null state was not refused",f.name));
      const void*ip[4]; for(int k=0;k<f.nIn;k++) ip[k]=c.in[k].data(); int bg,nb; if(f.bstate(nullptr,0,0,ip,&bg,&nb,op)!=TA_BAD_PARAM||f.bstate(nullptr,1,0,ip,&bg,&nb,op)!=TA_BAD_PARAM) x.fail(fmt("TA_%s_BatchState of a null state was not refused",f.name));
      for(int k=0;k<f.nIn;k++){ const void*q=ip[k]; ip[k]=nullptr; if(f.bstate(a.st,0,0,ip,&bg,&nb,op)!=TA_BAD_PARAM||f.bstate(a.st,1,0,ip,&bg,&nb,op)!=TA_BAD_PARAM) x.fail(fmt("TA_%s_BatchState without %s was not refused",f.name,f.in[k])); ip[k]=q; }
      for(int k=0;k<f.nOut;k++){ void*q=op[k]; op[k]=nullptr; if(f.bstate(a.st,0,0,ip,&bg,&nb,op)!=TA_BAD_PARAM||f.bstate(a.st,1,0,ip,&bg,&nb,op)!=TA_BAD_PARAM) x.fail(fmt("TA_%s_BatchState without %s was not refused",f.name,f.out[k].name)); op[k]=q; }
      { StepOut p=doStep(f,a.st,c,0),q=doStep(f,b.st,c,0); if(!sameStep(f,q,p,&why)) x.fail(fmt("TA_%s: a refused chunk changed the state: ",f.name)+why); }
      if(val){ int k=(int)(mix64(n)%f.nOut); void*q=op[k]; op[k]=nullptr; if(f.step(a.st,z,op)!=TA_BAD_PARAM) x.fail(fmt("TA_%s_State without %s was not refused",f.name,f.out[k].name)); op[k]=q; } } }
  x.nontrivial=!err.empty()||sent; x.tag(!ok?"invalid parameter":sent?"default asked for":"valid"); if(s<0||e<s) x.tag("invalid range"); if(nul) x.tag("null buffer"); x.tag(f.group); }
static Reg r10({"C10","a case is one function with parameters at, inside or outside of their limits or asking for the default, a range that may be invalid, and possibly a null buffer; non-trivial: something is invalid or a default is asked for",900000,4000000,genC10,runC10,fixN,420,3000,{},true});
// ---------------------------------------------------------------- C15 settings
// ops: {kind,a,b,c,d}: 0 set unstable(a,b) 1 get all unstable 2 set compatibility a 3 set candle (a, range b, period c, factor d/8) 4 restore candle a 5 initialize 6 shutdown+initialize 7 double shutdown 8 run function a 9 run pattern a
static Case genC15(Rng&r,u64 idx,bool th){ Case c; c.sub="settings"; int n=r.chance(0.5)?(int)r.range(1,40):(int)r.range(30,90); OHLCV b=genBars(r,n,r.chance(0.7)?7:0); c.in={b.o,b.h,b.l,b.c,b.v}; int m=(int)r.range(3,th?40:22); std::vector<long> setLast;
  Case dc; CandleSet D[11]; candleSettings(dc,D);
  for(int i=0;i<m;i++){ long k; double u=r.unit(); k=u<0.26?0:u<0.35?1:u<0.42?2:u<0.60?3:u<0.70?4:u<0.73?5:u<0.75?6:u<0.77?7:u<0.89?8:9; std::vector<long> o{k,0,0,0,0};
    if(k==0){ o[1]=r.chance(0.1)?25:r.chance(0.08)?(r.chance(0.5)?26+r.range(0,1000):-1):r.range(0,24); o[2]=r.range(0,8); }
    else if(k==2) o[1]=r.range(0,1); else if(k==3){ o[1]=r.chance(0.06)?11+r.range(0,5):r.range(0,10); o[2]=r.range(0,2); o[3]=r.range(0,12); o[4]=r.chance(0.2)?r.range(0,80):r.range(0,24);
      if(o[1]<11&&r.chance(0.5)){ const CandleSet&d=D[o[1]]; int w=(int)r.range(0,2); if(w!=0) o[2]=d.rt; if(w!=1) o[3]=d.ap; if(w!=2) { o[4]=std::lround(d.fac*8); if(d.fac==0.1) o[4]=1; else if(d.fac==0.05||d.fac==0.03) o[4]=0; } } // one component away from the default
      setLast.push_back(o[1]); }
    else if(k==4) o[1]=r.chance(0.25)?11:r.chance(0.08)?12+r.range(0,9):!setLast.empty()&&r.chance(0.7)?std::min(10L,setLast[r.range(0,setLast.size()-1)]):r.range(0,10); else if(k==8) o[1]=r.range(0,NFN-1); else if(k==9) o[1]=r.range(0,60); c.ops.push_back(o); }
  c.p["sweep"]=r.chance(0.3); (void)idx; return c; }
struct SetModel { unsigned u[25]; int compat; CandleSet K[11]; SetModel(){ reset(); } void reset(){ memset(u,0,sizeof u); compat=0; Case c; candleSettings(c,K); } };
static void applyModel(const SetModel&M){ TA_Initialize(); for(int i=24;i>=0;i--) TA_SetUnstablePeriod((TA_FuncUnstId)i,M.u[i]); for(int i=10;i>=0;i--) TA_SetCandleSettings((TA_CandleSettingType)i,(TA_RangeType)M.K[i].rt,M.K[i].ap,M.K[i].fac); TA_SetCompatibility((TA_Compatibility)M.compat); }
static void selIn(const Fn&f,const Case&c,std::vector<Vec>&in){ in.clear(); for(int k=0;k<f.nIn;k++){ Str s=f.in[k]; int q=s=="inOpen"?0:s=="inHigh"||s=="inReal1"?1:s=="inLow"?2:s=="inVolume"||s=="inPeriods"?4:3; in.push_back(c.in[q]); if(s=="inPeriods") for(auto&v:in.back()) v=(double)((long)v%30); } }
static void runC15(const Case&c,Ctx&x){ if(c.in.size()<5||c.n()<1) return; SetModel M; TA_Initialize(); int runs=0,sets=0; static std::vector<const Fn*> cd; if(cd.empty()) for(int i=0;i<NFN;i++) if(FNS[i].candle) cd.push_back(&FNS[i]);
  auto checkAll=[&](size_t at){ for(int i=0;i<25;i++){ unsigned g=TA_GetUnstablePeriod((TA_FuncUnstId)i); if(g!=M.u[i]) x.fail(fmt("step %zu: the unstable period of %d is %u, expected %u",at,i,g,M.u[i])); } if((int)TA_GetCompatibility()!=M.compat) x.fail(fmt("step %zu: compatibility is %d, expected %d",at,(int)TA_GetCompatibility(),M.compat)); };
  auto pattern=[&](const Fn&f,size_t q){ const CandlePat*p=candlePat(f.name); Vec pen; for(int i=0;i<f.nOpt;i++) pen.push_back(f.opt[i].def); CandleRef R(c.in[0],c.in[1],c.in[2],c.in[3],M.K,pen.empty()?0:pen[0],false); std::vector<Vec> in(c.in.begin(),c.in.begin()+4); int lb=f.lookback(pen.data()); if(lb!=p->lookback(R)) x.fail(fmt("step %zu: TA_%s_Lookback is %d, by the settings in force %d",q,f.name,lb,p->lookback(R)));
    Bat A=runBatch(f,pen,in,0,c.n()-1); for(int j=0;j<A.nb;j++){ bool und; int e=candleValue(*p,R,A.b+j,und); if(!und&&e!=A.ii[0][j]) x.fail(fmt("step %zu: TA_%s bar %d is %d, by the settings in force %d",q,f.name,A.b+j,A.ii[0][j],e)); } return A.nb>0; };
  for(size_t q=0;q<c.ops.size();q++){ auto o=c.ops[q]; o.resize(5); int rc; switch(o[0]){
    case 0: { rc=TA_SetUnstablePeriod((TA_FuncUnstId)o[1],(unsigned)o[2]); bool ok=o[1]>=0&&o[1]<=25; if(rc!=(ok?TA_SUCCESS:TA_BAD_PARAM)) x.fail(fmt("TA_SetUnstablePeriod(%ld) returned %d",o[1],rc)); if(o[1]==25) for(auto&u:M.u) u=(unsigned)o[2]; else if(ok) M.u[o[1]]=(unsigned)o[2]; if(!ok&&TA_GetUnstablePeriod((TA_FuncUnstId)o[1])!=0) x.fail(fmt("TA_GetUnstablePeriod(%ld) is not 0",o[1])); sets++; checkAll(q); break; }
    case 1: checkAll(q); break;
    case 2: rc=TA_SetCompatibility((TA_Compatibility)o[1]); if(rc) x.fail("TA_SetCompatibility failed"); M.compat=(int)o[1]; sets++; checkAll(q); break;
    case 3: { rc=TA_SetCandleSettings((TA_CandleSettingType)o[1],(TA_RangeType)o[2],(int)o[3],o[4]/8.0); bool ok=o[1]>=0&&o[1]<11; if(rc!=(ok?TA_SUCCESS:TA_BAD_PARAM)) x.fail(fmt("TA_SetCandleSettings(%ld) returned %d",o[1],rc)); if(ok) M.K[o[1]]={(int)o[2],(int)o[3],o[4]/8.0}; sets++; checkAll(q); break; }
    case 4: { rc=TA_RestoreCandleDefaultSettings((TA_CandleSettingType)o[1]); bool ok=o[1]>=0&&o[1]<=11; if(rc!=(ok?TA_SUCCESS:TA_BAD_PARAM)) x.fail(fmt("TA_RestoreCandleDefaultSettings(%ld) returned %d",o[1],rc)); Case d; CandleSet D[11]; candleSettings(d,D); for(int i=0;i<11;i++) if(o[1]==11||o[1]==i) M.K[i]=D[i]; sets++; checkAll(q); break; }
    case 5: if(TA_Initialize()) x.fail("TA_Initialize failed"); M.reset(); checkAll(q); break;
    case 6: if(TA_Shutdown()) x.fail("TA_Shutdown failed"); if(TA_Initialize()) x.fail("TA_Initialize after a shutdown failed"); M.reset(); checkAll(q); break;
    case 7: if(TA_Shutdown()) x.fail("TA_Shutdown failed"); if(TA_Shutdown()!=TA_LIB_NOT_INITIALIZE) { TA_Initialize(); x.fail("a second TA_Shutdown was not refused"); } TA_Initialize(); M.reset(); checkAll(q); break;
    case 8: { if(o[1]<0||o[1]>=NFN) break; const Fn&f=FNS[o[1]]; Case d; d.fn=f.name; for(int i=0;i<f.nOpt;i++) d.o.push_back(f.opt[i].def); for(int i=0;i<f.nOpt;i++) if(f.opt[i].type==0) d.o[i]=std::max(f.opt[i].min,2.0+i); selIn(f,c,d.in); int l1=f.lookback(d.o.data()); Bat A=runBatch(f,d.o,d.in,0,c.n()-1); checkAll(q); applyModel(M); int l2=f.lookback(d.o.data()); Bat B=runBatch(f,d.o,d.in,0,c.n()-1); if(l1!=l2) x.fail(fmt("step %zu: TA_%s_Lookback is %d after this history of settings, %d with the same settings made afresh",q,f.name,l1,l2)); if(A.rc!=B.rc||A.b!=B.b||A.nb!=B.nb) x.fail(fmt("step %zu: TA_%s depends on the history of settings",q,f.name)); for(int k=0;k<f.nOut;k++) for(int j=0;j<A.nb;j++) if(f.out[k].isInt?A.ii[k][j]!=B.ii[k][j]:!biteq(A.r[k][j],B.r[k][j])) x.fail(fmt("step %zu: TA_%s depends on the history of settings",q,f.name)); if(A.nb>0) runs++; break; }
    case 9: if(o[1]>=0&&o[1]<(long)cd.size()&&pattern(*cd[o[1]],q)) runs++; break; } }
  // at the end every pattern shows the settings in force: the ranges it looks back on and its values
  if(c.P("sweep")!=0) for(auto f:cd) if(pattern(*f,c.ops.size())) runs++;
  checkAll(c.ops.size()); TA_Initialize();
  // return code texts
  static const char*N[]={"TA_SUCCESS","TA_LIB_NOT_INITIALIZE","TA_BAD_PARAM","TA_ALLOC_ERR","TA_GROUP_NOT_FOUND","TA_FUNC_NOT_FOUND","TA_INVALID_HANDLE","TA_INVALID_PARAM_HOLDER","TA_INVALID_PARAM_HOLDER_TYPE","TA_INVALID_PARAM_FUNCTION","TA_INPUT_NOT_ALL_INITIALIZE","TA_OUTPUT_NOT_ALL_INITIALIZE","TA_OUT_OF_RANGE_START_INDEX","TA_OUT_OF_RANGE_END_INDEX","TA_INVALID_LIST_TYPE","TA_BAD_OBJECT","TA_NOT_SUPPORTED","TA_NEED_MORE_DATA","TA_IO_FAILED"};
  { long code=(long)(mix64(c.ops.size()*131+c.n())%6200); if(code>24&&code<4900) code%=24; TA_RetCodeInfo I={nullptr,nullptr}; TA_SetRetCodeInfo((TA_RetCode)code,&I); const char*e= code<=18?N[code]: code>=5000&&code<=5999?"TA_INTERNAL_ERROR":"TA_UNKNOWN_ERR"; if(!I.enumStr||!I.infoStr||strcmp(I.enumStr,e)) x.fail(fmt("TA_SetRetCodeInfo(%ld) gives %s",code,I.enumStr?I.enumStr:"(null)")); }
  { Str v=fmt("%s.%s.%s",TA_GetVersionMajor(),TA_GetVersionMinor(),TA_GetVersionBuild()); if(*TA_GetVersionExtra()) v+=Str("-")+TA_GetVersionExtra(); v+=fmt(" (%s %s)",TA_GetVersionDate(),TA_GetVersionTime()); if(v!=TA_GetVersionString()) x.fail(fmt("the version string is %s, its parts give %s",TA_GetVersionString(),v.c_str())); }
  x.nontrivial=runs>0&&sets>0; x.tag(runs>0&&sets>0?"settings observed":"settings only"); }
static Reg r15({"C15","a case is a sequence of calls that set, restore, read and reset the unstable periods, the compatibility and the candle settings, interleaved with indicators run under them; non-trivial: at least one setting was made and one indicator with values was run",100000,2000000,genC15,runC15,nullptr,420,3000,{},true});
// ---------------------------------------------------------------- C17 extreme values
static const double XV[]={NAN,INFINITY,-INFINITY,DBL_MAX,-DBL_MAX,DBL_MIN,5e-324,0.0,-0.0,1e308,-1e308,1e-300,1e154,-1e154,1e16,9007199254740993.0,2147483648.0,-2147483649.0,1e-14,1.0};
static Case genC17(Rng&r,u64 idx,bool th){ const Fn&f=pickFn(r,idx); Case c; c.fn=f.name; c.sub="extreme"; genEnv(r,f,c,0.3,0.2,0.3); applyEnv(c); c.o=genOpts(r,f,100); for(int i=0;i<f.nOpt;i++) if(f.opt[i].type==1&&r.chance(0.15)) c.o[i]=r.chance(0.5)?f.opt[i].max:f.opt[i].min;
  int lb=f.lookback(c.o.data()); genInputs(r,f,std::max(1,lb+slackOf(r,(int)r.range(-2,th?60:30))),c.in); int mode=(int)r.range(0,5); int n=c.n(); static const int NX=sizeof XV/sizeof*XV; double one=XV[r.range(0,NX-1)],two=XV[r.range(0,NX-1)]; double dens=r.chance(0.5)?0.05:0.4; long at=r.range(0,n-1);
  for(auto&v:c.in) for(int i=0;i<n;i++){ if(mode==0) v[i]=one; else if(mode==1) { if(r.chance(dens)) v[i]=one; } else if(mode==2) { if(r.chance(dens)) v[i]=XV[r.range(0,NX-1)]; } else if(mode==3) v[i]=i%2?one:two; else if(mode==4) { if(i>=at) v[i]=one; } else if(i==at&&r.chance(0.7)) v[i]=XV[r.range(0,NX-1)]; }
  if(r.chance(0.3)&&c.in.size()>1) { int k=(int)r.range(0,c.in.size()-1); std::vector<Vec> t; genInputs(r,f,n,t); c.in[k]=t[k]; } c.p["s"]=r.chance(0.6)?0:r.range(0,n-1); return c; }
static void runC17(const Case&c,Ctx&x){ const Fn&f=*findFn(c.fn); int n=c.n(); if(n<1) return; int lb=f.lookback(c.o.data()); int s=std::max(0,std::min(n-1,(int)c.P("s"))),e=n-1; bool special=false; for(auto&v:c.in) for(double q:v) if(!std::isfinite(q)||std::fabs(q)>1e15||(q!=0&&std::fabs(q)<1e-10)) special=true;
  auto ints=[&](const char*what,int k,int bar,int v){ Str nm=f.name; bool ok; if(f.candle) ok=v==0||v==100||v==-100||v==200||v==-200||v==80||v==-80; else if(nm.find("INDEX")!=Str::npos) ok=v>=bar-lb&&v<=bar; else if(nm=="HT_TRENDMODE") ok=v==0||v==1; else ok=true; if(!ok) x.fail(fmt("TA_%s%s bar %d: %s is %d",f.name,what,bar,f.out[k].name,v)); };
  std::vector<std::vector<float>> fl; for(auto&v:c.in){ fl.emplace_back(); for(double d:v) fl.back().push_back(d>FLT_MAX?INFINITY:d<-FLT_MAX?-INFINITY:(float)d); }
  for(int single=0;single<2;single++){ const void*ip[4]; void*op[3]; Vec R[3]; std::vector<int> I[3]; for(int k=0;k<f.nIn;k++) ip[k]=single?(const void*)fl[k].data():(const void*)c.in[k].data(); for(int k=0;k<f.nOut;k++){ R[k].assign(f.out[k].isInt?0:e-s+1,0); I[k].assign(f.out[k].isInt?e-s+1:0,0); op[k]=f.out[k].isInt?(void*)I[k].data():(void*)R[k].data(); }
    int b=-1,nb=-1,rc=(single?f.sbatch:f.batch)(s,e,ip,c.o.data(),&b,&nb,op); if(rc) x.fail(fmt("TA_%s%s returned %d",single?"S_":"",f.name,rc)); int beg=std::max(s,lb),m=std::max(0,e-beg+1); if(nb!=m||(m&&b!=beg)) x.fail(fmt("TA_%s%s: %d values from %d, expected %d from %d",single?"S_":"",f.name,nb,b,m,beg));
    for(int k=0;k<f.nOut;k++) if(f.out[k].isInt) for(int j=0;j<nb;j++) ints(single?" (single precision)":"",k,b+j,I[k][j]); }
  StateGuard g(f); if(f.init(&g.st,c.o.data())) x.fail("StateInit failed"); int h=n/2; for(int i=0;i<h;i++){ StepOut o=doStep(f,g.st,c,i); if(o.rc!=(i<lb?NMD:0)) x.fail(fmt("TA_%s_State returned %d at bar %d, lookback %d",f.name,o.rc,i,lb)); if(!o.rc) for(int k=0;k<f.nOut;k++) if(f.out[k].isInt) ints("_State",k,i,o.i[k]); }
  { MemFile m; m.openWrite(); if(f.save(g.st,m.f)) x.fail("StateSave failed"); m.close(); void*st=nullptr; MemFile q; q.openRead(m.buf); if(f.load(&st,q.f)) x.fail("StateLoad failed"); f.free_(&g.st); g.st=st; }
  for(int i=h;i<n;i++){ StepOut o=doStep(f,g.st,c,i); if(o.rc!=(i<lb?NMD:0)) x.fail(fmt("TA_%s_State returned %d at bar %d, lookback %d",f.name,o.rc,i,lb)); if(!o.rc) for(int k=0;k<f.nOut;k++) if(f.out[k].isInt) ints("_State",k,i,o.i[k]); }
  x.nontrivial=special&&n>lb; x.tag(f.group); }
static Reg r17({"C17","a case is one function with generated settings and parameters on series that contain not-a-number, infinities, the largest and smallest numbers, zeros of both signs; non-trivial: a value is special and there are output values",500000,4000000,genC17,runC17,fixN});
// ---------------------------------------------------------------- C30 unstable period
static bool usesMA(const Fn&f){ for(int i=0;i<f.nOpt;i++) if(f.opt[i].type==2) return true; return false; }
static int ownUnst(const Str&n){ if(n=="ADXR") return 0; if(n=="STOCHRSI") return 21; return unstId(n); } // the period that delays the output of n one for one
static bool dependsOn(const Fn&f,int id){ Str n=f.name; if(n=="STOCHRSI"&&(id==22)) return true; if(n=="ADXR"&&id==1) return true; if(ownUnst(n)==id) return true; if(n=="MAVP"||usesMA(f)) return id==5||id==13||id==14||id==23||id==24; // any moving average
  static const std::map<Str,std::set<int>> D={{"DEMA",{5}},{"TEMA",{5}},{"TRIX",{5}},{"MACD",{5}},{"MACDFIX",{5}},{"ADOSC",{5}}}; auto i=D.find(n); return i!=D.end()&&i->second.count(id); }
static Case genC30(Rng&r,u64 idx,bool th){ Case c; const Fn*f; static std::vector<const Fn*> U; if(U.empty()) for(int i=0;i<NFN;i++) if(ownUnst(FNS[i].name)>=0) U.push_back(&FNS[i]);
  bool own=idx%3!=2; f=own?U[(idx/3*2+idx%3)%U.size()]:&FNS[(idx/3)%NFN]; c.fn=f->name; c.sub="unstable"; genEnv(r,*f,c,0.3,0.15,0.2); applyEnv(c); c.o=genOpts(r,*f,80); c.p["id"]=own?ownUnst(f->name):r.range(0,24); c.p["u"]=r.chance(0.1)?r.range(20,120):r.range(1,20); c.p["s"]=r.chance(0.6)?0:r.range(0,40);
  int lb=f->lookback(c.o.data()); genInputs(r,*f,std::max(1,lb+(int)c.P("u")+(int)r.range(0,th?60:25)),c.in); return c; }
static void runC30(const Case&c,Ctx&x){ const Fn&f=*findFn(c.fn); int n=c.n(),id=(int)c.P("id"),u=(int)c.P("u"),s=(int)c.P("s"); if(n<1||id<0||id>24||u<1||s<0) return; s=std::min(s,n-1);
  if(!dependsOn(f,id)){ int l0=f.lookback(c.o.data()); Bat A=runBatch(f,c.o,c.in,s,n-1); TA_SetUnstablePeriod((TA_FuncUnstId)id,u+TA_GetUnstablePeriod((TA_FuncUnstId)id)); int l1=f.lookback(c.o.data()); Bat B=runBatch(f,c.o,c.in,s,n-1); if(l0!=l1||A.nb!=B.nb||A.b!=B.b||A.rc!=B.rc) x.fail(fmt("the unstable period of %d changes the range of TA_%s",id,f.name)); for(int k=0;k<f.nOut;k++) for(int j=0;j<A.nb;j++) if(f.out[k].isInt?A.ii[k][j]!=B.ii[k][j]:!biteq(A.r[k][j],B.r[k][j])) x.fail(fmt("the unstable period of %d changes the values of TA_%s",id,f.name)); x.nontrivial=A.nb>0; x.tag("unrelated period"); return; }
  if(ownUnst(f.name)!=id) return;
  TA_SetUnstablePeriod((TA_FuncUnstId)id,0); int l0=f.lookback(c.o.data()); TA_SetUnstablePeriod((TA_FuncUnstId)id,u); int l1=f.lookback(c.o.data()); Str nm=f.name;
  bool none=false; // period 1 forms that do not smooth have nothing to wait for
  if((nm=="PLUS_DI"||nm=="MINUS_DI"||nm=="PLUS_DM"||nm=="MINUS_DM")&&c.o[0]==1) none=true;
  if(none? l1!=l0 : l1!=l0+u) x.fail(fmt("TA_%s_Lookback is %d with an unstable period of %d, and %d without",f.name,l1,u,l0)); if(none) { x.tag("period 1"); return; }
  int beg=std::max(s,l1); if(beg>=n) return; Bat A=runBatch(f,c.o,c.in,beg,n-1); TA_SetUnstablePeriod((TA_FuncUnstId)id,0); Bat B=runBatch(f,c.o,c.in,beg-u,n-1); if(A.rc||B.rc||A.nb!=n-beg||B.nb!=n-beg+u) x.fail(fmt("TA_%s: %d values from %d and %d from %d",f.name,A.nb,A.b,B.nb,B.b));
  int no=nm=="STOCHRSI"?1:f.nOut; // its second output averages values that start with the range
  TA_SetUnstablePeriod((TA_FuncUnstId)id,u); Sens S(c,f,beg,n-1);
  int q0=0; if(Str(f.name)=="DX") while(q0<A.nb&&A.r[0][q0]==0) q0++; /* while nothing moves DX repeats its last value, and the first one has none to repeat */
  for(int k=0;k<no;k++) for(int j=q0;j<A.nb;j++) if(f.out[k].isInt?A.ii[k][j]!=B.ii[k][j+u]&&!S.intVaries(k,beg+j,A.ii[k][j]):!biteq(A.r[k][j],B.r[k][j+u])&&!closeEnough(S,k,beg+j,A.r[k][j],B.r[k][j+u])) x.fail(fmt("TA_%s bar %d: %.17g with an unstable period of %d, %.17g when starting %d bars earlier without",f.name,beg+j,f.out[k].isInt?(double)A.ii[k][j]:A.r[k][j],u,f.out[k].isInt?(double)B.ii[k][j+u]:B.r[k][j+u],u));
  x.nontrivial=true; x.tag("own period"); x.tag(f.name); }
static Reg r30({"C30","a case is one function, an unstable period it should obey or ignore, generated settings, parameters and bars; non-trivial: values were compared",700000,4000000,genC30,runC30,fixBars});
