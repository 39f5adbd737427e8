// The abstract interface: calls through it (C12), what it says about the functions (C13), its error protocol (C14).
#include "stream.h"
extern "C" {
#include "ta_abstract.h"
}
struct HIn { bool price; std::vector<int> k; };
static std::vector<HIn> holderInputs(const Fn&f){ std::vector<HIn> v; for(int k=0;k<f.nIn;k++){ Str s=f.in[k]; bool p=s=="inOpen"||s=="inHigh"||s=="inLow"||s=="inClose"||s=="inVolume"; if(p&&!v.empty()&&v.back().price) v.back().k.push_back(k); else v.push_back({p,{k}}); } return v; }
static int priceFlag(const Str&s){ return s=="inOpen"?TA_IN_PRICE_OPEN:s=="inHigh"?TA_IN_PRICE_HIGH:s=="inLow"?TA_IN_PRICE_LOW:s=="inClose"?TA_IN_PRICE_CLOSE:TA_IN_PRICE_VOLUME; }
static int setHolderIn(const Fn&f,TA_ParamHolder*h,int i,const HIn&d,const double*const*ptr,int miss=0,const double*rest=nullptr){ if(!d.price) return TA_SetInputParamRealPtr(h,i,ptr[d.k[0]]); const double*q[6]={rest,rest,rest,rest,rest,rest}; for(int k:d.k){ int fl=priceFlag(f.in[k]); int w=fl==1?0:fl==2?1:fl==4?2:fl==8?3:4; q[w]=(miss&fl)?nullptr:ptr[k]; } return TA_SetInputParamPricePtr(h,i,q[0],q[1],q[2],q[3],q[4],q[5]); }
static int setHolderOpt(const Fn&f,TA_ParamHolder*h,int i,double v){ return f.opt[i].type==1?TA_SetOptInputParamReal(h,i,v):TA_SetOptInputParamInteger(h,i,(int)v); }
static const TA_FuncHandle*handleOf(const Fn&f,Ctx&x){ const TA_FuncHandle*h=nullptr; int rc=TA_GetFuncHandle(f.name,&h); if(rc||!h) x.fail(fmt("TA_GetFuncHandle(\"%s\") returned %d",f.name,rc)); return h; }
struct HG { TA_ParamHolder*h=nullptr; ~HG(){ if(h){ TA_FreeState(h); TA_ParamHolderFree(h); } } };
static double badOpt(Rng&r,const OptD&d){ if(d.type==1) return r.chance(0.5)?-4e37:d.max<1e37?d.max+1:d.min-1e37; return r.chance(0.4)?INT_MIN:r.chance(0.5)?d.min-1:d.max+1; }
// ---------------------------------------------------------------- C12 abstract calls
// ops: {0: one bar | 1: chunk of a bars | 2: save and load | 3: swap the state out and in}, a
static Case genC12(Rng&r,u64 idx,bool th){ const Fn&f=pickFn(r,idx); Case c; c.fn=f.name; c.sub="abstract"; genEnv(r,f,c,0.25,0.1,0.25); applyEnv(c); c.o=genOpts(r,f,60); int lb=f.lookback(c.o.data()); genInputs(r,f,std::max(1,lb+(int)r.range(1,th?60:30)),c.in); int n=c.n(); if(r.chance(0.15)&&f.nOpt) { int i=(int)r.range(0,f.nOpt-1); c.o[i]=badOpt(r,f.opt[i]); }
  c.p["unset"]=r.chance(0.3)?r.range(0,(1<<f.nOpt)-1):0; bool bad=r.chance(0.08); c.p["s"]=bad?r.range(-2,n-1):r.chance(0.5)?0:r.range(0,n-1); c.p["e"]=bad?r.range(-2,n-1):r.range((long)c.P("s"),n-1); c.p["ptr"]=r.range(0,1); int m=(int)r.range(2,12); for(int i=0;i<m;i++){ double u=r.unit(); long k=u<0.45?0:u<0.8?1:u<0.93?2:3; c.ops.push_back({k,k==0?r.range(1,lb+4):r.range(0,lb+4)}); } return c; }
static void runC12(const Case&c,Ctx&x){ const Fn&f=*findFn(c.fn); int n=c.n(); if(n<1) return; int s=(int)c.P("s"),e=std::min((int)c.P("e"),n-1); if(s>n-1) s=n-1; const TA_FuncHandle*hd=handleOf(f,x); long live=g_live; { HG g; int rc=TA_ParamHolderAlloc(hd,&g.h); if(rc) x.fail(fmt("TA_ParamHolderAlloc returned %d",rc)); std::vector<HIn> hin=holderInputs(f); Vec o=c.o; int unset=(int)c.P("unset");
  for(int i=0;i<f.nOpt;i++) if(unset>>i&1) o[i]=f.opt[i].def; else if((rc=setHolderOpt(f,g.h,i,o[i]))) x.fail(fmt("setting parameter %d returned %d",i,rc));
  const double*ip[4]; const void*vp[4]; auto setIn=[&](int off){ for(int k=0;k<f.nIn;k++) vp[k]=ip[k]=c.in[k].data()+off; for(size_t i=0;i<hin.size();i++) if((rc=setHolderIn(f,g.h,(int)i,hin[i],ip))) x.fail(fmt("setting input %zu returned %d",i,rc)); }; setIn(0);
  Vec A[3],B[3]; std::vector<int> Ai[3],Bi[3]; void*ap[3],*bp[3]; auto setOut=[&](int len){ for(int k=0;k<f.nOut;k++){ A[k].assign(len,-7.25);B[k]=A[k];Ai[k].assign(len,-7);Bi[k]=Ai[k]; if(f.out[k].isInt){ ap[k]=Ai[k].data();bp[k]=Bi[k].data(); rc=TA_SetOutputParamIntegerPtr(g.h,k,Ai[k].data()); } else { ap[k]=A[k].data();bp[k]=B[k].data(); rc=TA_SetOutputParamRealPtr(g.h,k,A[k].data()); } if(rc) x.fail(fmt("setting output %d returned %d",k,rc)); } };
  auto same=[&](const Str&what){ for(int k=0;k<f.nOut;k++) for(size_t j=0;j<A[k].size();j++) if(f.out[k].isInt?Ai[k][j]!=Bi[k][j]:!biteq(A[k][j],B[k][j])) x.fail(fmt("TA_%s %s: %s[%zu] is %.17g through the abstract interface and %.17g direct",f.name,what.c_str(),f.out[k].name,j,f.out[k].isInt?(double)Ai[k][j]:A[k][j],f.out[k].isInt?(double)Bi[k][j]:B[k][j])); };
  int l=-99; rc=TA_GetLookback(g.h,&l); int l2=f.lookback(o.data()); if(rc||l!=l2) x.fail(fmt("TA_GetLookback gives %d (code %d), TA_%s_Lookback %d",l,rc,f.name,l2));
  setOut(n); int b=-5,nb=-5,b2=-5,nb2=-5; rc=TA_CallFunc(g.h,s,e,&b,&nb); int rc2=f.batch(s,e,vp,o.data(),&b2,&nb2,bp); if(rc!=rc2||b!=b2||nb!=nb2) x.fail(fmt("TA_CallFunc of TA_%s over %d..%d: code %d, %d values from %d; direct: code %d, %d values from %d",f.name,s,e,rc,nb,b,rc2,nb2,b2)); same("batch");
  TA_FuncInfo const*fi=nullptr; TA_GetFuncInfo(hd,&fi); bool ptr=c.P("ptr")!=0; TA_StateFunc fInit,fCall,fFree; TA_BatchStateFunc fBatch; TA_StateIOFunc fSave,fLoad; if(TA_GetInitNewStateFuncPtr(fi,&fInit)||TA_GetCallFuncStateFuncPtr(fi,&fCall)||TA_GetFreeStateFuncPtr(fi,&fFree)||TA_GetCallFuncBatchStateFuncPtr(fi,&fBatch)||TA_GetSaveStateFuncPtr(fi,&fSave)||TA_GetLoadStateFuncPtr(fi,&fLoad)) x.fail("a state function pointer is missing"); void*hid=g.h->hiddenData;
  StateGuard d(f); rc=ptr?(int)fInit(hid):TA_InitNewState(g.h); rc2=f.init(&d.st,o.data()); if(rc!=rc2) x.fail(fmt("TA_InitNewState returned %d, TA_%s_StateInit %d",rc,f.name,rc2)); bool st=rc==0; int i=0; bool vals=nb>0&&rc==0;
  if(st) for(auto&op:c.ops){ if(op.size()<2) continue; if(op[0]==0) for(int t=0;t<op[1]&&i<n;t++,i++){ setIn(i); setOut(1); double v[4]; for(int k=0;k<f.nIn;k++) v[k]=c.in[k][i]; rc=ptr?(int)fCall(hid):TA_CallFuncState(g.h); rc2=f.step(d.st,v,bp); if(rc!=rc2) x.fail(fmt("TA_CallFuncState of TA_%s returned %d at bar %d, direct %d",f.name,rc,i,rc2)); same(fmt("state, bar %d",i)); if(!rc) vals=true; }
    else if(op[0]==1){ int m=std::min((int)op[1],n-i); if(m<1) continue; int off=(int)(mix64(i*31+m)%(i+1)); setIn(off); setOut(m); b=b2=nb=nb2=-5; rc=ptr?(int)fBatch(hid,i-off,i-off+m-1,&b,&nb):TA_CallFuncBatchState(g.h,i-off,i-off+m-1,&b,&nb); rc2=f.bstate(d.st,i-off,i-off+m-1,vp,&b2,&nb2,bp); if(rc!=rc2||b!=b2||nb!=nb2) x.fail(fmt("TA_CallFuncBatchState of TA_%s: code %d, %d values from %d; direct: code %d, %d from %d",f.name,rc,nb,b,rc2,nb2,b2)); same(fmt("state, bars %d to %d",i,i+m-1)); i+=m; }
    else if(op[0]==2){ MemFile m,m2; m.openWrite(); rc=ptr?(int)fSave(hid,m.f):TA_SaveState(g.h,m.f); m.close(); if(rc) x.fail(fmt("TA_SaveState returned %d",rc)); rc=ptr?(int)fFree(hid):TA_FreeState(g.h); if(rc) x.fail(fmt("TA_FreeState returned %d",rc)); void*q=&q; TA_GetParamStatePtr(g.h,&q); if(q) x.fail("the state is not null after TA_FreeState"); MemFile r; r.openRead(m.buf); rc=ptr?(int)fLoad(hid,r.f):TA_LoadState(g.h,r.f); if(rc) x.fail(fmt("TA_LoadState returned %d",rc)); }
    else { void*q=nullptr; if(TA_GetParamStatePtr(g.h,&q)||!q) x.fail("TA_GetParamStatePtr gives no state"); HG g2; if(TA_ParamHolderAlloc(hd,&g2.h)) x.fail("TA_ParamHolderAlloc failed"); for(int k=0;k<f.nOpt;k++) setHolderOpt(f,g2.h,k,o[k]); if(TA_SetParamStatePtr(g.h,nullptr)||TA_SetParamStatePtr(g2.h,q)) x.fail("TA_SetParamStatePtr failed"); std::swap(g.h,g2.h); hid=g.h->hiddenData; setIn(0); } }
  rc=ptr?(int)fFree(hid):TA_FreeState(g.h); if(st&&rc) x.fail(fmt("TA_FreeState returned %d",rc)); void*q=&q; TA_GetParamStatePtr(g.h,&q); if(q) x.fail("the state is not null after TA_FreeState"); x.nontrivial=vals; x.tag(st?f.group:"refused"); }
  if(g_live!=live) x.fail(fmt("%ld allocations of the abstract interface are not freed",g_live-live)); }
static Reg r12({"C12","a case is one function called through a parameter holder and direct: lookback, batch, and a state fed by bars and chunks, saved and loaded; non-trivial: values were compared",400000,2000000,genC12,runC12,fixN,420,3000,{},true});
// ---------------------------------------------------------------- C13 metadata
struct Xml { Str tag,text; std::vector<Xml> kids; const Xml*get(const char*t)const{ for(auto&k:kids) if(k.tag==t) return &k; return nullptr; } Str val(const char*t)const{ auto q=get(t); return q?q->text:Str("(no ")+t+")"; } };
static Str trim(Str s){ size_t a=s.find_first_not_of(" \t\r\n"),b=s.find_last_not_of(" \t\r\n"); return a==Str::npos?"":s.substr(a,b-a+1); }
static Str unesc(Str s){ static const char*E[][2]={{"&lt;","<"},{"&gt;",">"},{"&quot;","\""},{"&apos;","'"},{"&amp;","&"}}; for(auto&e:E) for(size_t p=0;(p=s.find(e[0],p))!=Str::npos;p++) s.replace(p,strlen(e[0]),e[1]); return s; }
static bool parseXml(const char*&p,Xml&x){ for(;;){ Str t; while(*p&&*p!='<') t+=*p++; x.text+=t; if(!*p) return x.tag.empty(); if(!strncmp(p,"<!--",4)){ p=strstr(p,"-->"); if(!p){ p=""; return false; } p+=3; continue; } if(p[1]=='?'){ p=strchr(p,'>'); if(!p){ p=""; return false; } p++; continue; }
  const char*q=strchr(p,'>'); if(!q) return false; Str in(p+1,q); bool self=!in.empty()&&in.back()=='/'; p=q+1; if(in[0]=='/'){ x.text=trim(unesc(x.text)); return in.substr(1)==x.tag; } Xml k; k.tag=in.substr(0,in.find_first_of(" \t\r\n/")); if(!self&&!parseXml(p,k)) return false; x.kids.push_back(k); } }
static const Xml*xmlRoot(Ctx&x){ static Xml root; static int state=0; if(!state){ const char*p=TA_FunctionDescriptionXML(); if(!p) x.fail("TA_FunctionDescriptionXML is null"); state=parseXml(p,root)?1:-1; } if(state<0||root.kids.size()!=1||root.kids[0].tag!="FinancialFunctionGroups") x.fail("TA_FunctionDescriptionXML is not well formed"); return &root.kids[0]; }
static bool numEq(const Str&s,double v){ char*e; double q=strtod(s.c_str(),&e); return *e==0&&!s.empty()&&(q==v||std::fabs(q-v)<=1e-6*std::fabs(v)); }
static bool hasFlag(const Fn&f,const char*s){ return strstr((Str("|")+f.flags+"|").c_str(),(Str("|")+s+"|").c_str())!=nullptr; }
static Case genC13(Rng&r,u64 idx,bool){ Case c; c.sub="meta"; const Fn&f=FNS[idx%NFN]; c.fn=f.name; int m=(int)r.range(1,6); for(int i=0;i<m;i++) c.ops.push_back({r.range(0,5),r.range(0,1000000)}); (void)idx; return c; }
static void xmlFunction(const Fn&f,Ctx&x){ const Xml*root=xmlRoot(x); const Xml*b=nullptr; int cnt=0; for(auto&k:root->kids) if(k.val("Abbreviation")==f.name){ b=&k; cnt++; } if(cnt!=1) x.fail(fmt("the XML describes %s %d times",f.name,cnt)); if((int)root->kids.size()!=NFN) x.fail(fmt("the XML describes %zu functions of %d",root->kids.size(),NFN));
  auto eq=[&](const Str&what,const Str&a,const Str&e){ if(a!=e) x.fail(fmt("XML of %s: %s is \"%s\", expected \"%s\"",f.name,what.c_str(),a.c_str(),e.c_str())); }; eq("CamelCaseName",b->val("CamelCaseName"),f.camel); eq("GroupId",b->val("GroupId"),f.group); eq("ShortDescription",b->val("ShortDescription"),trim(f.hint));
  std::set<Str> fl; if(auto q=b->get("Flags")) for(auto&k:q->kids) fl.insert(k.text); for(const char*n:{"Overlap","Volume","Unstable Period","Candlestick"}) if(fl.count(n)!=(size_t)hasFlag(f,n)) x.fail(fmt("XML of %s: flag %s",f.name,n));
  const Xml*fs=b->get("Functions"); if(!fs||fs->kids.size()!=8) x.fail(fmt("XML of %s: not eight functions",f.name)); static const char*T[][2]={{"_Lookback","Lookback"},{"","Regular"},{"_StateInit","StateInit"},{"_State","State"},{"_BatchState","BatchState"},{"_StateFree","StateFree"},{"_StateLoad","StateLoad"},{"_StateSave","StateSave"}};
  for(auto&t:T){ const Xml*q=nullptr; for(auto&k:fs->kids) if(k.val("Type")==t[1]) q=&k; if(!q) x.fail(fmt("XML of %s: no %s function",f.name,t[1])); eq("the name",q->val("Name"),Str("TA_")+f.name+t[0]); Str ty=t[1]; eq("the return value of "+ty,q->val("ReturnValue"),ty=="Lookback"?"Integer":"TA_Result");
    const Xml*o=q->get("OptionalInputArguments"); bool wo=ty=="Lookback"||ty=="Regular"||ty=="StateInit"; int no=o?(int)o->kids.size():0; if(no!=(wo?f.nOpt:0)) x.fail(fmt("XML of %s: %d optional parameters of %s",f.name,no,t[1]));
    for(int i=0;i<no;i++){ const Xml&a=o->kids[i]; const OptD&d=f.opt[i]; eq("a parameter",a.val("Name"),d.display); eq("the type of a parameter",a.val("Type"),d.type==1?"Double":d.type==2?"MA Type":"Integer"); if(!numEq(a.val("DefaultValue"),d.def)) x.fail(fmt("XML of %s: default of %s is %s, expected %g",f.name,d.name,a.val("DefaultValue").c_str(),d.def)); if(d.type==2) continue; const Xml*g=a.get("Range"); if(!g) x.fail("no range"); if(!numEq(g->val("Minimum"),d.min)||!numEq(g->val("Maximum"),d.max)) x.fail(fmt("XML of %s: %s is from %s to %s, expected %g to %g",f.name,d.name,g->val("Minimum").c_str(),g->val("Maximum").c_str(),d.min,d.max));
      const TA_OptInputParameterInfo*p; if(TA_GetOptInputParameterInfo(handleOf(f,x),i,&p)) x.fail("no parameter info"); double a1,a2,a3; if(d.type==0){ auto r=(const TA_IntegerRange*)p->dataSet; a1=r->suggested_start;a2=r->suggested_end;a3=r->suggested_increment; } else { auto r=(const TA_RealRange*)p->dataSet; a1=r->suggested_start;a2=r->suggested_end;a3=r->suggested_increment; if(!numEq(g->val("Precision"),r->precision)) x.fail("precision"); } if(!numEq(g->val("SuggestedStart"),a1)||!numEq(g->val("SuggestedEnd"),a2)||!numEq(g->val("SuggestedIncrement"),a3)) x.fail(fmt("XML of %s: suggested values of %s are %s to %s by %s, expected %g to %g by %g",f.name,d.name,g->val("SuggestedStart").c_str(),g->val("SuggestedEnd").c_str(),g->val("SuggestedIncrement").c_str(),a1,a2,a3)); }
    std::vector<Str> need; if(ty=="Regular"||ty=="BatchState") need={"startIdx","endIdx"}; if(ty=="Regular"||ty=="State"||ty=="BatchState") for(auto&h:holderInputs(f)) for(int k:h.k) need.push_back(h.price?Str(f.in[k]).substr(2):Str(f.in[k])); const Xml*ri=q->get("RequiredInputArguments"); std::vector<Str> has; if(ri) for(auto&k:ri->kids) has.push_back(k.val("Name")); if(need!=has) x.fail(fmt("XML of %s: the inputs of %s are wrong",f.name,t[1]));
    need.clear(); has.clear(); if(ty=="Regular"||ty=="BatchState") need={"outBegIdx","outNBElement"}; if(ty=="Regular"||ty=="State"||ty=="BatchState") for(int k=0;k<f.nOut;k++) need.push_back(f.out[k].name); if(auto oa=q->get("OutputArguments")) for(auto&k:oa->kids) has.push_back(k.val("Name")); if(need!=has) x.fail(fmt("XML of %s: the outputs of %s are wrong",f.name,t[1])); }
  const TA_FuncInfo*fi; TA_GetFuncInfo(handleOf(f,x),&fi); const Xml*s=b->get("State"); std::vector<Str> has; if(s) for(auto&k:s->kids) has.push_back(k.val("Name")); std::vector<Str> need={"mem_size","mem_index","memory"}; for(unsigned i=0;i<fi->nbStructParams;i++){ const TA_InputParameterInfo*p; if(TA_GetStructParameterInfo(fi->handle,i,&p)) x.fail("TA_GetStructParameterInfo failed"); need.push_back(p->paramName); } if(need!=has) x.fail(fmt("XML of %s: the fields of the state are not those of TA_GetStructParameterInfo",f.name)); }
struct Each { std::map<Str,int> n; const TA_FuncInfo*last=nullptr; };
static void eachCb(const TA_FuncInfo*fi,void*o){ ((Each*)o)->n[fi->name]++; }
static void runC13(const Case&c,Ctx&x){ const Fn&f=*findFn(c.fn); const TA_FuncHandle*hd=handleOf(f,x); const TA_FuncInfo*fi=nullptr; int rc=TA_GetFuncInfo(hd,&fi); if(rc||!fi) x.fail("TA_GetFuncInfo failed");
  auto eq=[&](const char*what,const char*a,const char*e){ if(!a||strcmp(a,e)) x.fail(fmt("TA_FuncInfo of %s: %s is \"%s\", expected \"%s\"",f.name,what,a?a:"(null)",e)); }; eq("name",fi->name,f.name); eq("camelCaseName",fi->camelCaseName,f.camel); eq("group",fi->group,f.group); eq("hint",fi->hint,f.hint); if(fi->handle!=hd) x.fail("the handle of TA_FuncInfo is another one");
  int fl=(hasFlag(f,"Overlap")?TA_FUNC_FLG_OVERLAP:0)|(hasFlag(f,"Volume")?TA_FUNC_FLG_VOLUME:0)|(hasFlag(f,"Unstable Period")?TA_FUNC_FLG_UNST_PER:0)|(hasFlag(f,"Candlestick")?TA_FUNC_FLG_CANDLESTICK:0); if(fi->flags!=fl) x.fail(fmt("TA_FuncInfo of %s: flags are %x, expected %x",f.name,fi->flags,fl)); std::vector<HIn> hin=holderInputs(f); if(fi->nbInput!=hin.size()||(int)fi->nbOptInput!=f.nOpt||(int)fi->nbOutput!=f.nOut) x.fail(fmt("TA_FuncInfo of %s: %u inputs, %u parameters, %u outputs",f.name,fi->nbInput,fi->nbOptInput,fi->nbOutput));
  for(size_t i=0;i<hin.size();i++){ const TA_InputParameterInfo*p=nullptr; if(TA_GetInputParameterInfo(hd,(unsigned)i,&p)||!p) x.fail("TA_GetInputParameterInfo failed"); int w=0; for(int k:hin[i].k) w|=hin[i].price?priceFlag(f.in[k]):0; if(p->type!=(hin[i].price?TA_Input_Price:TA_Input_Real)||p->flags!=w) x.fail(fmt("input %zu of %s: type %d flags %x, expected flags %x",i,f.name,p->type,p->flags,w)); if(!hin[i].price) eq("an input",p->paramName,f.in[hin[i].k[0]]); }
  for(int i=0;i<f.nOpt;i++){ const OptD&d=f.opt[i]; const TA_OptInputParameterInfo*p=nullptr; if(TA_GetOptInputParameterInfo(hd,i,&p)||!p) x.fail("TA_GetOptInputParameterInfo failed"); eq("a parameter",p->paramName,d.name); eq("a parameter's display name",p->displayName,d.display); int ty=d.type==1?TA_OptInput_RealRange:d.type==2?TA_OptInput_IntegerList:TA_OptInput_IntegerRange; if(p->type!=ty) x.fail(fmt("the type of %s of %s is %d",d.name,f.name,p->type)); if(p->defaultValue!=d.def) x.fail(fmt("the default of %s of %s is %g, expected %g",d.name,f.name,p->defaultValue,d.def)); if(!p->hint||!*p->hint||!p->dataSet) x.fail("no hint or data set");
    if(d.type==0){ auto r=(const TA_IntegerRange*)p->dataSet; if(r->min!=(int)d.min||r->max!=(int)d.max) x.fail(fmt("%s of %s is from %d to %d, expected %g to %g",d.name,f.name,r->min,r->max,d.min,d.max)); if(r->suggested_start<r->min||r->suggested_end>r->max||r->suggested_start>r->suggested_end||r->suggested_increment<1) x.fail(fmt("suggested values of %s of %s",d.name,f.name)); } else if(d.type==1){ auto r=(const TA_RealRange*)p->dataSet; if(r->min!=d.min||r->max!=d.max) x.fail(fmt("%s of %s is from %g to %g, expected %g to %g",d.name,f.name,r->min,r->max,d.min,d.max)); if(r->suggested_start<r->min||r->suggested_end>r->max||r->suggested_start>r->suggested_end) x.fail(fmt("suggested values of %s of %s",d.name,f.name)); }
    else { static const char*M[]={"SMA","EMA","WMA","DEMA","TEMA","TRIMA","KAMA","MAMA","T3","WLMA"}; auto r=(const TA_IntegerList*)p->dataSet; if((int)r->nbElement!=(int)d.max+1) x.fail(fmt("%u types of moving averages",r->nbElement)); for(unsigned q=0;q<r->nbElement;q++) if(r->data[q].value!=(int)q||!r->data[q].string||strcmp(r->data[q].string,M[q])) x.fail(fmt("moving average type %u is %d \"%s\"",q,r->data[q].value,r->data[q].string)); } }
  for(int i=0;i<f.nOut;i++){ const TA_OutputParameterInfo*p=nullptr; if(TA_GetOutputParameterInfo(hd,i,&p)||!p) x.fail("TA_GetOutputParameterInfo failed"); eq("an output",p->paramName,f.out[i].name); if(p->type!=(f.out[i].isInt?TA_Output_Integer:TA_Output_Real)) x.fail(fmt("the type of output %d of %s",i,f.name)); bool up=strstr(f.out[i].name,"Upper")!=nullptr,dn=strstr(f.out[i].name,"Lower")!=nullptr; if(((p->flags&TA_OUT_UPPER_LIMIT)!=0)!=up||((p->flags&TA_OUT_LOWER_LIMIT)!=0)!=dn) x.fail(fmt("limit flags %x of output %s of %s",p->flags,f.out[i].name,f.name)); if(!p->flags) x.fail(fmt("no flags of output %s of %s",f.out[i].name,f.name)); }
  xmlFunction(f,x);
  for(auto&op:c.ops){ if(op.size()<2) continue; Rng r((u64)op[1]); switch(op[0]){
    case 0: { Str nm=FNS[r.range(0,NFN-1)].name; for(int k=(int)r.range(0,2);k>0;k--){ int w=(int)r.range(0,5); size_t at=nm.empty()?0:r.range(0,nm.size()-1); if(w==0&&!nm.empty()) nm[at]=(char)tolower(nm[at]); else if(w==1&&!nm.empty()) nm.erase(at,1); else if(w==2) nm.insert(at,1,(char)r.range(33,126)); else if(w==3) nm+=FNS[r.range(0,NFN-1)].name; else if(w==4) nm=nm.substr(0,at); else nm=Str(1,(char)r.range(1,255))+nm; } const Fn*e=findFn(nm); const TA_FuncHandle*h=(const TA_FuncHandle*)&nm; rc=TA_GetFuncHandle(nm.c_str(),&h); int w=e?TA_SUCCESS:nm.empty()?TA_BAD_PARAM:TA_FUNC_NOT_FOUND; if(rc!=w) x.fail(fmt("TA_GetFuncHandle(\"%s\") returned %d, expected %d",nm.c_str(),rc,w)); if(!e&&h) x.fail("a handle without a function"); if(e){ const TA_FuncInfo*q; if(TA_GetFuncInfo(h,&q)||strcmp(q->name,e->name)) x.fail(fmt("TA_GetFuncHandle(\"%s\") gives another function",nm.c_str())); } break; }
    case 1: { Str g=FNS[r.range(0,NFN-1)].group; bool mut=r.chance(0.4); if(mut){ size_t at=r.range(0,g.size()-1); if(r.chance(0.5)) g.erase(at,1); else g[at]=(char)(g[at]^32); } std::map<Str,int> want; for(int i=0;i<NFN;i++) if(g==FNS[i].group) want[FNS[i].name]++; long live=g_live; TA_StringTable*t=nullptr; rc=TA_FuncTableAlloc(g.c_str(),&t); if(want.empty()){ if(rc!=TA_GROUP_NOT_FOUND||t) x.fail(fmt("TA_FuncTableAlloc(\"%s\") returned %d",g.c_str(),rc)); } else { if(rc||!t) x.fail(fmt("TA_FuncTableAlloc(\"%s\") returned %d",g.c_str(),rc)); std::map<Str,int> has; for(unsigned i=0;i<t->size;i++) has[t->string[i]]++; if(TA_GroupTableFree(t)!=TA_BAD_OBJECT) x.fail("TA_GroupTableFree frees a table of functions"); TA_FuncTableFree(t); if(has!=want) x.fail(fmt("the functions of the group \"%s\" are wrong",g.c_str())); } if(g_live!=live) x.fail("TA_FuncTableFree leaks"); break; }
    case 2: { std::map<Str,int> want,has; for(int i=0;i<NFN;i++) want[FNS[i].group]=1; long live=g_live; TA_StringTable*t=nullptr; if(TA_GroupTableAlloc(&t)||!t) x.fail("TA_GroupTableAlloc failed"); for(unsigned i=0;i<t->size;i++) has[t->string[i]]++; if(TA_FuncTableFree(t)!=TA_BAD_OBJECT) x.fail("TA_FuncTableFree frees a table of groups"); TA_GroupTableFree(t); if(g_live!=live) x.fail("TA_GroupTableFree leaks"); if(has!=want) x.fail("the table of groups is wrong"); break; }
    case 3: { Each e; if(TA_ForEachFunc(eachCb,&e)) x.fail("TA_ForEachFunc failed"); if((int)e.n.size()!=NFN) x.fail(fmt("TA_ForEachFunc visits %zu functions of %d",e.n.size(),NFN)); for(auto&q:e.n) if(q.second!=1||!findFn(q.first)) x.fail(fmt("TA_ForEachFunc visits %s %d times",q.first.c_str(),q.second)); break; }
    case 4: { unsigned i=(unsigned)(r.chance(0.7)?r.range(0,8):r.range(0,0xffffffffL)); const TA_InputParameterInfo*a=(const TA_InputParameterInfo*)&i; const TA_OptInputParameterInfo*b=(const TA_OptInputParameterInfo*)&i; const TA_OutputParameterInfo*o=(const TA_OutputParameterInfo*)&i; const TA_InputParameterInfo*q=a; int r1=TA_GetInputParameterInfo(hd,i,&a),r2=TA_GetOptInputParameterInfo(hd,i,&b),r3=TA_GetOutputParameterInfo(hd,i,&o),r4=TA_GetStructParameterInfo(hd,i,&q); auto chk=[&](int rc,bool ok,const void*p,const char*w){ if(rc!=(ok?TA_SUCCESS:TA_BAD_PARAM)||(p!=nullptr)!=ok) x.fail(fmt("%s of %s with index %u returned %d",w,f.name,i,rc)); }; chk(r1,i<fi->nbInput,a,"TA_GetInputParameterInfo"); chk(r2,i<fi->nbOptInput,b,"TA_GetOptInputParameterInfo"); chk(r3,i<fi->nbOutput,o,"TA_GetOutputParameterInfo"); chk(r4,i<fi->nbStructParams,q,"TA_GetStructParameterInfo"); break; }
    case 5: { alignas(16) char junk[256]; for(char&q:junk) q=(char)r.next(); junk[0]=0; const TA_FuncHandle*h=(const TA_FuncHandle*)junk; const TA_FuncInfo*q; const TA_InputParameterInfo*a; const TA_OptInputParameterInfo*b; const TA_OutputParameterInfo*o; TA_ParamHolder*ph; if(TA_GetFuncInfo(h,&q)!=TA_INVALID_HANDLE||TA_GetInputParameterInfo(h,0,&a)!=TA_INVALID_HANDLE||TA_GetOptInputParameterInfo(h,0,&b)!=TA_INVALID_HANDLE||TA_GetOutputParameterInfo(h,0,&o)!=TA_INVALID_HANDLE||TA_GetStructParameterInfo(h,0,&a)!=TA_INVALID_HANDLE||TA_ParamHolderAlloc(h,&ph)!=TA_INVALID_HANDLE) x.fail("an invalid handle is accepted");
      if(TA_GetFuncInfo(nullptr,&q)!=TA_BAD_PARAM||TA_GetFuncInfo(hd,nullptr)!=TA_BAD_PARAM||TA_GetInputParameterInfo(nullptr,0,&a)!=TA_BAD_PARAM||TA_GetInputParameterInfo(hd,0,nullptr)!=TA_BAD_PARAM||TA_GetOptInputParameterInfo(nullptr,0,&b)!=TA_BAD_PARAM||TA_GetOptInputParameterInfo(hd,0,nullptr)!=TA_BAD_PARAM||TA_GetOutputParameterInfo(nullptr,0,&o)!=TA_BAD_PARAM||TA_GetOutputParameterInfo(hd,0,nullptr)!=TA_BAD_PARAM||TA_GetFuncHandle(nullptr,&h)!=TA_BAD_PARAM||TA_GetFuncHandle(f.name,nullptr)!=TA_BAD_PARAM||TA_ForEachFunc(nullptr,nullptr)!=TA_BAD_PARAM||TA_GroupTableAlloc(nullptr)!=TA_BAD_PARAM||TA_FuncTableAlloc(nullptr,nullptr)!=TA_BAD_PARAM||TA_FuncTableAlloc(f.group,nullptr)!=TA_BAD_PARAM) x.fail("a null argument is accepted"); if(TA_GroupTableFree(nullptr)||TA_FuncTableFree(nullptr)||TA_ParamHolderFree(nullptr)) x.fail("freeing nothing fails"); break; } } }
  x.nontrivial=!c.ops.empty(); x.tag(f.group); }
static Reg r13({"C13","a case is one function, whose description is compared with the documented interface and the XML, and one to six lookups by exact, mutated or invalid names, groups, indexes and handles; non-trivial: at least one lookup",100000,500000,genC13,runC13,nullptr});
// ---------------------------------------------------------------- C14 protocol of the parameter holder
// ops: {kind, holder, a, b}
static Case genC14(Rng&r,u64 idx,bool th){ Case c; c.sub="protocol"; const Fn&f=FNS[idx%NFN]; c.fn=f.name; c.p["f2"]=r.chance(0.3)?(double)(idx%NFN):(double)r.range(0,NFN-1); c.p["seed"]=(double)r.range(1,1000000); c.p["n"]=r.range(1,60); int m=(int)r.range(4,th?60:30); bool eager=r.chance(0.7); if(eager) for(int h=0;h<2;h++) for(int i=0;i<4;i++){ if(r.chance(0.95)) c.ops.push_back({0,h,i,r.range(0,50)*4}); if(r.chance(0.95)) c.ops.push_back({4,h,i,r.range(0,50)*4}); }
  for(int i=0;i<m;i++) c.ops.push_back({r.range(0,14),r.range(0,1),r.range(0,5),r.range(0,1000)}); return c; }
struct Mir { const Fn*f; const TA_FuncHandle*hd; HG g; std::vector<HIn> hin; const double*ptr[4]={}; std::vector<bool> inSet,outSet; Vec o; Vec A[3],B[3]; std::vector<int> Ai[3],Bi[3]; void*bp[3]; void*st=nullptr; ~Mir(){ if(st) f->free_(&st); } };
static void runC14(const Case&c,Ctx&x){ int n=std::max(1,(int)c.P("n")); const Fn*F[2]={findFn(c.fn),&FNS[(int)c.P("f2")%NFN]}; Rng dr((u64)c.P("seed")); long live=g_live; int calls=0,refused=0; std::vector<Vec> data[3]; { std::vector<Vec> alld[2][3]; Mir M[2];
  for(int h=0;h<2;h++){ Mir&m=M[h]; m.f=F[h]; for(int v=0;v<3;v++) genInputs(dr,*m.f,n,alld[h][v]); m.hd=handleOf(*m.f,x); if(TA_ParamHolderAlloc(m.hd,&m.g.h)) x.fail("TA_ParamHolderAlloc failed"); m.hin=holderInputs(*m.f); m.inSet.assign(m.hin.size(),false); m.outSet.assign(m.f->nOut,false); for(int i=0;i<m.f->nOpt;i++) m.o.push_back(m.f->opt[i].def); for(int k=0;k<m.f->nOut;k++){ m.A[k].assign(n+1,0); m.B[k]=m.A[k]; m.Ai[k].assign(n+1,0); m.Bi[k]=m.Ai[k]; m.bp[k]=nullptr; } }
  for(size_t q=0;q<c.ops.size();q++){ auto op=c.ops[q]; op.resize(4); Mir&m=M[op[1]&1]; const Fn&f=*m.f; TA_ParamHolder*h=m.g.h; long a=op[2],b=op[3]; int rc=0,want=0; const char*what="";
    bool allIn=std::all_of(m.inSet.begin(),m.inSet.end(),[](bool z){return z;}),allOut=std::all_of(m.outSet.begin(),m.outSet.end(),[](bool z){return z;}); const void*vp[4]; for(int k=0;k<f.nIn;k++) vp[k]=m.ptr[k];
    auto cmp=[&](){ for(int k=0;k<f.nOut;k++) for(int j=0;j<=n;j++) if(!biteq(m.A[k][j],m.B[k][j])||m.Ai[k][j]!=m.Bi[k][j]) x.fail(fmt("step %zu: %s of TA_%s gives other outputs than the direct call",q,what,f.name)); };
    switch(op[0]){
    case 0: case 1: { int var=(int)(b%3); std::vector<Vec>&d=alld[op[1]&1][var]; const double*np[4]; for(int k=0;k<f.nIn;k++) np[k]=d[k].data(); bool wrong=b/4%8==7; bool ok=a<(long)m.hin.size(); if(ok){ HIn&hi=m.hin[a]; if(wrong){ what="setting an input of the wrong type"; want=TA_INVALID_PARAM_HOLDER_TYPE; int dummy=0; if(b&1) rc=TA_SetInputParamIntegerPtr(h,(unsigned)a,&dummy); else if(hi.price) rc=TA_SetInputParamRealPtr(h,(unsigned)a,np[0]); else rc=TA_SetInputParamPricePtr(h,(unsigned)a,np[0],np[0],np[0],np[0],np[0],np[0]); } else { what="setting an input"; rc=setHolderIn(f,h,(int)a,hi,np,0,b%5==0?np[0]:nullptr); for(int k:hi.k) m.ptr[k]=np[k]; m.inSet[a]=true; } } else { what="setting an input that does not exist"; want=TA_BAD_PARAM; unsigned ix=b%7==0?0xffffffffu:(unsigned)a; int dummy=0; rc=b%3==0?TA_SetInputParamRealPtr(h,ix,np[0]):b%3==1?TA_SetInputParamPricePtr(h,ix,np[0],np[0],np[0],np[0],np[0],np[0]):TA_SetInputParamIntegerPtr(h,ix,&dummy); } break; }
    case 2: { what="setting an input to null"; want=TA_BAD_PARAM; a%=m.hin.size(); if(m.hin[a].price){ if(m.inSet[a]){ int miss=priceFlag(f.in[m.hin[a].k[b%m.hin[a].k.size()]]); rc=setHolderIn(f,h,(int)a,m.hin[a],m.ptr,miss); } else rc=TA_SetInputParamPricePtr(h,(unsigned)a,nullptr,nullptr,nullptr,nullptr,nullptr,nullptr); } else rc=TA_SetInputParamRealPtr(h,(unsigned)a,nullptr); break; }
    case 3: { Rng r((u64)b*977+q); if(a<f.nOpt){ const OptD&d=f.opt[a]; if(b%8==7){ what="setting a parameter of the wrong type"; want=TA_INVALID_PARAM_HOLDER_TYPE; rc=d.type==1?TA_SetOptInputParamInteger(h,(unsigned)a,2):TA_SetOptInputParamReal(h,(unsigned)a,2.0); } else { what="setting a parameter"; double v=b%9==0?badOpt(r,d):d.type==1?std::max(d.min,std::min(d.max,r.real(0,2))):d.type==2?(double)r.range(0,9):(double)r.range((long)d.min,(long)std::min(d.max,d.min+12)); rc=setHolderOpt(f,h,(int)a,v); m.o[a]=v; } } else { what="setting a parameter that does not exist"; want=TA_BAD_PARAM; rc=b&1?TA_SetOptInputParamInteger(h,(unsigned)a,3):TA_SetOptInputParamReal(h,(unsigned)a,3); } break; }
    case 4: case 5: { if(a<f.nOut){ bool is=f.out[a].isInt; if(b%8==7){ what="setting an output of the wrong type"; want=TA_INVALID_PARAM_HOLDER_TYPE; rc=is?TA_SetOutputParamRealPtr(h,(unsigned)a,m.A[a].data()):TA_SetOutputParamIntegerPtr(h,(unsigned)a,m.Ai[a].data()); } else if(b%8==6){ what="setting an output to null"; want=TA_BAD_PARAM; rc=is?TA_SetOutputParamIntegerPtr(h,(unsigned)a,nullptr):TA_SetOutputParamRealPtr(h,(unsigned)a,nullptr); } else { what="setting an output"; int off=(int)(b&1); if(is){ rc=TA_SetOutputParamIntegerPtr(h,(unsigned)a,m.Ai[a].data()+off); m.bp[a]=m.Bi[a].data()+off; } else { rc=TA_SetOutputParamRealPtr(h,(unsigned)a,m.A[a].data()+off); m.bp[a]=m.B[a].data()+off; } m.outSet[a]=true; } } else { what="setting an output that does not exist"; want=TA_BAD_PARAM; rc=b&1?TA_SetOutputParamIntegerPtr(h,(unsigned)a,m.Ai[0].data()):TA_SetOutputParamRealPtr(h,(unsigned)a,m.A[0].data()); } break; }
    case 6: { what="TA_GetLookback"; int l=-77; rc=TA_GetLookback(h,&l); int e=f.lookback(m.o.data()); if(l!=e) x.fail(fmt("step %zu: TA_GetLookback of TA_%s is %d, direct %d",q,f.name,l,e)); if(TA_GetLookback(h,nullptr)!=TA_BAD_PARAM||TA_GetLookback(nullptr,&l)!=TA_BAD_PARAM) x.fail("TA_GetLookback accepts null"); break; }
    case 7: case 8: { what="TA_CallFunc"; int s=(int)(a%n)-(b%20==0),e=(int)(b%(n+2))-1; if(e>=n) e=n-1; if(b%20!=1&&e<s) e=s<0?0:s; int b1=-3,n1=-3,b2=-3,n2=-3; rc=TA_CallFunc(h,s,e,&b1,&n1); if(!allIn) want=TA_INPUT_NOT_ALL_INITIALIZE; else if(!allOut) want=TA_OUTPUT_NOT_ALL_INITIALIZE; else { want=f.batch(s,e,vp,m.o.data(),&b2,&n2,m.bp); calls+=want==0; } if(b1!=b2||n1!=n2) x.fail(fmt("step %zu: TA_CallFunc of TA_%s gives %d values from %d, expected %d from %d",q,f.name,n1,b1,n2,b2)); if(TA_CallFunc(h,s,e,nullptr,&n1)!=TA_BAD_PARAM||TA_CallFunc(h,s,e,&b1,nullptr)!=TA_BAD_PARAM||TA_CallFunc(nullptr,s,e,&b1,&n1)!=TA_BAD_PARAM) x.fail("TA_CallFunc accepts null"); cmp(); break; }
    case 9: { what="TA_InitNewState"; if(m.st) { rc=TA_FreeState(h); want=f.free_(&m.st); if(rc!=want) break; } rc=TA_InitNewState(h); want=f.init(&m.st,m.o.data()); break; }
    case 10: { what="TA_CallFuncState"; rc=TA_CallFuncState(h); if(!allIn) want=TA_INPUT_NOT_ALL_INITIALIZE; else if(!allOut) want=TA_OUTPUT_NOT_ALL_INITIALIZE; else { double v[4]; for(int k=0;k<f.nIn;k++) v[k]=*m.ptr[k]; want=f.step(m.st,v,m.bp); calls+=want==0||want==NMD; } cmp(); break; }
    case 11: { what="TA_CallFuncBatchState"; int s=(int)(a%n),e=std::min(n-1,s+(int)(b%n)); int b1=-3,n1=-3,b2=-3,n2=-3; rc=TA_CallFuncBatchState(h,s,e,&b1,&n1); if(!allIn) want=TA_INPUT_NOT_ALL_INITIALIZE; else if(!allOut) want=TA_OUTPUT_NOT_ALL_INITIALIZE; else { want=f.bstate(m.st,s,e,vp,&b2,&n2,m.bp); calls+=want==0||want==NMD; } if(b1!=b2||n1!=n2) x.fail(fmt("step %zu: TA_CallFuncBatchState of TA_%s gives another range",q,f.name)); if(TA_CallFuncBatchState(h,s,e,nullptr,&n1)!=TA_BAD_PARAM||TA_CallFuncBatchState(h,s,e,&b1,nullptr)!=TA_BAD_PARAM||TA_CallFuncBatchState(nullptr,s,e,&b1,&n1)!=TA_BAD_PARAM) x.fail("TA_CallFuncBatchState accepts null"); cmp(); break; }
    case 12: { what="TA_FreeState"; rc=TA_FreeState(h); want=f.free_(&m.st); void*p=&p; TA_GetParamStatePtr(h,&p); if(p) x.fail("TA_FreeState leaves the state"); break; }
    case 13: { what="TA_SaveState and TA_LoadState"; MemFile w1,w2; w1.openWrite(); rc=TA_SaveState(h,w1.f); w1.close(); w2.openWrite(); want=f.save(m.st,w2.f); w2.close(); if(rc!=want) break; if(rc==0){ if(m.st){ MemFile r0; r0.openRead(w1.buf); if(TA_LoadState(h,r0.f)==0) x.fail("TA_LoadState overwrites a state"); TA_FreeState(h); f.free_(&m.st); } MemFile r1,r2; r1.openRead(w1.buf); rc=TA_LoadState(h,r1.f); r2.openRead(w2.buf); want=f.load(&m.st,r2.f); } break; }
    case 14: { what="an invalid holder"; char priv[512]; memset(priv,(int)(b&0x7f),sizeof priv); TA_ParamHolder bad; bad.hiddenData=priv; int i1; double r1=0; TA_StateFunc sf; void*p; MemFile mf; mf.openWrite(); int w=TA_INVALID_PARAM_HOLDER; if(TA_SetInputParamIntegerPtr(&bad,0,&i1)!=w||TA_SetInputParamRealPtr(&bad,0,&r1)!=w||TA_SetInputParamPricePtr(&bad,0,&r1,&r1,&r1,&r1,&r1,&r1)!=w||TA_SetOptInputParamInteger(&bad,0,1)!=w||TA_SetOptInputParamReal(&bad,0,1)!=w||TA_SetOutputParamIntegerPtr(&bad,0,&i1)!=w||TA_SetOutputParamRealPtr(&bad,0,&r1)!=w||TA_GetLookback(&bad,&i1)!=w||TA_CallFunc(&bad,0,0,&i1,&i1)!=w||TA_InitNewState(&bad)!=w||TA_CallFuncState(&bad)!=w||TA_CallFuncBatchState(&bad,0,0,&i1,&i1)!=w||TA_FreeState(&bad)!=w||TA_SaveState(&bad,mf.f)!=w||TA_LoadState(&bad,mf.f)!=w||TA_GetParamStatePtr(&bad,&p)!=w||TA_SetParamStatePtr(&bad,nullptr)!=w||TA_ParamHolderFree(&bad)!=w) x.fail("an invalid holder is accepted"); mf.close();
      w=TA_BAD_PARAM; if(TA_SetInputParamIntegerPtr(nullptr,0,&i1)!=w||TA_SetInputParamRealPtr(nullptr,0,&r1)!=w||TA_SetInputParamPricePtr(nullptr,0,&r1,&r1,&r1,&r1,&r1,&r1)!=w||TA_SetOptInputParamInteger(nullptr,0,1)!=w||TA_SetOptInputParamReal(nullptr,0,1)!=w||TA_SetOutputParamIntegerPtr(nullptr,0,&i1)!=w||TA_SetOutputParamRealPtr(nullptr,0,&r1)!=w||TA_InitNewState(nullptr)!=w||TA_CallFuncState(nullptr)!=w||TA_FreeState(nullptr)!=w||TA_SaveState(nullptr,nullptr)!=w||TA_LoadState(nullptr,nullptr)!=w||TA_GetParamStatePtr(nullptr,&p)!=w||TA_GetParamStatePtr(h,nullptr)!=w||TA_SetParamStatePtr(nullptr,nullptr)!=w||TA_ParamHolderAlloc(nullptr,&m.g.h)!=w||TA_ParamHolderAlloc(m.hd,nullptr)!=w||TA_GetInitNewStateFuncPtr(nullptr,nullptr)!=w) x.fail("a null holder is accepted"); if(TA_GetInitNewStateFuncPtr(nullptr,&sf)!=TA_INVALID_HANDLE) x.fail("null function info is accepted"); break; } }
    if(rc!=want) x.fail(fmt("step %zu: %s of TA_%s (index %ld) returned %d, expected %d",q,what,f.name,a,rc,want)); if(want&&want!=NMD) refused++; void*p=&p; TA_GetParamStatePtr(h,&p); if((p!=nullptr)!=(m.st!=nullptr)) x.fail(fmt("step %zu: %s: the holder has %s state",q,what,p?"a":"no")); }
  for(auto&m:M){ int rc=TA_FreeState(m.g.h); if(m.st&&rc) x.fail("TA_FreeState failed"); rc=TA_ParamHolderFree(m.g.h); m.g.h=nullptr; if(rc) x.fail(fmt("TA_ParamHolderFree returned %d",rc)); } }
  if(g_live!=live) x.fail(fmt("%ld allocations are not freed",g_live-live)); x.nontrivial=calls>0&&refused>0; x.tag(calls?"called":"not called"); x.tag(refused?"refused":"nothing refused"); }
static Reg r14({"C14","a case is a sequence of calls on two parameter holders that set, leave out, wrongly set and use inputs, parameters, outputs and states, checked against a model of the holder; non-trivial: a function was called and a call was refused",300000,1500000,genC14,runC14,nullptr,420,3000,{},true});
