// Allocation failures (C16).
#include "stream.h"
extern "C" {
#include "ta_abstract.h"
}
// p op: 0 batch 1 single precision 2 StateInit 3 StateLoad 4 state and chunk calls, save 5 abstract objects
static Case genC16(Rng&r,u64 idx,bool th){ const Fn&f=pickFn(r,idx); Case c; c.fn=f.name; c.sub="alloc"; genEnv(r,f,c,0.25,0.15,0.2); applyEnv(c); c.o=genOpts(r,f,80); int lb=f.lookback(c.o.data()); genInputs(r,f,std::max(1,lb+(int)r.range(-1,th?40:20)),c.in); c.p["op"]=r.range(0,5); c.p["s"]=r.chance(0.6)?0:r.range(0,c.n()-1); c.p["alias"]=r.chance(0.3)?1:0; return c; }
static void runC16(const Case&c,Ctx&x){ const Fn&f=*findFn(c.fn); int n=c.n(); if(n<1) return; int op=(int)c.P("op"),s=std::max(0,std::min(n-1,(int)c.P("s"))); Str what; long tried=0; static const char*names[]={"TA_%s","TA_S_%s","TA_%s_StateInit","TA_%s_StateLoad","TA_%s_State and BatchState","the abstract interface to TA_%s"}; Str w=fmt(names[op],f.name);
  const void*ip[4]; std::vector<std::vector<float>> fl; std::vector<Vec> R(3); std::vector<std::vector<int>> I(3); std::vector<Vec> copy; void*opn[3];
  auto batch=[&](Bat&B)->int{ copy=c.in; fl.clear(); if(op==1) for(auto&v:c.in) fl.emplace_back(v.begin(),v.end()); for(int k=0;k<f.nIn;k++) ip[k]=op==1?(const void*)fl[k].data():copy[k].data(); for(int k=0;k<f.nOut;k++){ R[k].assign(n,0); I[k].assign(n,0); opn[k]=f.out[k].isInt?(void*)I[k].data():(void*)R[k].data(); if(c.P("alias")!=0&&op==0&&!f.out[k].isInt&&k<f.nIn&&Str(f.in[k])!="inPeriods") opn[k]=copy[k].data(); } B.b=B.nb=0; int rc=(op==1?f.sbatch:f.batch)(s,n-1,ip,c.o.data(),&B.b,&B.nb,opn); if(!rc) for(int k=0;k<f.nOut;k++){ B.r[k].clear(); B.ii[k].clear(); for(int j=0;j<B.nb;j++) if(f.out[k].isInt) B.ii[k].push_back(I[k][j]); else B.r[k].push_back(((double*)opn[k])[j]); } return rc; };
  auto same=[&](const Bat&A,const Bat&B){ if(A.b!=B.b||A.nb!=B.nb) return false; for(int k=0;k<f.nOut;k++){ if(A.ii[k]!=B.ii[k]||A.r[k].size()!=B.r[k].size()) return false; for(size_t j=0;j<A.r[k].size();j++) if(!biteq(A.r[k][j],B.r[k][j])) return false; } return true; };
  auto arm=[&](long k){ g_allocCount=0; g_failAt=k; }; auto disarm=[&]{ long hit=g_failAt&&g_allocCount>=g_failAt; g_failAt=0; return hit; };
  long live=g_live; std::vector<char> file; if(op==3){ StateGuard g(f); if(f.init(&g.st,c.o.data())) x.fail("StateInit failed"); for(int i=0;i<n;i++) doStep(f,g.st,c,i); MemFile m; m.openWrite(); if(f.save(g.st,m.f)) x.fail("StateSave failed"); m.close(); file=m.buf; }
  long total=0; Bat A; if(op<=1){ arm(0); int rc=batch(A); total=g_allocCount; if(rc) x.fail(fmt("%s returned %d",w.c_str(),rc)); if(g_live!=live) x.fail(w+" leaks"); }
  else if(op==2){ void*st=nullptr; arm(0); f.init(&st,c.o.data()); total=g_allocCount; f.free_(&st); } else if(op==3){ void*st=nullptr; MemFile q; q.openRead(file); arm(0); f.load(&st,q.f); total=g_allocCount; f.free_(&st); }
  else if(op==4){ total=1; } else total=8;
  for(long k=1;k<=total&&k<=40;k++){ tried++;
    if(op<=1){ Bat B; arm(k); int rc=batch(B); disarm(); if(rc!=TA_ALLOC_ERR) x.fail(fmt("%s returned %d when its allocation %ld of %ld fails",w.c_str(),rc,k,total)); if(g_live!=live) x.fail(fmt("%s leaks %ld allocations when its allocation %ld of %ld fails",w.c_str(),g_live-live,k,total)); rc=batch(B); if(rc||!same(A,B)) x.fail(fmt("%s gives other values after a failed call",w.c_str())); }
    else if(op==2||op==3){ void*st=nullptr; MemFile q; if(op==3) q.openRead(file); arm(k); int rc=op==2?f.init(&st,c.o.data()):f.load(&st,q.f); disarm(); if(rc!=TA_ALLOC_ERR) x.fail(fmt("%s returned %d when its allocation %ld of %ld fails",w.c_str(),rc,k,total)); f.free_(&st); if(st) x.fail(fmt("TA_%s_StateFree leaves the pointer",f.name)); if(g_live!=live) x.fail(fmt("%s leaves %ld allocations that TA_%s_StateFree does not free, when its allocation %ld of %ld fails",w.c_str(),g_live-live,f.name,k,total)); }
    else if(op==4){ tried--; StateGuard a(f),b(f); if(f.init(&a.st,c.o.data())||f.init(&b.st,c.o.data())) x.fail("StateInit failed"); for(int i=0;i<n;i++){ arm(1); StepOut t=doStep(f,a.st,c,i); if(disarm()) { x.fail(w+" allocates"); } StepOut u=doStep(f,b.st,c,i); Str why; if(!sameStep(f,t,u,&why)) x.fail(w+" is not repeatable"); } tried++; }
    else { const TA_FuncHandle*h; TA_GetFuncHandle(f.name,&h); TA_ParamHolder*p=(TA_ParamHolder*)&h; arm(k); int rc=TA_ParamHolderAlloc(h,&p); bool hit=disarm(); if(hit){ if(rc!=TA_ALLOC_ERR||p) x.fail(fmt("TA_ParamHolderAlloc of %s returned %d when its allocation %ld fails",f.name,rc,k)); } else { if(rc) x.fail("TA_ParamHolderAlloc failed"); arm(1); rc=TA_InitNewState(p); hit=disarm(); if(hit&&rc!=TA_ALLOC_ERR) x.fail(fmt("TA_InitNewState of %s returned %d when an allocation fails",f.name,rc)); TA_FreeState(p); TA_ParamHolderFree(p); }
      TA_StringTable*t=(TA_StringTable*)&h; arm(k); rc=TA_FuncTableAlloc(f.group,&t); hit=disarm(); if(hit){ if(rc!=TA_ALLOC_ERR||t) x.fail(fmt("TA_FuncTableAlloc returned %d when its allocation %ld fails",rc,k)); } else { if(rc) x.fail("TA_FuncTableAlloc failed"); TA_FuncTableFree(t); }
      t=(TA_StringTable*)&h; arm(k); rc=TA_GroupTableAlloc(&t); hit=disarm(); if(hit){ if(rc!=TA_ALLOC_ERR||t) x.fail(fmt("TA_GroupTableAlloc returned %d when its allocation fails",rc)); } else { if(rc) x.fail("TA_GroupTableAlloc failed"); TA_GroupTableFree(t); } if(g_live!=live) x.fail(fmt("the abstract interface leaks when allocation %ld fails",k)); } }
  x.nontrivial=tried>0; x.tag(tried?w.substr(0,4)+fmt(" op %d",op):"no allocations"); }
static Reg r16({"C16","a case is one function and one kind of call, repeated with each of its allocations failing (up to 40); non-trivial: at least one allocation was made to fail",600000,2000000,genC16,runC16,fixN});
