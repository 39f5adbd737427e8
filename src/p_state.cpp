// Properties over the streaming states: chunked feeding, save/restore, independence and life cycle, I/O faults.
#include "stream.h"
static StepOut none(){ StepOut s; memset(&s,0,sizeof s); return s; }
static Str tagKind(const Fn&f){ return f.candle?"candle":Str(f.group); }
// ---------------------------------------------------------------- C02: any mix of chunked and single-bar feeding
static Case genChunk(Rng&r,u64 idx,bool th){ Case c=genStreamCase(r,idx,th?120:50); c.sub="chunk"; int n=c.n();
  int style=(int)r.range(0,3); long left=n; while(left>0){ long k= style==0?r.range(1,3): style==1?r.range(1,n): style==2?r.range(0,12):1+r.range(0,left); if(k>left) k=left; long mode=r.chance(0.3)?1:0; if(k==0) mode=0; c.ops.push_back({k,mode,r.chance(0.3)?1:0}); left-=k; if(c.ops.size()>400) break; }
  return c; }
// op: {length, mode 0=BatchState 1=State, 1=the chunk's bars are copied to their own arrays}
static void runChunk(const Case&c,Ctx&x){ const Fn&f=*findFn(c.fn); int n=c.n(); StateGuard a(f),b(f);
  if(f.init(&a.st,c.o.data())||f.init(&b.st,c.o.data())) x.fail("StateInit failed");
  int i=0; bool batch=false,value=false; Str why;
  for(auto&op:c.ops){ if(op.size()<3) continue; int k=(int)std::min<long>(std::max<long>(0,op[0]),n-i);
    if(op[1]==1){ for(int j=0;j<k;j++,i++){ StepOut s=doStep(f,a.st,c,i),t=doStep(f,b.st,c,i); if(!sameStep(f,s,t,&why)) x.fail(fmt("bar %d, single step after chunks: ",i)+why); } continue; }
    std::vector<StepOut> ex; for(int j=0;j<k;j++) ex.push_back(doStep(f,a.st,c,i+j));
    std::vector<Vec> own; const void*ip[4]; int s0=i; bool copy=op[2]==1; if(copy) s0=0;
    for(int q=0;q<f.nIn;q++){ if(copy) own.push_back(Vec(c.in[q].begin()+i,c.in[q].begin()+i+k)); }
    double dummy=0; for(int q=0;q<f.nIn;q++) ip[q]=copy?(own[q].empty()?(const void*)&dummy:(const void*)own[q].data()):(const void*)c.in[q].data();
    Vec o[3]; std::vector<int> oi[3]; void*op2[3]; for(int q=0;q<f.nOut;q++){ o[q].assign(std::max(1,k),-12345.678); oi[q].assign(std::max(1,k),-1234567); op2[q]=f.out[q].isInt?(void*)oi[q].data():(void*)o[q].data(); }
    int bg=-9,nb=-9; int rc=f.bstate(b.st,s0,s0+k-1,ip,&bg,&nb,op2);
    if(k==0){ if(rc||nb!=0||bg!=0) x.fail(fmt("an empty chunk returned %d, begin %d, count %d",rc,bg,nb)); continue; }
    batch=true; if(rc!=ex.back().rc) x.fail(fmt("chunk of %d bars at bar %d returned %d, its last bar alone returns %d",k,i,rc,ex.back().rc));
    if(bg!=s0||nb!=k) x.fail(fmt("chunk of %d bars from index %d reported begin %d, count %d",k,s0,bg,nb));
    for(int j=0;j<k;j++){ StepOut t=none(); t.rc=ex[j].rc; for(int q=0;q<f.nOut;q++){ t.r[q]=o[q][j]; t.i[q]=oi[q][j]; if(ex[j].rc==NMD){ bool ok=f.out[q].isInt?oi[q][j]==INT_MAX:std::isnan(o[q][j]); if(!ok) x.fail(fmt("bar %d has no value yet, but the chunk reports %g for %s",i+j,f.out[q].isInt?(double)oi[q][j]:o[q][j],f.out[q].name)); } }
      if(ex[j].rc==0) value=true; if(!sameStep(f,ex[j],t,&why)) x.fail(fmt("bar %d in a chunk of %d: ",i+j,k)+why); }
    i+=k; }
  x.nontrivial=batch&&value&&c.ops.size()>1; x.tag(tagKind(f)); if(c.ops.size()>1) x.tag("several chunks"); }
static Reg r2({"C02","a case is one function with generated parameters, settings and bars, cut at random places into chunks fed by the batch call or bar by bar; non-trivial: at least two pieces, a batch piece, and values past the warm-up",300000,4000000,genChunk,runChunk,fixBars});

// ---------------------------------------------------------------- C03: save / load is transparent
// ops: {bar, hop}: before feeding that bar the state is saved. hop 0: saved only, 1: replaced by its restored copy, 2: a restored copy runs alongside,
// 3: as 1, with another state (and a null state) stored before and after it in the same file
static Case genSave(Rng&r,u64 idx,bool th){ Case c=genStreamCase(r,idx,th?90:40,0.4); c.sub="save"; int n=c.n(); int k=(int)r.range(1,4);
  std::set<long> at; for(int i=0;i<k;i++) at.insert(r.chance(0.15)?0:r.chance(0.1)?n:r.range(0,n)); for(long a:at) c.ops.push_back({a,r.range(0,3)}); return c; }
static void runSave(const Case&c,Ctx&x){ const Fn&f=*findFn(c.fn); int n=c.n(); StateGuard ref(f),cur(f); std::vector<std::unique_ptr<StateGuard>> side;
  if(f.init(&ref.st,c.o.data())||f.init(&cur.st,c.o.data())) x.fail("StateInit failed");
  Str why; bool hopped=false,value=false;
  auto saveLoad=[&](void*st,bool crowd,void**out){ MemFile m; m.openWrite(); int rc;
    if(crowd){ rc=f.save(ref.st,m.f); if(rc) x.fail(fmt("StateSave returned %d",rc)); rc=f.save(nullptr,m.f); if(rc) x.fail(fmt("StateSave of a null state returned %d",rc)); }
    rc=f.save(st,m.f); if(rc) x.fail(fmt("StateSave returned %d",rc));
    if(crowd){ rc=f.save(ref.st,m.f); if(rc) x.fail(fmt("StateSave returned %d",rc)); }
    m.close(); MemFile g; g.openRead(m.buf);
    if(crowd){ StateGuard first(f); rc=f.load(&first.st,g.f); if(rc||!first.st) x.fail(fmt("StateLoad of the first of several states returned %d",rc)); void*nul=nullptr; rc=f.load(&nul,g.f); if(rc||nul) x.fail(fmt("StateLoad of a saved null state returned %d",rc)); }
    *out=nullptr; rc=f.load(out,g.f); if(rc||!*out) x.fail(fmt("StateLoad returned %d",rc));
    if(crowd){ StateGuard last(f); rc=f.load(&last.st,g.f); if(rc||!last.st) x.fail(fmt("StateLoad of the last of several states returned %d",rc)); }
    if(g.pos!=m.buf.size()) x.fail(fmt("StateLoad read %zu of the %zu bytes that StateSave wrote",g.pos,m.buf.size()));
    void*before=*out; MemFile h; h.openRead(m.buf); rc=f.load(out,h.f); if(rc==0||*out!=before) x.fail("StateLoad over an existing state was not refused"); };
  auto doHop=[&](long hop){ void*nw=nullptr; saveLoad(cur.st,hop==3,&nw);
    if(hop==0){ f.free_(&nw); return; } hopped=true;
    if(hop==2){ side.emplace_back(new StateGuard(f)); side.back()->st=nw; return; }
    f.free_(&cur.st); cur.st=nw; };
  for(int i=0;i<=n;i++){ for(auto&op:c.ops) if(op.size()>1&&op[0]==i) doHop(op[1]);
    if(i==n) break; StepOut a=doStep(f,ref.st,c,i),b=doStep(f,cur.st,c,i); if(a.rc==0&&hopped) value=true;
    if(!sameStep(f,a,b,&why)) x.fail(fmt("bar %d, state restored from a file: ",i)+why);
    for(auto&s:side){ StepOut d=doStep(f,s->st,c,i); if(!sameStep(f,a,d,&why)) x.fail(fmt("bar %d, restored copy: ",i)+why); } }
  x.nontrivial=hopped&&value; x.tag(tagKind(f)); for(auto&o:c.ops) if(o.size()>1){ int lb=f.lookback(c.o.data()); x.tag(o[0]==0?"saved before the first bar":o[0]<=lb?"saved during warm-up":"saved past warm-up"); } }
static Reg r3({"C03","a case is one function with generated parameters, settings and bars, saved to a file and restored at up to four random points (before the first bar, in warm-up, after it), continuing on the restored copy, beside it, or among other states of the same file; non-trivial: a restored state produces values",250000,4000000,genSave,runSave,fixBars});

// ---------------------------------------------------------------- C04: states are independent; life cycle
// several states (possibly of several functions) live at once; ops interleave them. Each must behave as if it were alone.
// env applies to all. p: k = number of states; o of state j is derived from seed p.sj through genOpts.
struct Live { const Fn*f; Case c; std::vector<StepOut> ref; };
static Case genMulti(Rng&r,u64 idx,bool th){ Case c=genStreamCase(r,idx,th?80:40,0.3); c.sub="multi"; int k=(int)r.range(2,4); c.p["k"]=k; c.p["fn0"]=findFn(c.fn)-FNS;
  for(int j=1;j<k;j++){ int fi=r.chance(0.6)?(int)c.p["fn0"]:(int)r.range(0,NFN-1); c.p[fmt("fn%d",j)]=fi; c.p[fmt("seed%d",j)]=(double)r.range(1,1000000); }
  int m=(int)r.range(20,160); for(int i=0;i<m;i++){ long kind=r.chance(0.8)?0:r.range(1,4); c.ops.push_back({r.range(0,k-1),kind,r.chance(0.7)?r.range(1,25):r.range(1,3)}); } return c; }
static void runMulti(const Case&c,Ctx&x){ int k=(int)c.P("k",2); if(k<1||k>8) return; std::vector<Live> L(k); Str why; bool values=false,inter=false;
  // the sequences each state sees, and what it gives on its own
  for(int j=0;j<k;j++){ int fi=j==0?(int)(findFn(c.fn)-FNS):(int)c.P(fmt("fn%d",j).c_str()); if(fi<0||fi>=NFN) return; L[j].f=&FNS[fi]; const Fn&f=*L[j].f; Case d; d.fn=f.name;
    if(j==0){ d.o=c.o; d.in=c.in; } else { Rng r(mix64((u64)c.P(fmt("seed%d",j).c_str())*7919+j)); d.o=genOpts(r,f,60); int lb=f.lookback(d.o.data()); genInputs(r,f,std::max(1,lb+40),d.in); }
    StateGuard g(f); if(f.init(&g.st,d.o.data())) x.fail("StateInit failed"); for(int i=0;i<d.n();i++) L[j].ref.push_back(doStep(f,g.st,d,i)); L[j].c=d; }
  long base=g_live; struct Run { void*st=nullptr; int at=0; }; std::vector<Run> R(k); int last=-1;
  for(auto&op:c.ops){ if(op.size()<3) continue; int j=(int)op[0]; if(j<0||j>=k) continue; const Fn&f=*L[j].f; Run&s=R[j];
    if(!s.st){ int rc=f.init(&s.st,L[j].c.o.data()); if(rc||!s.st) x.fail(fmt("TA_%s_StateInit returned %d",f.name,rc)); s.at=0; }
    if(op[1]==4){ int rc=f.free_(&s.st); if(rc||s.st) x.fail(fmt("TA_%s_StateFree returned %d%s",f.name,rc,s.st?" and left the pointer set":"")); continue; }
    if(op[1]==3){ MemFile m; m.openWrite(); if(f.save(s.st,m.f)) x.fail("StateSave failed"); m.close(); m.openRead(std::vector<char>(m.buf)); f.free_(&s.st); int rc=f.load(&s.st,m.f); if(rc) x.fail("StateLoad failed"); }
    if(op[1]==2){ f.lookback(L[j].c.o.data()); int e=std::min(L[j].c.n(),s.at+20)-1; runBatch(f,L[j].c.o,L[j].c.in,0,std::max(0,e)); }
    if(last>=0&&last!=j&&s.at>0) inter=true; last=j;
    for(long q=0;q<op[2]&&s.at<L[j].c.n();q++,s.at++){ StepOut b=doStep(f,s.st,L[j].c,s.at); if(b.rc==0) values=true; if(!sameStep(f,L[j].ref[s.at],b,&why)) x.fail(fmt("%s, bar %d, beside other states: ",f.name,s.at)+why); } }
  for(int j=0;j<k;j++) if(R[j].st){ int rc=L[j].f->free_(&R[j].st); if(rc||R[j].st) x.fail(fmt("TA_%s_StateFree returned %d%s",L[j].f->name,rc,R[j].st?" and left the pointer set":"")); }
  if(g_live!=base) x.fail(fmt("%ld allocations are still held after every state was freed",g_live-base));
  for(int j=0;j<k;j++){ void*nul=nullptr; int rc=L[j].f->free_(&nul); if(rc||nul) x.fail(fmt("TA_%s_StateFree of a state that is already freed returned %d",L[j].f->name,rc)); }
  x.nontrivial=values&&inter; x.tag(fmt("%d states",k)); }
static Reg r4({"C04","a case is two to four states (same or different functions) and a random interleaving of feeding, freeing and re-creating, save/restore and unrelated calls; non-trivial: at least two states are interleaved and values are produced",120000,2000000,genMulti,runMulti,fixBars});

// ---------------------------------------------------------------- C05: I/O faults
static Case genIo(Rng&r,u64 idx,bool th){ Case c=genStreamCase(r,idx,25,0.2); c.sub="io"; c.p["at"]=(double)(r.chance(0.1)?0:r.chance(0.7)?c.n()/2+r.range(0,3):r.range(0,c.n())); c.p["salt"]=(double)r.range(1,1000000); return c; }
static void runIo(const Case&c,Ctx&x){ const Fn&f=*findFn(c.fn); int n=c.n(),at=std::min(n,(int)c.P("at")); StateGuard ref(f),a(f);
  if(f.init(&ref.st,c.o.data())||f.init(&a.st,c.o.data())) x.fail("StateInit failed");
  for(int i=0;i<at;i++){ doStep(f,ref.st,c,i); doStep(f,a.st,c,i); }
  MemFile m; m.openWrite(); if(f.save(a.st,m.f)) x.fail("StateSave failed"); m.close(); std::vector<char> whole=m.buf; size_t S=whole.size(); long W=m.calls,Rd=0;
  std::set<size_t> cut; Rng r(mix64((u64)c.P("salt"))); std::vector<size_t> cs=m.cuts; { MemFile g; g.openRead(whole); StateGuard t(f); if(f.load(&t.st,g.f)) x.fail("StateLoad failed"); Rd=g.calls; cs.insert(cs.end(),g.cuts.begin(),g.cuts.end()); }
  std::sort(cs.begin(),cs.end()); cs.erase(std::unique(cs.begin(),cs.end()),cs.end());
  if(cs.size()>60){ std::vector<size_t> t; for(int i=0;i<60;i++) t.push_back(cs[r.next()%cs.size()]); cs=t; }
  for(size_t p:cs) for(long d:{-1L,0L,1L}) if((long)p+d>=0&&p+d<S) cut.insert(p+d); cut.insert(S-1); for(int i=0;i<8;i++) cut.insert(r.next()%S);
  if(c.p.count("only")){ cut.clear(); cut.insert(std::min(S-1,(size_t)c.P("only"))); }
  for(size_t L:cut){ long base=g_live; { MemFile g; g.openRead(whole,(long)L); void*st=nullptr; int rc=f.load(&st,g.f);
      if(rc==0) x.fail(fmt("StateLoad of the first %zu of %zu bytes reported success",L,S)); if(rc!=TA_IO_FAILED) x.fail(fmt("StateLoad of the first %zu of %zu bytes returned %d, not TA_IO_FAILED",L,S,rc));
      int r2=f.free_(&st); if(r2||st) x.fail(fmt("StateFree after a failed load returned %d",r2)); }
    if(g_live!=base) x.fail(fmt("a failed load (%zu of %zu bytes) leaked %ld allocations",L,S,g_live-base));
    { MemFile w; w.openWrite((long)L); int rc=f.save(a.st,w.f); if(rc==0) x.fail(fmt("StateSave reported success although only %zu of %zu bytes could be written",L,S)); if(rc!=TA_IO_FAILED) x.fail(fmt("StateSave with %zu of %zu bytes of room returned %d, not TA_IO_FAILED",L,S,rc)); }
    if(g_live!=base) x.fail(fmt("a failed save leaked %ld allocations",g_live-base)); }
  // a single write or read that fails while all later ones succeed
  auto once=[&](long total){ std::vector<long> v; if(total<=24) for(long i=0;i<total;i++) v.push_back(i); else for(int i=0;i<24;i++) v.push_back(i<2?i:i<5?total-1-(i-2):(long)(r.next()%total)); return v; };
  for(long q:once(W)){ long base=g_live; MemFile w; w.failAt=q; w.openWrite(); int rc=f.save(a.st,w.f); if(rc!=TA_IO_FAILED) x.fail(fmt("StateSave returned %d although write %ld of %ld failed",rc,q+1,W)); w.close(); if(g_live!=base) x.fail("a failed save leaked"); }
  for(long q:once(Rd)){ long base=g_live; { MemFile g; g.failAt=q; g.openRead(whole); void*st=nullptr; int rc=f.load(&st,g.f); if(rc!=TA_IO_FAILED) x.fail(fmt("StateLoad returned %d although read %ld of %ld failed",rc,q+1,Rd)); int r2=f.free_(&st); if(r2||st) x.fail(fmt("StateFree after a failed load returned %d",r2)); } if(g_live!=base) x.fail(fmt("a load whose read %ld failed leaked %ld allocations",q+1,g_live-base)); }
  Str why; for(int i=at;i<n;i++){ StepOut p=doStep(f,ref.st,c,i),q=doStep(f,a.st,c,i); if(!sameStep(f,p,q,&why)) x.fail(fmt("bar %d, after failed saves: ",i)+why); }
  x.nontrivial=at>0&&cut.size()>3; x.tag(tagKind(f)); x.tag(cut.size()>100?"over 100 fault points":"up to 100 fault points"); }
static Reg r5({"C05","a case is one function state advanced to a random bar; its save is made to fail, and its file truncated, before and after every field boundary (up to 60 of them, all three neighbouring offsets) and at random offsets; non-trivial: the state has seen bars and more than three fault points were tried",24000,400000,genIo,runIo,fixBars});
