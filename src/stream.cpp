#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "stream.h"
#include <errno.h>
StepOut doStep(const Fn&f,void*st,const Case&c,int i){ StepOut s; s.rc=-1; for(int k=0;k<3;k++){ s.r[k]=-12345.678; s.i[k]=-1234567; }
  double v[4]; for(int k=0;k<f.nIn;k++) v[k]=c.in[k][i]; void*so[3]; for(int k=0;k<f.nOut;k++) so[k]=f.out[k].isInt?(void*)&s.i[k]:(void*)&s.r[k];
  s.rc=f.step(st,v,so); return s; }
bool sameStep(const Fn&f,const StepOut&a,const StepOut&b,Str*why){
  if(a.rc!=b.rc){ *why=fmt("return code %d, expected %d",b.rc,a.rc); return false; }
  if(a.rc==0) for(int k=0;k<f.nOut;k++){ if(f.out[k].isInt){ if(a.i[k]!=b.i[k]){ *why=fmt("%s is %d, expected %d",f.out[k].name,b.i[k],a.i[k]); return false; } }
    else if(!biteq(a.r[k],b.r[k])){ *why=fmt("%s is %.17g, expected %.17g",f.out[k].name,b.r[k],a.r[k]); return false; } }
  return true; }
Case genStreamCase(Rng&r,u64 idx,int slack,double share){
  const Fn&f=pickFn(r,idx); if(f.candle&&r.chance(share)){ Case c=genCandleCase(r,f,slack); c.sub=""; c.p.clear(); return c; }
  Case c; c.fn=f.name; genEnv(r,f,c,0.3,0.15,0.4); applyEnv(c); c.o=genOpts(r,f,150);
  int lb=f.lookback(c.o.data()); genInputs(r,f,std::max(1,lb+slackOf(r,(int)r.range(-2,slack))),c.in); unitChange(r,f,c.in); return c; }
static ssize_t mfWrite(void*k,const char*b,size_t n){ MemFile&m=*(MemFile*)k; if(m.calls++==m.failAt){ errno=EIO; return 0; } m.cuts.push_back(m.pos);
  if(m.limit>=0&&m.pos+n>(size_t)m.limit){ n=(size_t)m.limit>m.pos?m.limit-m.pos:0; m.hardError++; }
  m.buf.insert(m.buf.end(),b,b+n); m.pos+=n; return n; }
static ssize_t mfRead(void*k,char*b,size_t n){ MemFile&m=*(MemFile*)k; if(m.calls++==m.failAt){ errno=EIO; return -1; } m.cuts.push_back(m.pos); size_t e=m.buf.size(); if(m.limit>=0) e=std::min(e,(size_t)m.limit);
  n=std::min(n,e>m.pos?e-m.pos:0); if(n) memcpy(b,m.buf.data()+m.pos,n); m.pos+=n; return n; }
void MemFile::openWrite(long lim){ close(); buf.clear(); pos=0; calls=0; limit=lim; isWrite=true; cuts.clear(); cookie_io_functions_t io={nullptr,mfWrite,nullptr,nullptr}; f=fopencookie(this,"wb",io); setvbuf(f,nullptr,_IONBF,0); }
void MemFile::openRead(const std::vector<char>&b,long lim){ close(); buf=b; pos=0; calls=0; limit=lim; isWrite=false; cuts.clear(); cookie_io_functions_t io={mfRead,nullptr,nullptr,nullptr}; f=fopencookie(this,"rb",io); setvbuf(f,nullptr,_IONBF,0); }
void MemFile::close(){ if(f){ fclose(f); f=nullptr; } }
