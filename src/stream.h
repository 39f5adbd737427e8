// shared helpers for properties over streaming states
#pragma once
#include "core.h"
extern "C" {
#include "ta_libc.h"
}
#define NMD TA_NEED_MORE_DATA
struct StepOut { int rc; double r[3]; int i[3]; };
struct StateGuard { const Fn&f; void*st=nullptr; StateGuard(const Fn&f):f(f){} ~StateGuard(){ if(st) f.free_(&st); } StateGuard(const StateGuard&)=delete; };
StepOut doStep(const Fn&f,void*st,const Case&c,int i); // outputs preset to a sentinel
bool sameStep(const Fn&f,const StepOut&a,const StepOut&b,Str*why); // return code, and outputs if it succeeded
Case genStreamCase(Rng&r,u64 idx,int slack,double candleShare=0.5); // function, parameters, settings and bars for a state
// in-memory FILE with an optional failure point
struct MemFile { std::vector<char> buf; size_t pos=0; long limit=-1,failAt=-1,calls=0; bool isWrite=true; std::vector<size_t> cuts; long hardError=0; FILE*f=nullptr;
  void openWrite(long lim=-1); void openRead(const std::vector<char>&b,long lim=-1); void close(); ~MemFile(){ close(); } };
