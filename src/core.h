// Small property-based-testing core: cases are plain data (serialisable), generated from a seed,
// executed in forked workers, shrunk in forked children, replayed from a text file.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <climits>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <memory>
#include <algorithm>
#include <stdexcept>
#include "glue.h"
typedef uint64_t u64;
typedef std::vector<double> Vec;
typedef std::string Str;

static inline u64 mix64(u64 x){ x+=0x9E3779B97F4A7C15ULL; x=(x^(x>>30))*0xBF58476D1CE4E5B9ULL; x=(x^(x>>27))*0x94D049BB133111EBULL; return x^(x>>31); }
static inline u64 hashs(const Str&s){ u64 h=1469598103934665603ULL; for(unsigned char c:s){ h^=c; h*=1099511628211ULL; } return mix64(h); }
struct Rng { u64 s; explicit Rng(u64 x):s(x){}
  u64 next(){ s+=0x9E3779B97F4A7C15ULL; u64 z=s; z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL; return z^(z>>31); }
  long range(long lo,long hi){ return lo>=hi?lo: lo+(long)(next()%(u64)(hi-lo+1)); } // inclusive
  double unit(){ return (next()>>11)*(1.0/9007199254740992.0); }
  double real(double a,double b){ return a+(b-a)*unit(); }
  bool chance(double p){ return unit()<p; }
  double gauss(){ double s=0; for(int i=0;i<12;i++) s+=unit(); return s-6; }
  template<class T> const T& pick(const std::vector<T>&v){ return v[next()%v.size()]; }
};

struct Case {
  Str sub, fn;
  Vec o;                               // optional parameters
  std::vector<Vec> in;                 // input series
  std::vector<std::vector<long>> ops;  // operation sequence
  std::vector<Vec> env;                // {0,id,val} unstable; {1,compat}; {2,setting,rangeType,period,factor}
  std::map<Str,double> p;              // named scalars
  double P(const char*k,double d=0) const { auto i=p.find(k); return i==p.end()?d:i->second; }
  int n() const { return in.empty()?0:(int)in[0].size(); }
};
Str ser(const Case&); bool parseCases(const Str& text, std::vector<Case>& out);
struct Fail : std::runtime_error { Fail(const Str&m):std::runtime_error(m){} };
Str fmt(const char*f,...) __attribute__((format(printf,1,2)));
struct Ctx { bool nontrivial=false; std::map<Str,long>* cls=nullptr;
  void tag(const Str&s){ if(cls) (*cls)[s]++; }
  [[noreturn]] void fail(const Str&m){ throw Fail(m); }
};
struct Prop {
  Str id; Str rule;
  long quick, thorough;     // number of cases
  std::function<Case(Rng&,u64 idx,bool thorough)> gen;
  std::function<void(const Case&,Ctx&)> run;
  std::function<void(Case&)> fixup; // re-establish preconditions after a shrink step (may be empty)
  double cap=420, thoroughCap=3000;
  std::vector<Str> assumptions;
  bool anyOpts=false; // cases may have invalid parameters
};
std::vector<Prop>& props();
struct Reg { Reg(Prop p){ props().push_back(std::move(p)); } };

// ---- library helpers
const Fn* findFn(const Str&); bool validOpts(const Case&);
void resetGlobals();
void applyEnv(const Case&);
extern long g_live;            // live allocations made by library code
extern long g_allocCount, g_failAt; // allocation fault injection: fail the g_failAt-th allocation (1-based), 0 = off
extern long g_allocCap;        // refuse single allocations larger than this (0 = off)
extern u64 g_badFree;
// outputs
struct Outs { std::vector<Vec> r; std::vector<std::vector<int>> i; };
static inline bool biteq(double a,double b){ return memcmp(&a,&b,8)==0 || (std::isnan(a)&&std::isnan(b)); }

// ---- generators
Vec genOpts(Rng&,const Fn&,int maxLb);
int slackOf(Rng&r,int usual); bool enlarge(Rng&,const Fn&,Vec&o,double p);
bool fixedZero(const Fn&f); // compares something other than a ratio or difference of its inputs with a fixed epsilon
void genInputs(Rng&,const Fn&,int n,std::vector<Vec>&in,int style=-1);
void unitChange(Rng&,const Fn&,std::vector<Vec>&in);
void genEnv(Rng&,const Fn&,Case&,double pUnst,double pCompat,double pCandle);
const Fn& pickFn(Rng&,u64 idx);
struct OHLCV { Vec o,h,l,c,v; };
OHLCV genBars(Rng&,int n,int style);
int unstId(const Str& fn);
// ---- running the library
struct Bat { int rc=-1,b=0,nb=0; Vec r[3]; std::vector<int> ii[3]; };
Bat runBatch(const Fn&,const Vec&o,const std::vector<Vec>&in,int s,int e);
// Sensitivity of the batch result to rounding: recomputed on inputs disturbed by about 1e-12 of their magnitude, in a way
// that keeps equal values equal (so comparisons of raw inputs are unaffected). A difference between two implementations
// is only meaningful where it exceeds what such noise produces.
struct Sens { const Case&c; const Fn&f; int s,e; bool done=false; std::vector<Bat> runs; double eps,scale=-1;
  Sens(const Case&c,const Fn&f,int s,int e,double eps=1e-12):c(c),f(f),s(s),e(e),eps(eps){}
  void compute(); void inner();
  double spread(int k,int bar,double A);     // of real output k at absolute bar
  bool intVaries(int k,int bar,int A);       // integer output changes under the noise
};
double outScale(const Case&);
bool closeEnough(Sens&,int k,int bar,double A,double B,double rel=1e-8,double abst=0);
double devSlack(const Case&,const Fn&,double scale=-1); // what a running sum of squares may leave of the largest input in a deviation (BBANDS, STDDEV)
double devSlackAt(const Case&,const Fn&,int k,const Vec*r,int j,double scale=-1); // the same for value j of output k, given the outputs
bool haltBefore(const Case&c,int bar); // the price stood still within the memory of a cycle
bool rounded(const Case&c,const Fn&f,int bar); // the value at this bar hangs on rounding alone
std::vector<Vec> disturb(const Fn&f,const std::vector<Vec>&in,double eps,u64 salt);
void fixN(Case&); // shrinking keeps at least one bar
struct CandleSet { int rt, ap; double fac; };
void candleSettings(const Case&,CandleSet*K); // effective candle settings (0..10) of a case
Case genCandleCase(Rng&,const Fn&,int maxBars); // settings, penetration and bars directed at one pattern
void fixBars(Case&); // after shrinking: at least one bar, and open/high/low/close stay consistent
