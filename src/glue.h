#pragma once
#include <cstdio>
struct OptD { const char*name; int type; double min,max,def; const char*display; }; // type 0 int,1 real,2 MA type
struct OutD { const char*name; int isInt; };
struct Fn {
  const char *name,*camel,*group,*hint,*flags; bool candle, unst;
  int nIn,nOpt,nOut;
  const char* in[4]; OptD opt[8]; OutD out[3];
  int (*lookback)(const double*);
  int (*batch)(int,int,const void*const*,const double*,int*,int*,void*const*);
  int (*sbatch)(int,int,const void*const*,const double*,int*,int*,void*const*);
  int (*init)(void**,const double*);
  int (*step)(void*,const double*,void*const*);
  int (*bstate)(void*,int,int,const void*const*,int*,int*,void*const*);
  int (*free_)(void**);
  int (*save)(void*,FILE*);
  int (*load)(void**,FILE*);
};
extern const Fn FNS[]; extern const int NFN;
