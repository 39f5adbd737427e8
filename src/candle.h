// Reference model of the 61 candlestick patterns: every average is recomputed from its definition at every bar.
#pragma once
#include "core.h"
struct CandleRef {
  const Vec &o,&h,&l,&c; CandleSet K[11]; double pen; double tol; // tol 0: exact arithmetic
  CandleRef(const Vec&o,const Vec&h,const Vec&l,const Vec&c,const CandleSet*k,double pen,bool exact);
  double avg(int s,int i) const;
  double range(int s,int i) const;
};
struct CandlePat { const char*name; int bars; int (*lookback)(const CandleRef&);
  // conditions of alternative a at bar i; pushes truth values (0 no, 1 undecided: a tie within rounding, 2 yes); returns the result of the alternative, INT_MIN when there is no such alternative
  int (*alt)(const CandleRef&,int a,int i,std::vector<signed char>&out); };
const CandlePat* candlePat(const Str&fn);
int candleValue(const CandlePat&,const CandleRef&,int i,bool&undecided);
double candleScore(const CandlePat&,const CandleRef&,int i,int altSel); // fraction of satisfied conditions of the best (or given) alternative
bool exactCandles(const Case&c); // every arithmetic step of every average is exact for this case
// bars that contain the pattern fn often; exact: all values are multiples of 1/2
void genCandleBars(Rng&r,const CandlePat&p,const CandleSet*K,double pen,int n,OHLCV&b,bool exact);
