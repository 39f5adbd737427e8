#include "candle.h"
enum { BL,BVL,BS,BD,SL,SVL,SS,SVS,NEAR,FAR_,EQ };
typedef std::vector<signed char> TV;
CandleRef::CandleRef(const Vec&o,const Vec&h,const Vec&l,const Vec&c,const CandleSet*k,double pen,bool exact):o(o),h(h),l(l),c(c),pen(pen){
  for(int i=0;i<11;i++) K[i]=k[i]; double m=0; for(double x:h) m=std::max(m,std::fabs(x)); for(double x:l) m=std::max(m,std::fabs(x)); tol=exact?0:1e-9*m; }
double CandleRef::range(int s,int i) const { switch(K[s].rt){ case 0: return std::fabs(c[i]-o[i]); case 1: return h[i]-l[i]; default: return (h[i]-std::max(o[i],c[i]))+(std::min(o[i],c[i])-l[i]); } }
double CandleRef::avg(int s,int i) const { double v; if(K[s].ap){ v=0; for(int j=i-K[s].ap;j<i;j++) v+= j>=0?range(s,j):0; v/=K[s].ap; } else v=range(s,i); return K[s].fac*v/(K[s].rt==2?2:1); }
#define A(s,i) k.avg(s,i)
#define O(i) k.o[i]
#define H(i) k.h[i]
#define L(i) k.l[i]
#define C(i) k.c[i]
#define RB(i) std::fabs(k.c[i]-k.o[i])
#define US(i) (k.h[i]-std::max(k.o[i],k.c[i]))
#define LS(i) (std::min(k.o[i],k.c[i])-k.l[i])
#define COL(i) (k.c[i]>=k.o[i]?1:-1)
#define TOP(i) std::max(k.o[i],k.c[i])
#define BOT(i) std::min(k.o[i],k.c[i])
#define GU(i,j) (BOT(i)>TOP(j))
#define GD(i,j) (TOP(i)<BOT(j))
#define CGU(i,j) (k.l[i]>k.h[j])
#define CGD(i,j) (k.h[i]<k.l[j])
static inline signed char T(bool b){ return b?2:0; }
static inline signed char G(const CandleRef&k,double a,double b){ if(k.tol>0&&std::fabs(a-b)<=k.tol) return 1; return a>b?2:0; }
static inline signed char GE(const CandleRef&k,double a,double b){ if(k.tol>0&&std::fabs(a-b)<=k.tol) return 1; return a>=b?2:0; }
#define GT(a,b) G(k,a,b)
#define LT(a,b) G(k,b,a)
#define GTE(a,b) GE(k,a,b)
#define LTE(a,b) GE(k,b,a)
static inline signed char OR(signed char a,signed char b){ return std::max(a,b); }
static inline signed char AND(signed char a,signed char b){ return std::min(a,b); }
#define ALT [](const CandleRef&k,int a,int i,TV&v)->int
#define LB(x) [](const CandleRef&k)->int{ auto AP=[&](int s){return k.K[s].ap;}; (void)AP; return x; }
#define P(...) v=TV{__VA_ARGS__}
#define M(a,b) std::max(a,b)
#define NONE return INT_MIN
static int hikDet(const CandleRef&k,int i,int d){ // 0 none, +-100 ; d unused
  (void)d; if(H(i-1)<H(i-2)&&L(i-1)>L(i-2)&&((H(i)<H(i-1)&&L(i)<L(i-1))||(H(i)>H(i-1)&&L(i)>L(i-1)))) return H(i)<H(i-1)?100:-100; return 0; }
static void hikModConds(const CandleRef&k,int i,int dir,TV&v){
  P(T(H(i-2)<H(i-3)),T(L(i-2)>L(i-3)),T(H(i-1)<H(i-2)),T(L(i-1)>L(i-2)), T(dir>0?H(i)<H(i-1):H(i)>H(i-1)), T(dir>0?L(i)<L(i-1):L(i)>L(i-1)), dir>0?LTE(C(i-2),L(i-2)+A(NEAR,i-2)):GTE(C(i-2),H(i-2)-A(NEAR,i-2))); }
static const CandlePat PATS[]={
{"CDL2CROWS",3,LB(AP(BL)+2),ALT{ if(a) NONE; P(T(COL(i-2)==1),GT(RB(i-2),A(BL,i-2)),T(COL(i-1)==-1),T(GU(i-1,i-2)),T(COL(i)==-1),T(O(i)<O(i-1)),T(O(i)>C(i-1)),T(C(i)>O(i-2)),T(C(i)<C(i-2))); return -100; }},
{"CDL3BLACKCROWS",4,LB(AP(SVS)+3),ALT{ if(a) NONE; P(T(COL(i-3)==1),T(COL(i-2)==-1),LT(LS(i-2),A(SVS,i-2)),T(COL(i-1)==-1),LT(LS(i-1),A(SVS,i-1)),T(COL(i)==-1),LT(LS(i),A(SVS,i)),T(O(i-1)<O(i-2)),T(O(i-1)>C(i-2)),T(O(i)<O(i-1)),T(O(i)>C(i-1)),T(H(i-3)>C(i-2)),T(C(i-2)>C(i-1)),T(C(i-1)>C(i))); return -100; }},
{"CDL3INSIDE",3,LB(M(AP(BS),AP(BL))+2),ALT{ if(a>1) NONE; P(GT(RB(i-2),A(BL,i-2)),LTE(RB(i-1),A(BS,i-1)),T(TOP(i-1)<TOP(i-2)),T(BOT(i-1)>BOT(i-2)),T(COL(i-2)==(a?-1:1)),T(COL(i)==(a?1:-1)),T(a?C(i)>O(i-2):C(i)<O(i-2))); return a?100:-100; }},
{"CDL3LINESTRIKE",4,LB(AP(NEAR)+3),ALT{ if(a>1) NONE; int d=a?-1:1; P(T(COL(i-3)==d),T(COL(i-2)==d),T(COL(i-1)==d),T(COL(i)==-d),GTE(O(i-2),BOT(i-3)-A(NEAR,i-3)),LTE(O(i-2),TOP(i-3)+A(NEAR,i-3)),GTE(O(i-1),BOT(i-2)-A(NEAR,i-2)),LTE(O(i-1),TOP(i-2)+A(NEAR,i-2)),T(d>0?C(i-1)>C(i-2):C(i-1)<C(i-2)),T(d>0?C(i-2)>C(i-3):C(i-2)<C(i-3)),T(d>0?O(i)>C(i-1):O(i)<C(i-1)),T(d>0?C(i)<O(i-3):C(i)>O(i-3))); return d*100; }},
{"CDL3OUTSIDE",3,LB(3),ALT{ if(a==0){ P(T(COL(i-1)==1),T(COL(i-2)==-1),T(C(i-1)>O(i-2)),T(O(i-1)<C(i-2)),T(C(i)>C(i-1))); return 100; } if(a==1){ P(T(COL(i-1)==-1),T(COL(i-2)==1),T(O(i-1)>C(i-2)),T(C(i-1)<O(i-2)),T(C(i)<C(i-1))); return -100; } NONE; }},
{"CDL3STARSINSOUTH",3,LB(M(M(AP(SVS),AP(SL)),M(AP(BL),AP(BS)))+2),ALT{ if(a) NONE; P(T(COL(i-2)==-1),T(COL(i-1)==-1),T(COL(i)==-1),GT(RB(i-2),A(BL,i-2)),GT(LS(i-2),A(SL,i-2)),LT(RB(i-1),RB(i-2)),T(O(i-1)>C(i-2)),T(O(i-1)<=H(i-2)),T(L(i-1)<C(i-2)),T(L(i-1)>=L(i-2)),GT(LS(i-1),A(SVS,i-1)),LT(RB(i),A(BS,i)),LT(LS(i),A(SVS,i)),LT(US(i),A(SVS,i)),T(L(i)>L(i-1)),T(H(i)<H(i-1))); return 100; }},
{"CDL3WHITESOLDIERS",3,LB(M(M(AP(SVS),AP(BS)),M(AP(FAR_),AP(NEAR)))+2),ALT{ if(a) NONE; P(T(COL(i-2)==1),LT(US(i-2),A(SVS,i-2)),T(COL(i-1)==1),LT(US(i-1),A(SVS,i-1)),T(COL(i)==1),LT(US(i),A(SVS,i)),T(C(i)>C(i-1)),T(C(i-1)>C(i-2)),T(O(i-1)>O(i-2)),LTE(O(i-1),C(i-2)+A(NEAR,i-2)),T(O(i)>O(i-1)),LTE(O(i),C(i-1)+A(NEAR,i-1)),GT(RB(i-1),RB(i-2)-A(FAR_,i-2)),GT(RB(i),RB(i-1)-A(FAR_,i-1)),GT(RB(i),A(BS,i))); return 100; }},
{"CDLABANDONEDBABY",3,LB(M(M(AP(BD),AP(BL)),AP(BS))+2),ALT{ if(a>1) NONE; P(GT(RB(i-2),A(BL,i-2)),LTE(RB(i-1),A(BD,i-1)),GT(RB(i),A(BS,i)),T(COL(i-2)==(a?-1:1)),T(COL(i)==(a?1:-1)),a?GT(C(i),C(i-2)+RB(i-2)*k.pen):LT(C(i),C(i-2)-RB(i-2)*k.pen),T(a?CGD(i-1,i-2):CGU(i-1,i-2)),T(a?CGU(i,i-1):CGD(i,i-1))); return a?100:-100; }},
{"CDLADVANCEBLOCK",3,LB(M(M(M(AP(SL),AP(SS)),M(AP(FAR_),AP(NEAR))),AP(BL))+2),ALT{ if(a>3) NONE; P(T(COL(i-2)==1),T(COL(i-1)==1),T(COL(i)==1),T(C(i)>C(i-1)),T(C(i-1)>C(i-2)),T(O(i-1)>O(i-2)),LTE(O(i-1),C(i-2)+A(NEAR,i-2)),T(O(i)>O(i-1)),LTE(O(i),C(i-1)+A(NEAR,i-1)),GT(RB(i-2),A(BL,i-2)),LT(US(i-2),A(SS,i-2)));
   if(a==0){ v.push_back(LT(RB(i-1),RB(i-2)-A(FAR_,i-2))); v.push_back(LT(RB(i),RB(i-1)+A(NEAR,i-1))); }
   if(a==1) v.push_back(LT(RB(i),RB(i-1)-A(FAR_,i-1)));
   if(a==2){ v.push_back(LT(RB(i),RB(i-1))); v.push_back(LT(RB(i-1),RB(i-2))); v.push_back(OR(GT(US(i),A(SS,i)),GT(US(i-1),A(SS,i-1)))); }
   if(a==3){ v.push_back(LT(RB(i),RB(i-1))); v.push_back(GT(US(i),A(SL,i))); } return -100; }},
{"CDLBELTHOLD",1,LB(M(AP(BL),AP(SVS))),ALT{ if(a>1) NONE; P(GT(RB(i),A(BL,i)),T(COL(i)==(a?-1:1)),LT(a?US(i):LS(i),A(SVS,i))); return a?-100:100; }},
{"CDLBREAKAWAY",5,LB(AP(BL)+4),ALT{ if(a>1) NONE; int d=a?1:-1; P(GT(RB(i-4),A(BL,i-4)),T(COL(i-4)==d),T(COL(i-3)==d),T(COL(i-1)==d),T(COL(i)==-d),T(d<0?GD(i-3,i-4):GU(i-3,i-4)),T(d<0?H(i-2)<H(i-3):H(i-2)>H(i-3)),T(d<0?L(i-2)<L(i-3):L(i-2)>L(i-3)),T(d<0?H(i-1)<H(i-2):H(i-1)>H(i-2)),T(d<0?L(i-1)<L(i-2):L(i-1)>L(i-2)),T(d<0?C(i)>O(i-3):C(i)<O(i-3)),T(d<0?C(i)<C(i-4):C(i)>C(i-4))); return -d*100; }},
{"CDLCLOSINGMARUBOZU",1,LB(M(AP(BL),AP(SVS))),ALT{ if(a>1) NONE; P(GT(RB(i),A(BL,i)),T(COL(i)==(a?-1:1)),LT(a?LS(i):US(i),A(SVS,i))); return a?-100:100; }},
{"CDLCONCEALBABYSWALL",4,LB(AP(SVS)+3),ALT{ if(a) NONE; P(T(COL(i-3)==-1),T(COL(i-2)==-1),T(COL(i-1)==-1),T(COL(i)==-1),LT(LS(i-3),A(SVS,i-3)),LT(US(i-3),A(SVS,i-3)),LT(LS(i-2),A(SVS,i-2)),LT(US(i-2),A(SVS,i-2)),T(GD(i-1,i-2)),GT(US(i-1),A(SVS,i-1)),T(H(i-1)>C(i-2)),T(H(i)>H(i-1)),T(L(i)<L(i-1))); return 100; }},
{"CDLCOUNTERATTACK",2,LB(M(AP(EQ),AP(BL))+1),ALT{ if(a>1) NONE; int d=a?-1:1; P(T(COL(i)==d),T(COL(i-1)==-d),GT(RB(i-1),A(BL,i-1)),GT(RB(i),A(BL,i)),LTE(C(i),C(i-1)+A(EQ,i-1)),GTE(C(i),C(i-1)-A(EQ,i-1))); return d*100; }},
{"CDLDARKCLOUDCOVER",2,LB(AP(BL)+1),ALT{ if(a) NONE; P(T(COL(i-1)==1),GT(RB(i-1),A(BL,i-1)),T(COL(i)==-1),T(O(i)>H(i-1)),T(C(i)>O(i-1)),LT(C(i),C(i-1)-RB(i-1)*k.pen)); return -100; }},
{"CDLDOJI",1,LB(AP(BD)),ALT{ if(a) NONE; P(LTE(RB(i),A(BD,i))); return 100; }},
{"CDLDOJISTAR",2,LB(M(AP(BD),AP(BL))+1),ALT{ if(a>1) NONE; P(GT(RB(i-1),A(BL,i-1)),LTE(RB(i),A(BD,i)),T(COL(i-1)==(a?-1:1)),T(a?GD(i,i-1):GU(i,i-1))); return a?100:-100; }},
{"CDLDRAGONFLYDOJI",1,LB(M(AP(BD),AP(SVS))),ALT{ if(a) NONE; P(LTE(RB(i),A(BD,i)),LT(US(i),A(SVS,i)),GT(LS(i),A(SVS,i))); return 100; }},
{"CDLENGULFING",2,LB(2),ALT{ if(a>5) NONE; int w=a/2; bool bear=a&1; int d=bear?-1:1; double p=bear?O(i):C(i),q=bear?C(i):O(i),hi=bear?C(i-1):O(i-1),lo=bear?O(i-1):C(i-1); // p upper end, q lower end of the body
   if(w==0) P(T(COL(i)==d),T(COL(i-1)==-d),T(p>hi),T(q<lo)); else if(w==1) P(T(COL(i)==d),T(COL(i-1)==-d),T(p==hi),T(q<lo)); else P(T(COL(i)==d),T(COL(i-1)==-d),T(p>hi),T(q==lo)); return d*(w?80:100); }},
{"CDLEVENINGDOJISTAR",3,LB(M(M(AP(BD),AP(BL)),AP(BS))+2),ALT{ if(a) NONE; P(GT(RB(i-2),A(BL,i-2)),T(COL(i-2)==1),LTE(RB(i-1),A(BD,i-1)),T(GU(i-1,i-2)),GT(RB(i),A(BS,i)),T(COL(i)==-1),LT(C(i),C(i-2)-RB(i-2)*k.pen)); return -100; }},
{"CDLEVENINGSTAR",3,LB(M(AP(BS),AP(BL))+2),ALT{ if(a) NONE; P(GT(RB(i-2),A(BL,i-2)),T(COL(i-2)==1),LTE(RB(i-1),A(BS,i-1)),T(GU(i-1,i-2)),GT(RB(i),A(BS,i)),T(COL(i)==-1),LT(C(i),C(i-2)-RB(i-2)*k.pen)); return -100; }},
{"CDLGAPSIDESIDEWHITE",3,LB(M(AP(NEAR),AP(EQ))+2),ALT{ if(a>1) NONE; P(T(a?GD(i-1,i-2):GU(i-1,i-2)),T(a?GD(i,i-2):GU(i,i-2)),T(COL(i-1)==1),T(COL(i)==1),GTE(RB(i),RB(i-1)-A(NEAR,i-1)),LTE(RB(i),RB(i-1)+A(NEAR,i-1)),GTE(O(i),O(i-1)-A(EQ,i-1)),LTE(O(i),O(i-1)+A(EQ,i-1))); return a?-100:100; }},
{"CDLGRAVESTONEDOJI",1,LB(M(AP(BD),AP(SVS))),ALT{ if(a) NONE; P(LTE(RB(i),A(BD,i)),LT(LS(i),A(SVS,i)),GT(US(i),A(SVS,i))); return 100; }},
{"CDLHAMMER",2,LB(M(M(M(AP(BS),AP(SL)),AP(SVS)),AP(NEAR))+1),ALT{ if(a) NONE; P(LT(RB(i),A(BS,i)),GT(LS(i),A(SL,i)),LT(US(i),A(SVS,i)),LTE(BOT(i),L(i-1)+A(NEAR,i-1))); return 100; }},
{"CDLHANGINGMAN",2,LB(M(M(M(AP(BS),AP(SL)),AP(SVS)),AP(NEAR))+1),ALT{ if(a) NONE; P(LT(RB(i),A(BS,i)),GT(LS(i),A(SL,i)),LT(US(i),A(SVS,i)),GTE(BOT(i),H(i-1)-A(NEAR,i-1))); return -100; }},
{"CDLHARAMI",2,LB(M(AP(BS),AP(BL))+1),ALT{ if(a>3) NONE; int d=a&1?-1:1; if(a<2) P(GT(RB(i-1),A(BL,i-1)),LTE(RB(i),A(BS,i)),T(TOP(i)<TOP(i-1)),T(BOT(i)>BOT(i-1)),T(COL(i-1)==-d)); else P(GT(RB(i-1),A(BL,i-1)),LTE(RB(i),A(BS,i)),T(TOP(i)<=TOP(i-1)),T(BOT(i)>=BOT(i-1)),T(COL(i-1)==-d),T(TOP(i)==TOP(i-1)||BOT(i)==BOT(i-1))); return d*(a<2?100:80); }},
{"CDLHARAMICROSS",2,LB(M(AP(BD),AP(BL))+1),ALT{ if(a>3) NONE; int d=a&1?-1:1; if(a<2) P(GT(RB(i-1),A(BL,i-1)),LTE(RB(i),A(BD,i)),T(TOP(i)<TOP(i-1)),T(BOT(i)>BOT(i-1)),T(COL(i-1)==-d)); else P(GT(RB(i-1),A(BL,i-1)),LTE(RB(i),A(BD,i)),T(TOP(i)<=TOP(i-1)),T(BOT(i)>=BOT(i-1)),T(COL(i-1)==-d),T(TOP(i)==TOP(i-1)||BOT(i)==BOT(i-1))); return d*(a<2?100:80); }},
{"CDLHIGHWAVE",1,LB(M(AP(BS),AP(SVL))),ALT{ if(a>1) NONE; P(LT(RB(i),A(BS,i)),GT(US(i),A(SVL,i)),GT(LS(i),A(SVL,i)),T(COL(i)==(a?-1:1))); return a?-100:100; }},
{"CDLHIKKAKE",4,LB(5),ALT{ if(a>3) NONE; int d=a&1?-1:1; int j=a<2?i:i-1; P(T(H(j-1)<H(j-2)),T(L(j-1)>L(j-2)),T(d>0?H(j)<H(j-1):H(j)>H(j-1)),T(d>0?L(j)<L(j-1):L(j)>L(j-1))); if(a>=2) v.push_back(T(d>0?C(i)>H(j-1):C(i)<L(j-1))); return d*(a<2?100:200); }},
{"CDLHIKKAKEMOD",5,LB(M(1,AP(NEAR))+5),ALT{ if(a>3) NONE; int d=a&1?-1:1; int j=a<2?i:i-1; hikModConds(k,j,d,v); if(a>=2) v.push_back(T(d>0?C(i)>H(j-1):C(i)<L(j-1))); return d*(a<2?100:200); }},
{"CDLHOMINGPIGEON",2,LB(M(AP(BS),AP(BL))+1),ALT{ if(a) NONE; P(T(COL(i-1)==-1),T(COL(i)==-1),GT(RB(i-1),A(BL,i-1)),LTE(RB(i),A(BS,i)),T(O(i)<O(i-1)),T(C(i)>C(i-1))); return 100; }},
{"CDLIDENTICAL3CROWS",3,LB(M(AP(SVS),AP(EQ))+2),ALT{ if(a) NONE; P(T(COL(i-2)==-1),LT(LS(i-2),A(SVS,i-2)),T(COL(i-1)==-1),LT(LS(i-1),A(SVS,i-1)),T(COL(i)==-1),LT(LS(i),A(SVS,i)),T(C(i-2)>C(i-1)),T(C(i-1)>C(i)),LTE(O(i-1),C(i-2)+A(EQ,i-2)),GTE(O(i-1),C(i-2)-A(EQ,i-2)),LTE(O(i),C(i-1)+A(EQ,i-1)),GTE(O(i),C(i-1)-A(EQ,i-1))); return -100; }},
{"CDLINNECK",2,LB(M(AP(EQ),AP(BL))+1),ALT{ if(a) NONE; P(T(COL(i-1)==-1),GT(RB(i-1),A(BL,i-1)),T(COL(i)==1),T(O(i)<L(i-1)),LTE(C(i),C(i-1)+A(EQ,i-1)),T(C(i)>=C(i-1))); return -100; }},
{"CDLINVERTEDHAMMER",2,LB(M(M(AP(BS),AP(SL)),AP(SVS))+1),ALT{ if(a) NONE; P(LT(RB(i),A(BS,i)),GT(US(i),A(SL,i)),LT(LS(i),A(SVS,i)),T(GD(i,i-1))); return 100; }},
{"CDLKICKING",2,LB(M(AP(SVS),AP(BL))+1),ALT{ if(a>1) NONE; int d=a?-1:1; P(T(COL(i)==d),T(COL(i-1)==-d),GT(RB(i-1),A(BL,i-1)),LT(US(i-1),A(SVS,i-1)),LT(LS(i-1),A(SVS,i-1)),GT(RB(i),A(BL,i)),LT(US(i),A(SVS,i)),LT(LS(i),A(SVS,i)),T(d>0?CGU(i,i-1):CGD(i,i-1))); return d*100; }},
{"CDLKICKINGBYLENGTH",2,LB(M(AP(SVS),AP(BL))+1),ALT{ if(a>3) NONE; int d=a&1?-1:1; P(T(COL(i)==d),T(COL(i-1)==-d),GT(RB(i-1),A(BL,i-1)),LT(US(i-1),A(SVS,i-1)),LT(LS(i-1),A(SVS,i-1)),GT(RB(i),A(BL,i)),LT(US(i),A(SVS,i)),LT(LS(i),A(SVS,i)),T(d>0?CGU(i,i-1):CGD(i,i-1)),a<2?GT(RB(i),RB(i-1)):LTE(RB(i),RB(i-1))); return (a<2?d:-d)*100; }},
{"CDLLADDERBOTTOM",5,LB(AP(SVS)+4),ALT{ if(a) NONE; P(T(COL(i-4)==-1),T(COL(i-3)==-1),T(COL(i-2)==-1),T(O(i-4)>O(i-3)),T(O(i-3)>O(i-2)),T(C(i-4)>C(i-3)),T(C(i-3)>C(i-2)),T(COL(i-1)==-1),GT(US(i-1),A(SVS,i-1)),T(COL(i)==1),T(O(i)>O(i-1)),T(C(i)>H(i-1))); return 100; }},
{"CDLLONGLEGGEDDOJI",1,LB(M(AP(BD),AP(SL))),ALT{ if(a>1) NONE; P(LTE(RB(i),A(BD,i)),GT(a?US(i):LS(i),A(SL,i))); return 100; }},
{"CDLLONGLINE",1,LB(M(AP(BL),AP(SS))),ALT{ if(a>1) NONE; P(GT(RB(i),A(BL,i)),LT(US(i),A(SS,i)),LT(LS(i),A(SS,i)),T(COL(i)==(a?-1:1))); return a?-100:100; }},
{"CDLMARUBOZU",1,LB(M(AP(BL),AP(SVS))),ALT{ if(a>1) NONE; P(GT(RB(i),A(BL,i)),LT(US(i),A(SVS,i)),LT(LS(i),A(SVS,i)),T(COL(i)==(a?-1:1))); return a?-100:100; }},
{"CDLMATCHINGLOW",2,LB(AP(EQ)+1),ALT{ if(a) NONE; P(T(COL(i-1)==-1),T(COL(i)==-1),LTE(C(i),C(i-1)+A(EQ,i-1)),GTE(C(i),C(i-1)-A(EQ,i-1))); return 100; }},
{"CDLMATHOLD",5,LB(M(AP(BS),AP(BL))+4),ALT{ if(a) NONE; P(GT(RB(i-4),A(BL,i-4)),LT(RB(i-3),A(BS,i-3)),LT(RB(i-2),A(BS,i-2)),LT(RB(i-1),A(BS,i-1)),T(COL(i-4)==1),T(COL(i-3)==-1),T(COL(i)==1),T(GU(i-3,i-4)),T(BOT(i-2)<C(i-4)),T(BOT(i-1)<C(i-4)),GT(BOT(i-2),C(i-4)-RB(i-4)*k.pen),GT(BOT(i-1),C(i-4)-RB(i-4)*k.pen),T(TOP(i-2)<O(i-3)),T(TOP(i-1)<TOP(i-2)),T(O(i)>C(i-1)),T(C(i)>M(M(H(i-3),H(i-2)),H(i-1)))); return 100; }},
{"CDLMORNINGDOJISTAR",3,LB(M(M(AP(BD),AP(BL)),AP(BS))+2),ALT{ if(a) NONE; P(GT(RB(i-2),A(BL,i-2)),T(COL(i-2)==-1),LTE(RB(i-1),A(BD,i-1)),T(GD(i-1,i-2)),GT(RB(i),A(BS,i)),T(COL(i)==1),GT(C(i),C(i-2)+RB(i-2)*k.pen)); return 100; }},
{"CDLMORNINGSTAR",3,LB(M(AP(BS),AP(BL))+2),ALT{ if(a) NONE; P(GT(RB(i-2),A(BL,i-2)),T(COL(i-2)==-1),LTE(RB(i-1),A(BS,i-1)),T(GD(i-1,i-2)),GT(RB(i),A(BS,i)),T(COL(i)==1),GT(C(i),C(i-2)+RB(i-2)*k.pen)); return 100; }},
{"CDLONNECK",2,LB(M(AP(EQ),AP(BL))+1),ALT{ if(a) NONE; P(T(COL(i-1)==-1),GT(RB(i-1),A(BL,i-1)),T(COL(i)==1),T(O(i)<L(i-1)),LTE(C(i),L(i-1)+A(EQ,i-1)),GTE(C(i),L(i-1)-A(EQ,i-1))); return -100; }},
{"CDLPIERCING",2,LB(AP(BL)+1),ALT{ if(a) NONE; P(T(COL(i-1)==-1),GT(RB(i-1),A(BL,i-1)),T(COL(i)==1),GT(RB(i),A(BL,i)),T(O(i)<L(i-1)),T(C(i)<O(i-1)),GT(C(i),C(i-1)+RB(i-1)*0.5)); return 100; }},
{"CDLRICKSHAWMAN",1,LB(M(M(AP(BD),AP(SL)),AP(NEAR))),ALT{ if(a) NONE; P(LTE(RB(i),A(BD,i)),GT(LS(i),A(SL,i)),GT(US(i),A(SL,i)),LTE(BOT(i),L(i)+(H(i)-L(i))/2+A(NEAR,i)),GTE(TOP(i),L(i)+(H(i)-L(i))/2-A(NEAR,i))); return 100; }},
{"CDLRISEFALL3METHODS",5,LB(M(AP(BS),AP(BL))+4),ALT{ if(a>1) NONE; int d=a?-1:1; P(GT(RB(i-4),A(BL,i-4)),LT(RB(i-3),A(BS,i-3)),LT(RB(i-2),A(BS,i-2)),LT(RB(i-1),A(BS,i-1)),GT(RB(i),A(BL,i)),T(COL(i-4)==d),T(COL(i-3)==-d),T(COL(i-2)==-d),T(COL(i-1)==-d),T(COL(i)==d),T(BOT(i-3)<H(i-4)),T(TOP(i-3)>L(i-4)),T(BOT(i-2)<H(i-4)),T(TOP(i-2)>L(i-4)),T(BOT(i-1)<H(i-4)),T(TOP(i-1)>L(i-4)),T(C(i-2)*d<C(i-3)*d),T(C(i-1)*d<C(i-2)*d),T(O(i)*d>C(i-1)*d),T(C(i)*d>C(i-4)*d)); return d*100; }},
{"CDLSEPARATINGLINES",2,LB(M(M(AP(SVS),AP(BL)),AP(EQ))+1),ALT{ if(a>1) NONE; int d=a?-1:1; P(T(COL(i-1)==-d),T(COL(i)==d),LTE(O(i),O(i-1)+A(EQ,i-1)),GTE(O(i),O(i-1)-A(EQ,i-1)),GT(RB(i),A(BL,i)),LT(d>0?LS(i):US(i),A(SVS,i))); return d*100; }},
{"CDLSHOOTINGSTAR",2,LB(M(M(AP(BS),AP(SL)),AP(SVS))+1),ALT{ if(a) NONE; P(LT(RB(i),A(BS,i)),GT(US(i),A(SL,i)),LT(LS(i),A(SVS,i)),T(GU(i,i-1))); return -100; }},
{"CDLSHORTLINE",1,LB(M(AP(BS),AP(SS))),ALT{ if(a>1) NONE; P(LT(RB(i),A(BS,i)),LT(US(i),A(SS,i)),LT(LS(i),A(SS,i)),T(COL(i)==(a?-1:1))); return a?-100:100; }},
{"CDLSPINNINGTOP",1,LB(AP(BS)),ALT{ if(a>1) NONE; P(LT(RB(i),A(BS,i)),GT(US(i),RB(i)),GT(LS(i),RB(i)),T(COL(i)==(a?-1:1))); return a?-100:100; }},
{"CDLSTALLEDPATTERN",3,LB(M(M(AP(BL),AP(BS)),M(AP(SVS),AP(NEAR)))+2),ALT{ if(a) NONE; P(T(COL(i-2)==1),T(COL(i-1)==1),T(COL(i)==1),T(C(i)>C(i-1)),T(C(i-1)>C(i-2)),GT(RB(i-2),A(BL,i-2)),GT(RB(i-1),A(BL,i-1)),LT(US(i-1),A(SVS,i-1)),T(O(i-1)>O(i-2)),LTE(O(i-1),C(i-2)+A(NEAR,i-2)),LT(RB(i),A(BS,i)),GTE(O(i),C(i-1)-RB(i)-A(NEAR,i-1))); return -100; }},
{"CDLSTICKSANDWICH",3,LB(AP(EQ)+2),ALT{ if(a) NONE; P(T(COL(i-2)==-1),T(COL(i-1)==1),T(COL(i)==-1),T(L(i-1)>C(i-2)),LTE(C(i),C(i-2)+A(EQ,i-2)),GTE(C(i),C(i-2)-A(EQ,i-2))); return 100; }},
{"CDLTAKURI",1,LB(M(M(AP(BD),AP(SVS)),AP(SVL))),ALT{ if(a) NONE; P(LTE(RB(i),A(BD,i)),LT(US(i),A(SVS,i)),GT(LS(i),A(SVL,i))); return 100; }},
{"CDLTASUKIGAP",3,LB(AP(NEAR)+2),ALT{ if(a==0){ P(T(GU(i-1,i-2)),T(COL(i-1)==1),T(COL(i)==-1),T(O(i)<C(i-1)),T(O(i)>O(i-1)),T(C(i)<O(i-1)),T(C(i)>TOP(i-2)),LT(std::fabs(RB(i-1)-RB(i)),A(NEAR,i-1))); return 100; } if(a==1){ P(T(GD(i-1,i-2)),T(COL(i-1)==-1),T(COL(i)==1),T(O(i)<O(i-1)),T(O(i)>C(i-1)),T(C(i)>O(i-1)),T(C(i)<BOT(i-2)),LT(std::fabs(RB(i-1)-RB(i)),A(NEAR,i-1))); return -100; } NONE; }},
{"CDLTHRUSTING",2,LB(M(AP(EQ),AP(BL))+1),ALT{ if(a) NONE; P(T(COL(i-1)==-1),GT(RB(i-1),A(BL,i-1)),T(COL(i)==1),T(O(i)<L(i-1)),GT(C(i),C(i-1)+A(EQ,i-1)),LTE(C(i),C(i-1)+RB(i-1)*0.5)); return -100; }},
{"CDLTRISTAR",3,LB(AP(BD)+2),ALT{ if(a>1) NONE; P(LTE(RB(i-2),A(BD,i-2)),LTE(RB(i-1),A(BD,i-2)),LTE(RB(i),A(BD,i-2)),T(a?GD(i-1,i-2):GU(i-1,i-2)),T(a?BOT(i)>BOT(i-1):TOP(i)<TOP(i-1))); return a?100:-100; }},
{"CDLUNIQUE3RIVER",3,LB(M(AP(BS),AP(BL))+2),ALT{ if(a) NONE; P(GT(RB(i-2),A(BL,i-2)),T(COL(i-2)==-1),T(COL(i-1)==-1),T(C(i-1)>C(i-2)),T(O(i-1)<=O(i-2)),T(L(i-1)<L(i-2)),LT(RB(i),A(BS,i)),T(COL(i)==1),T(O(i)>L(i-1))); return 100; }},
{"CDLUPSIDEGAP2CROWS",3,LB(M(AP(BS),AP(BL))+2),ALT{ if(a) NONE; P(T(COL(i-2)==1),GT(RB(i-2),A(BL,i-2)),T(COL(i-1)==-1),LTE(RB(i-1),A(BS,i-1)),T(GU(i-1,i-2)),T(COL(i)==-1),T(O(i)>O(i-1)),T(C(i)<C(i-1)),T(C(i)>C(i-2))); return -100; }},
{"CDLXSIDEGAP3METHODS",3,LB(2),ALT{ if(a>1) NONE; int d=a?-1:1; P(T(COL(i-2)==d),T(COL(i-1)==d),T(COL(i)==-d),T(O(i)<TOP(i-1)),T(O(i)>BOT(i-1)),T(C(i)<TOP(i-2)),T(C(i)>BOT(i-2)),T(d>0?GU(i-1,i-2):GD(i-1,i-2))); return d*100; }},
};
const CandlePat* candlePat(const Str&n){ for(auto&p:PATS) if(n==p.name) return &p; return nullptr; }
static signed char allOf(const TV&v){ signed char m=2; for(auto x:v) m=std::min(m,x); return m; }
int candleValue(const CandlePat&p,const CandleRef&k,int i,bool&und){ und=false; TV v; Str n=p.name;
  if(n=="CDLHIKKAKE"||n=="CDLHIKKAKEMOD"){ // a pattern at j is confirmed by the first of the 3 following bars that closes beyond bar j-1
    int pi=INT_MIN,pr=0,out=0; bool mod=n=="CDLHIKKAKEMOD";
    for(int j=i-3;j<=i;j++){ out=0; int det=0; if(!mod) det=hikDet(k,j,0); else for(int a=0;a<2;a++){ hikModConds(k,j,a?-1:1,v); int t=allOf(v); if(t==1){ und=true; return 0; } if(t==2) det=a?-100:100; }
      if(det){ pi=j; pr=det; out=det; }
      else if(pi!=INT_MIN&&j<=pi+3&&((pr>0&&C(j)>H(pi-1))||(pr<0&&C(j)<L(pi-1)))){ out=pr+(pr>0?100:-100); pi=INT_MIN; } }
    return out; }
  for(int a=0;;a++){ v.clear(); int res=p.alt(k,a,i,v); if(res==INT_MIN) return 0; int t=allOf(v); if(t==2) return res; if(t==1) und=true; } }
double candleScore(const CandlePat&p,const CandleRef&k,int i,int sel){ double best=0; TV v; for(int a=0;;a++){ if(sel>=0&&a<sel) { if(p.alt(k,a,i,v)==INT_MIN) break; continue; } v.clear(); if(p.alt(k,a,i,v)==INT_MIN) break; double s=0; for(auto x:v) s+=x==2?1:x==1?0.5:0; s/=v.size(); best=std::max(best,s); if(sel>=0) break; } return best; }
static bool dyadic(double x,int s=0){ x=std::ldexp(x,-s); return x==std::floor(x*65536)/65536 && std::fabs(x)<1e4; }
bool exactCandles(const Case&c){ CandleSet K[11]; candleSettings(c,K); for(auto&k:K) if(!dyadic(k.fac)||(k.ap&(k.ap-1))) return false; double m=0; for(auto&v:c.in) for(double x:v){ if(!std::isfinite(x)) return false; m=std::max(m,std::fabs(x)); }
  int e=0; if(m>0) std::frexp(m,&e); if(std::abs(e)>400) return false; for(auto&v:c.in) for(double x:v) if(!dyadic(x,e-13)) return false; for(double x:c.o) if(!dyadic(x)) return false; return true; }
void genCandleBars(Rng&r,const CandlePat&p,const CandleSet*K,double pen,int n,OHLCV&b,bool exact){
  int st=exact?7:(int)r.range(0,3); b=genBars(r,n,st==1?7:st==2?7:st); CandleRef k(b.o,b.h,b.l,b.c,K,pen,true); int lb=p.lookback(k);
  double u=exact?0.5:0.25; // step of the mutations
  auto fix=[&](int j){ if(b.o[j]<2) b.o[j]=2; if(b.c[j]<2) b.c[j]=2; b.h[j]=std::max(b.h[j],std::max(b.o[j],b.c[j])); b.l[j]=std::min(b.l[j],std::min(b.o[j],b.c[j])); if(b.l[j]<1) b.l[j]=1; };
  int nalt=0; { TV v; if(n>7) while(p.alt(k,nalt,7,v)!=INT_MIN&&nalt<8) nalt++; }
  std::vector<int> used; for(int q=0;q<11;q++){ CandleRef t=k; t.K[q].ap=1000; if(p.lookback(t)>=1000) used.push_back(q); } // the settings the pattern looks at
  size_t conds=1; { TV v; if(n>7&&p.alt(k,0,7,v)!=INT_MIN) conds=v.size(); }
  int pos=lb+(int)r.range(0,3); if(n>400) pos=std::max(pos,n-60); int room=std::max(p.bars,1);
  while(pos<n){ if(pos<5&&pos<lb){pos++;continue;} int sel=nalt?(int)r.range(0,nalt-1):-1; double sc=candleScore(p,k,pos,sel);
    for(int t=0;t<160&&sc<1;t++){ int j=pos-(int)r.range(0,room-1); if(j<0) continue; double so=b.o[j],sh=b.h[j],sl=b.l[j],sc0=b.c[j]; int j2=-1; double t4[4];
      static const int step[]={1,1,1,2,3,4,6,9,14,20}; double d=u*step[r.range(0,9)]*(r.chance(0.5)?1:-1);
      switch(r.range(0,9)){
        case 0: b.o[j]+=d; break; case 1: b.c[j]+=d; break;
        case 2: b.h[j]=std::max(b.o[j],b.c[j])+(r.chance(0.5)?0:std::fabs(d)); break;
        case 3: b.l[j]=std::min(b.o[j],b.c[j])-(r.chance(0.5)?0:std::fabs(d)); break;
        case 4: b.o[j]+=d; b.c[j]+=d; b.h[j]+=d; b.l[j]+=d; break;
        case 5: std::swap(b.o[j],b.c[j]); break;
        case 6: if(j>0){ b.o[j]=r.chance(0.5)?b.c[j-1]:b.o[j-1]; } break;
        case 7: if(j>0){ double q=r.chance(0.5)?b.c[j-1]:b.o[j-1]; b.c[j]=q; } break;
        case 8: b.c[j]=b.o[j]+(r.chance(0.4)?0:d); b.h[j]=std::max(b.o[j],b.c[j]); b.l[j]=std::min(b.o[j],b.c[j]); break;
        default: { j2=pos-(int)r.range(0,room-1); if(j2<0) { j2=-1; break; } t4[0]=b.o[j2];t4[1]=b.h[j2];t4[2]=b.l[j2];t4[3]=b.c[j2]; if(j2==j){ j2=-1; break; } b.o[j2]+=d;b.c[j2]+=d;b.h[j2]+=d;b.l[j2]+=d; b.o[j]-=d;b.c[j]-=d;b.h[j]-=d;b.l[j]-=d; fix(j2);} }
      fix(j); double s2=candleScore(p,k,pos,sel);
      if(s2>=sc) sc=s2; else { b.o[j]=so;b.h[j]=sh;b.l[j]=sl;b.c[j]=sc0; if(j2>=0){ b.o[j2]=t4[0];b.h[j2]=t4[1];b.l[j2]=t4[2];b.c[j2]=t4[3]; } } }
    if(r.chance(0.3)){ // near miss: nudge one value
      int j=pos-(int)r.range(0,room-1); if(j>=0){ double d=(r.chance(0.3)?u*0.5:u)*(r.chance(0.5)?1:-1); switch(r.range(0,3)){ case 0: b.o[j]+=d; break; case 1: b.c[j]+=d; break; case 2: b.h[j]+=d; break; default: b.l[j]+=d; } fix(j); } }
    if(exact&&r.chance(0.35)) for(int t=0;t<8;t++){ // exact tie: one size of one bar equals one of the averages (or a multiple it is compared with)
      int j=pos-(int)r.range(0,room-1); if(j<1) continue; int s=used.empty()||r.chance(0.1)?(int)r.range(0,10):used[r.range(0,used.size()-1)],ja=r.chance(0.8)?j:pos-(int)r.range(0,room-1); if(ja<K[s].ap||ja<0) continue; double v=k.avg(s,ja); if(v!=std::floor(v*1024)/1024) continue;
      double so=b.o[j],sh=b.h[j],sl=b.l[j],sc0=b.c[j],q0=candleScore(p,k,pos,sel); double d=r.chance(0.5)?v:-v,top=std::max(so,sc0),bot=std::min(so,sc0);
      int op=r.chance(0.2)?(int)r.range(0,7):s<=BD?(r.chance(0.5)?0:7):s<=SVS?(r.chance(0.5)?1:2):(int)r.range(3,6); switch(op){ case 0: b.c[j]=so+(sc0>=so?v:-v); break; case 1: b.h[j]=top+v; break; case 2: b.l[j]=bot-v; break; case 3: b.c[j]=b.c[j-1]+d; break; case 4: b.o[j]=b.o[j-1]+d; break; case 5: b.o[j]=b.c[j-1]+d; break; case 6: b.c[j]=b.l[j-1]+d; break; default: b.o[j]=sc0-(sc0>=so?v:-v); }
      fix(j); double q=candleScore(p,k,pos,sel); if(q<q0-1.01/std::max(1,(int)conds)||r.chance(0.1)){ b.o[j]=so;b.h[j]=sh;b.l[j]=sl;b.c[j]=sc0; } else if(r.chance(0.7)) break; }
    pos+=room+(int)r.range(0,4); } }
Case genCandleCase(Rng&r,const Fn&f,int extra){
  Case c; c.fn=f.name; const CandlePat&p=*candlePat(c.fn); bool exact=r.chance(0.5);
  if(exact){ static const double per[]={0,1,2,4,8,4,2}, fac[]={0.125,0.25,0.5,1,1.5,2,0.0625,1,0.5}; for(int s=0;s<11;s++){ int rt=r.chance(0.6)?(s==BD||s==SVS||s>=NEAR?1:s==SS?2:0):(int)r.range(0,2); static const double df[]={1,3,1,0.125,1,2,1,0.125,0.25,0.5,0.0625}; c.env.push_back({2,(double)s,(double)rt,per[r.range(0,6)],r.chance(0.6)?df[s]:fac[r.range(0,8)]}); } }
  else if(r.chance(0.5)) genEnv(r,f,c,0,0,1);
  double pen=0; if(f.nOpt){ pen= exact? (double)r.range(0,12)/16 : r.chance(0.4)?f.opt[0].def:r.real(0,0.8); c.o.push_back(pen); }
  CandleSet K[11]; candleSettings(c,K); Vec z; CandleRef kk(z,z,z,z,K,pen,true); int lb=p.lookback(kk); int n=std::max(8,lb+1+(int)r.range(0,extra)); if(r.chance(0.004)) n+=(int)r.range(900,2500); OHLCV b; genCandleBars(r,p,K,pen,n,b,exact);
  if(r.chance(0.06)){ size_t i0=(size_t)r.range(0,n-1),len=(size_t)r.range(3,14); for(size_t i=i0+1;i<(size_t)n&&i<i0+len;i++) for(auto*v:{&b.o,&b.h,&b.l,&b.c}) (*v)[i]=(*v)[i0]; } // the same bar again and again
  if(r.chance(0.2)){ // the patterns do not depend on where zero is, nor on the unit: far away, around zero, below it, tiny and huge prices, a jump
    int how=(int)r.range(0,4); double at=r.range(0,n-1); double off=how==0?-b.c[(size_t)at]:how==1?-4096:how==2?0:0; int e=how>=2&&how<4?(r.chance(0.5)?-(int)r.range(8,40):(int)r.range(8,40)):0; if(how<2&&r.chance(0.3)) e=-(int)r.range(1,30); double jump=how==4?std::ldexp(r.chance(0.7)?1:-1,(int)r.range(10,15)):0; size_t j0=(size_t)at,j1=r.chance(0.5)?j0:(size_t)n;
    for(auto*v:{&b.o,&b.h,&b.l,&b.c}) for(size_t i=0;i<v->size();i++){ double&x=(*v)[i]; x+=off; if(jump!=0&&i>=j0&&i<=j1) x+=jump; x=std::ldexp(x,e); } }
  c.in={b.o,b.h,b.l,b.c}; c.p["s"]=r.chance(0.5)?0:(double)r.range(0,lb+6); return c; }
void fixBars(Case&c){ fixN(c); const Fn*f=findFn(c.fn); if(!f) return; int o=-1,h=-1,l=-1,k=-1; for(int i=0;i<f->nIn&&i<(int)c.in.size();i++){ Str s=f->in[i]; if(s=="inOpen") o=i; if(s=="inHigh") h=i; if(s=="inLow") l=i; if(s=="inClose") k=i; }
  size_t n=c.in[0].size(); for(size_t i=0;i<n;i++){ auto in=[&](int q){ return q>=0&&i<c.in[q].size(); };
    if(in(h)&&in(l)&&c.in[l][i]>c.in[h][i]) std::swap(c.in[l][i],c.in[h][i]);
    for(int q:{o,k}) if(in(q)){ if(in(h)) c.in[h][i]=std::max(c.in[h][i],c.in[q][i]); if(in(l)) c.in[l][i]=std::min(c.in[l][i],c.in[q][i]); } } }
