From 40c13c5dafefbd0c56455524c4d83aac84329e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 01/40] fix: state functions without lookback dereferenced
 their NULL memory

---
 ta-lib-rt/c/include/ta_defs.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/include/ta_defs.h b/ta-lib-rt/c/include/ta_defs.h
index a02309c..242cb01 100644
--- a/ta-lib-rt/c/include/ta_defs.h
+++ b/ta-lib-rt/c/include/ta_defs.h
@@ -212,8 +212,11 @@
 #define MEM_IDX(idx) VALUE_HANDLE_DEREF( (STATE.memory+idx) )
 #define MEM_IDX_NS(ns,idx) MEM_IDX(idx).ns
 #define FOR_ALL_MEM(i) for (i = 0; i < MEM_SIZE; ++i)
-#define PUSH_TO_MEM(x,y) MEM_IDX_NS(x, _cur_idx) = y
-#define POP_FROM_MEM(x) MEM_IDX_NS(x, _cur_idx)
+/* A function without lookback keeps no history: nothing is stored, and the oldest
+ * value of its window is the current input (memory fields are named after inputs).
+ */
+#define PUSH_TO_MEM(x,y) do { if (MEM_SIZE > 0) MEM_IDX_NS(x, _cur_idx) = y; } while (0)
+#define POP_FROM_MEM(x) (MEM_SIZE > 0 ? MEM_IDX_NS(x, _cur_idx) : x)
 #define NEED_MORE_DATA STATE.mem_size > STATE.mem_index - 1
 #define LAST_NEED_MORE_DATA STATE.mem_size == STATE.mem_index
 #define FIRST_LAUNCH (STATE.mem_index == 1)
-- 
2.43.0


From f0635584cfc83ebe51c0feb0cc1f25c0944dae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:37 +0000
Subject: [PATCH 02/40] fix: TA_SUM_State returned its input instead of the sum

---
 ta-lib-rt/c/src/ta_func/ta_SUM.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_SUM.c b/ta-lib-rt/c/src/ta_func/ta_SUM.c
index f8c4179..d31b31e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SUM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SUM.c
@@ -357,10 +357,10 @@
       return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
    } else {             
-       _state->tempSum -= POP_FROM_MEM(inReal);
        _state->tempSum += inReal;
+       VALUE_HANDLE_DEREF(outReal) = _state->tempSum;
+       _state->tempSum -= POP_FROM_MEM(inReal);
        PUSH_TO_MEM(inReal,inReal);
-       VALUE_HANDLE_DEREF(outReal) = inReal;
        return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
    }
 
-- 
2.43.0


From 41b84198de295e53696edb9eafb5cf2c2c2fe2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:05 +0000
Subject: [PATCH 03/40] fix: TA_AVGDEV_State averaged a window one bar too
 short

---
 ta-lib-rt/c/src/ta_func/ta_AVGDEV.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c b/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
index 47682c2..31f7bde 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
@@ -340,11 +340,10 @@
    }
 
 
-   STATE.sum -= POP_FROM_MEM(inReal);
+   /* The memory holds the previous period-1 values. */
    STATE.sum += inReal;
-   PUSH_TO_MEM(inReal, inReal);
 
-   temp = 0.0;
+   temp = std_fabs(inReal - STATE.sum / STATE.optInTimePeriod);
 
    FOR_ALL_MEM(i) {
        temp += std_fabs(MEM_IDX_NS(inReal,i) - STATE.sum / STATE.optInTimePeriod);
@@ -352,6 +351,9 @@
 
    VALUE_HANDLE_DEREF(outReal) = temp / STATE.optInTimePeriod;
 
+   STATE.sum -= POP_FROM_MEM(inReal);
+   PUSH_TO_MEM(inReal, inReal);
+
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
 
-- 
2.43.0


From 672d6b2a9eaebc32075454adac6407a2522ea7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:05 +0000
Subject: [PATCH 04/40] fix: state functions of the linear regression family
 gave wrong or undefined values

The warm-up code of LINEARREG_ANGLE, LINEARREG_INTERCEPT, LINEARREG_SLOPE and
TSF was compiled out (wrong SUPPRESS macro name), and the weights of the
running sum of x*y were off by one.
---
 ta-lib-rt/c/src/ta_func/ta_LINEARREG.c           | 6 +++---
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c     | 8 ++++----
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c | 8 ++++----
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c     | 8 ++++----
 ta-lib-rt/c/src/ta_func/ta_TSF.c                 | 8 ++++----
 5 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
index 82a880c..22568b5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
@@ -368,14 +368,14 @@
 
    if (NEED_MORE_DATA)
    {
+       STATE.SumXY += STATE.SumY; // each previous value gets one bar older, the new one has weight 0
        STATE.SumY += inReal;
-       STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
       PUSH_TO_MEM(inReal,inReal);
       return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
    }
 
+   STATE.SumXY += STATE.SumY; // each previous value gets one bar older, the new one has weight 0
    STATE.SumY += inReal;
-   STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
 
    m = ( STATE.optInTimePeriod * STATE.SumXY - STATE.SumX * STATE.SumY) / STATE.Divisor;
    b = ( STATE.SumY - m * STATE.SumX ) / (double)STATE.optInTimePeriod;
@@ -383,7 +383,7 @@
 
    tempReal = POP_FROM_MEM(inReal);
    STATE.SumY -= tempReal;
-   STATE.SumXY  -= tempReal*STATE.optInTimePeriod;
+   STATE.SumXY  -= tempReal*(STATE.optInTimePeriod-1);
    PUSH_TO_MEM(inReal,inReal);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
index f0e189b..2d1670d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
@@ -327,7 +327,7 @@
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-#define TA_LINEARREG_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
+#define TA_LINEARREG_ANGLE_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double m, tempReal;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -369,21 +369,21 @@ double m, tempReal;
 
         if (NEED_MORE_DATA)
         {
+            STATE.SumXY += STATE.SumY; // each previous value gets one bar older, the new one has weight 0
             STATE.SumY += inReal;
-            STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
            PUSH_TO_MEM(inReal,inReal);
            return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
         }
 
+        STATE.SumXY += STATE.SumY; // each previous value gets one bar older, the new one has weight 0
         STATE.SumY += inReal;
-        STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
 
         m = ( STATE.optInTimePeriod * STATE.SumXY - STATE.SumX * STATE.SumY) / STATE.Divisor;
         VALUE_HANDLE_DEREF(outReal) = std_atan(m) * ( 180.0 / PI );
 
         tempReal = POP_FROM_MEM(inReal);
         STATE.SumY -= tempReal;
-        STATE.SumXY  -= tempReal*STATE.optInTimePeriod;
+        STATE.SumXY  -= tempReal*(STATE.optInTimePeriod-1);
         PUSH_TO_MEM(inReal,inReal);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
index 7e88184..c082e2c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
@@ -325,7 +325,7 @@
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-#define TA_LINEARREG_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
+#define TA_LINEARREG_INTERCEPT_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double m, tempReal;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -367,14 +367,14 @@ double m, tempReal;
 
         if (NEED_MORE_DATA)
         {
+            STATE.SumXY += STATE.SumY; // each previous value gets one bar older, the new one has weight 0
             STATE.SumY += inReal;
-            STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
            PUSH_TO_MEM(inReal,inReal);
            return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
         }
 
+        STATE.SumXY += STATE.SumY; // each previous value gets one bar older, the new one has weight 0
         STATE.SumY += inReal;
-        STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
 
         m = ( STATE.optInTimePeriod * STATE.SumXY - STATE.SumX * STATE.SumY) / STATE.Divisor;
 
@@ -382,7 +382,7 @@ double m, tempReal;
 
         tempReal = POP_FROM_MEM(inReal);
         STATE.SumY -= tempReal;
-        STATE.SumXY  -= tempReal*STATE.optInTimePeriod;
+        STATE.SumXY  -= tempReal*(STATE.optInTimePeriod-1);
         PUSH_TO_MEM(inReal,inReal);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
index 3b3e44e..ed3f355 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
@@ -323,7 +323,7 @@
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-#define TA_LINEARREG_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
+#define TA_LINEARREG_SLOPE_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double tempReal;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -365,20 +365,20 @@ double tempReal;
 
         if (NEED_MORE_DATA)
         {
+            STATE.SumXY += STATE.SumY; // each previous value gets one bar older, the new one has weight 0
             STATE.SumY += inReal;
-            STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
            PUSH_TO_MEM(inReal,inReal);
            return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
         }
 
+        STATE.SumXY += STATE.SumY; // each previous value gets one bar older, the new one has weight 0
         STATE.SumY += inReal;
-        STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
 
         VALUE_HANDLE_DEREF(outReal) = ( STATE.optInTimePeriod * STATE.SumXY - STATE.SumX * STATE.SumY) / STATE.Divisor;
 
         tempReal = POP_FROM_MEM(inReal);
         STATE.SumY -= tempReal;
-        STATE.SumXY  -= tempReal*STATE.optInTimePeriod;
+        STATE.SumXY  -= tempReal*(STATE.optInTimePeriod-1);
         PUSH_TO_MEM(inReal,inReal);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TSF.c b/ta-lib-rt/c/src/ta_func/ta_TSF.c
index f6e7847..5663a8d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TSF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TSF.c
@@ -326,7 +326,7 @@
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-#define TA_LINEARREG_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
+#define TA_TSF_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double m, b, tempReal;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
@@ -368,14 +368,14 @@ double m, b, tempReal;
 
         if (NEED_MORE_DATA)
         {
+            STATE.SumXY += STATE.SumY; // each previous value gets one bar older, the new one has weight 0
             STATE.SumY += inReal;
-            STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
            PUSH_TO_MEM(inReal,inReal);
            return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
         }
 
+        STATE.SumXY += STATE.SumY; // each previous value gets one bar older, the new one has weight 0
         STATE.SumY += inReal;
-        STATE.SumXY += STATE.SumY; // at the end shall be (i*a+(i-1)*b+(i-2)*c ... +z)
 
         m = ( STATE.optInTimePeriod * STATE.SumXY - STATE.SumX * STATE.SumY) / STATE.Divisor;
         b = ( STATE.SumY - m * STATE.SumX ) / (double)STATE.optInTimePeriod;
@@ -383,7 +383,7 @@ double m, b, tempReal;
 
         tempReal = POP_FROM_MEM(inReal);
         STATE.SumY -= tempReal;
-        STATE.SumXY  -= tempReal*STATE.optInTimePeriod;
+        STATE.SumXY  -= tempReal*(STATE.optInTimePeriod-1);
         PUSH_TO_MEM(inReal,inReal);
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-- 
2.43.0


From 8024522250698b6733f405712444f68616d6335f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 05/40] fix: TA_APO/TA_PPO_StateInit refused WLMA and swapped
 periods before defaults were set

---
 ta-lib-rt/c/src/ta_func/ta_APO.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_APO.c b/ta-lib-rt/c/src/ta_func/ta_APO.c
index 4ffec00..74727b1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_APO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_APO.c
@@ -491,15 +491,6 @@ TA_RetCode TA_PREFIX(INT_PO)( int    startIdx,
 
 int tempInteger;
 TA_RetCode retCode;
-if( optInSlowPeriod < optInFastPeriod )
-{
-    /* swap */
-    tempInteger     = optInSlowPeriod;
-    optInSlowPeriod = optInFastPeriod;
-    optInFastPeriod = tempInteger;
-}
-
-
  #ifndef TA_FUNC_NO_RANGE_CHECK
 
     if (_state == NULL)
@@ -519,10 +510,18 @@ if( optInSlowPeriod < optInFastPeriod )
     #if !defined(_MANAGED) && !defined(_JAVA)
     if( (int)optInMAType == TA_INTEGER_DEFAULT )
        optInMAType = (TA_MAType)0;
-    else if( ((int)optInMAType < 0) || ((int)optInMAType > 8) )
+    else if( ((int)optInMAType < 0) || ((int)optInMAType > 9) )
        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
     #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
+    if( optInSlowPeriod < optInFastPeriod )
+    {
+        /* swap */
+        tempInteger     = optInSlowPeriod;
+        optInSlowPeriod = optInFastPeriod;
+        optInFastPeriod = tempInteger;
+    }
+
     STATE = TA_Calloc(1, sizeof(struct TA_APO_State));
     STATE_P.mem_index = 0;
     STATE_P.optInFastPeriod = optInFastPeriod;
-- 
2.43.0


From 0de176fbdb6e35a0a1d788b66687939a9dfc1da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 06/40] fix: TA_EMA_State/TA_WLMA_State counted the seed bar
 twice with an unstable period

---
 ta-lib-rt/c/src/ta_func/ta_EMA.c  | 2 ++
 ta-lib-rt/c/src/ta_func/ta_WLMA.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_EMA.c b/ta-lib-rt/c/src/ta_func/ta_EMA.c
index 1e9b0da..1891871 100644
--- a/ta-lib-rt/c/src/ta_func/ta_EMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_EMA.c
@@ -514,6 +514,8 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
                       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
                   }
 
+                  /* Within the unstable period: this bar is already in the seed. */
+                  return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
                 } else
                   return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
           }
diff --git a/ta-lib-rt/c/src/ta_func/ta_WLMA.c b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
index 3eed354..8b9b4d4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WLMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
@@ -511,6 +511,8 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
                       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
                   }
 
+                  /* Within the unstable period: this bar is already in the seed. */
+                  return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
                 } else
                   return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
           }
-- 
2.43.0


From 68ba4b7d29779fd65817272626da7682df891051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:53 +0000
Subject: [PATCH 07/40] fix: TA_EMA_State/TA_WLMA_State of period 1 skipped the
 first bar in Metastock mode

---
 ta-lib-rt/c/src/ta_func/ta_EMA.c  | 3 ++-
 ta-lib-rt/c/src/ta_func/ta_WLMA.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_EMA.c b/ta-lib-rt/c/src/ta_func/ta_EMA.c
index 1891871..d74d03d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_EMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_EMA.c
@@ -524,7 +524,8 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
            if (FIRST_LAUNCH)
             {
               STATE.prevMA = inReal;
-              return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+              if (NEED_MORE_DATA)
+                 return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
             }
       }
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_WLMA.c b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
index 8b9b4d4..4a1675f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WLMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
@@ -521,7 +521,8 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
            if (FIRST_LAUNCH)
             {
               STATE.prevMA = inReal;
-              return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+              if (NEED_MORE_DATA)
+                 return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
             }
       }
 
-- 
2.43.0


From e893d2e7d832563c8dbf1b21b2e79bde92271d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 08/40] fix: TA_KAMA_State looked too far back with an unstable
 period

---
 ta-lib-rt/c/src/ta_func/ta_KAMA.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_KAMA.c b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
index 315b8ab..3032717 100644
--- a/ta-lib-rt/c/src/ta_func/ta_KAMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
@@ -485,11 +485,12 @@
 
      if (((int)STATE.mem_index-1) > STATE.optInTimePeriod)
      {
-         STATE.sumROC1 -= std_fabs(STATE.trailingValue-POP_FROM_MEM(inReal));
+         STATE.sumROC1 -= std_fabs(STATE.trailingValue-MEM_IDX_NS(inReal, GET_LOCAL_IDX(MEM_SIZE - STATE.optInTimePeriod)));
          STATE.sumROC1 += std_fabs(inReal-STATE.yestReal);
      }
 
-    STATE.trailingValue = POP_FROM_MEM(inReal);
+    /* The memory also covers the unstable period: go back optInTimePeriod values. */
+    STATE.trailingValue = MEM_IDX_NS(inReal, GET_LOCAL_IDX(MEM_SIZE - STATE.optInTimePeriod));
     periodROC = inReal - STATE.trailingValue;
 
 
-- 
2.43.0


From 6aca6f8781ddd71402fd45d01a2c80b34f0bd86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 09/40] fix: TA_ULTOSC_State was wrong when a period is 1

---
 ta-lib-rt/c/src/ta_func/ta_ULTOSC.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
index e7a3bbf..157c7fb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
@@ -582,6 +582,10 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
         STATE.b1Total += trueRange;
     }
 
+    /* Stored before the removals below: a period of 1 removes the current bar. */
+    CIRCBUF_STRUCT_CURRENT_EL(ULTOSC, periodA) = closeMinusTrueLow;
+    CIRCBUF_STRUCT_CURRENT_EL(ULTOSC, periodB) = trueRange;
+
     if (!(NEED_MORE_DATA))
     {
         tempDouble = 0.0;
@@ -603,8 +607,6 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
         STATE.a1Total -= CIRCBUF_STRUCT_EL(ULTOSC, periodA, idx);
         STATE.b1Total -= CIRCBUF_STRUCT_EL(ULTOSC, periodB, idx);
 }
-    CIRCBUF_STRUCT_CURRENT_EL(ULTOSC, periodA) = closeMinusTrueLow;
-    CIRCBUF_STRUCT_CURRENT_EL(ULTOSC, periodB) = trueRange;
 
     CIRCBUF_STRUCT_NEXT( ULTOSC, periodA);
     CIRCBUF_STRUCT_NEXT( ULTOSC, periodB);
-- 
2.43.0


From 8779fbc0e5c97dd644847a6e483794e0dbc1b35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 10/40] fix: TA_SAREXT_State with a start value gave an output
 for the first bar

---
 ta-lib-rt/c/src/ta_func/ta_SAREXT.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
index a5856a2..933df34 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
@@ -888,6 +888,8 @@ if( optInAccelerationShort > optInAccelerationMaxShort )
              {
               STATE.newHigh = inHigh;
               STATE.newLow = inLow;
+              if(STATE.optInStartValue != 0)
+                 return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
              }
 
              if(STATE.optInStartValue == 0)
-- 
2.43.0


From a4f37b6adcac83322971182b7d787e4c2995852f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 11/40] fix: TA_BBANDS_State returned garbage while its moving
 average was warming up

---
 ta-lib-rt/c/src/ta_func/ta_BBANDS.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
index 5f30d63..0b6519e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
@@ -535,6 +535,7 @@
 {
    /* insert local variable here */
   ENUM_DECLARATION(RetCode) retCode;
+  ENUM_DECLARATION(RetCode) retCode2;
   double tempReal, tempReal2;
   #define TA_BBANDS_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
@@ -571,7 +572,8 @@
    /* insert state based TA func code here. */
    retCode = FUNCTION_CALL_STATE(MA)( (struct TA_MA_State*) STATE.stateMA, inReal, &tempReal2 );
    if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) && retCode != ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData)) return retCode;
-   retCode = FUNCTION_CALL_STATE(STDDEV)( (struct TA_STDDEV_State*) STATE.stateSTDDEV, inReal, &tempReal );
+   retCode2 = FUNCTION_CALL_STATE(STDDEV)( (struct TA_STDDEV_State*) STATE.stateSTDDEV, inReal, &tempReal );
+   if (retCode2 != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode2;
    if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
 
 
-- 
2.43.0


From e48f9054453b520fd5ec9c7cac3e8366e512124e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 12/40] fix: TA_ATR_State/TA_NATR_State of period 1 ignored the
 unstable period

---
 ta-lib-rt/c/src/ta_func/ta_ATR.c  | 5 ++++-
 ta-lib-rt/c/src/ta_func/ta_NATR.c | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ATR.c b/ta-lib-rt/c/src/ta_func/ta_ATR.c
index d94e087..f0cb910 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATR.c
@@ -410,7 +410,10 @@ TA_RetCode retCode;
              if( STATE.optInTimePeriod <= 1 )
              {
                 /* No smoothing needed. Just do a TRANGE. */
-                return FUNCTION_CALL_STATE(TRANGE)( (struct TA_TRANGE_State*) STATE.StateTRANGE, inHigh, inLow, inClose, outReal );
+                TA_RetCode trangeRet = FUNCTION_CALL_STATE(TRANGE)( (struct TA_TRANGE_State*) STATE.StateTRANGE, inHigh, inLow, inClose, outReal );
+                if (trangeRet == ENUM_VALUE(RetCode,TA_SUCCESS,Success) && (NEED_MORE_DATA))
+                   trangeRet = ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+                return trangeRet;
              }
 
              TA_RetCode retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index db40d8e..c7a7cc2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -433,7 +433,10 @@ TA_RetCode retCode;
         if( STATE.optInTimePeriod <= 1 )
         {
            /* No smoothing needed. Just do a TRANGE. */
-           return FUNCTION_CALL_STATE(TRANGE)( (struct TA_TRANGE_State*) STATE.StateTRANGE, inHigh, inLow, inClose, outReal );
+           TA_RetCode trangeRet = FUNCTION_CALL_STATE(TRANGE)( (struct TA_TRANGE_State*) STATE.StateTRANGE, inHigh, inLow, inClose, outReal );
+           if (trangeRet == ENUM_VALUE(RetCode,TA_SUCCESS,Success) && (NEED_MORE_DATA))
+              trangeRet = ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+           return trangeRet;
         }
 
         TA_RetCode retCode;
-- 
2.43.0


From 7508329ff5b922ff8da2b79b9e4ae7c8701bd0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 13/40] fix: TA_MACDEXT_State delayed the wrong moving average
 when the fast one has the longer lookback

---
 ta-lib-rt/c/src/ta_func/ta_MACDEXT.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
index 5fcb6dc..c58a83e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
@@ -655,11 +655,17 @@ int tempInteger, tempInteger2;
            tempInteger2 = LOOKBACK_CALL(MA)( STATE.optInFastPeriod, STATE.optInFastMAType );
            if (tempInteger2 < 0) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
-           STATE.fastMADelay = abs( tempInteger - tempInteger2 );
+           /* Both MA give their first value on the same bar: when positive, the
+            * fast MA starts that much later; when negative, the slow MA does.
+            */
+           STATE.fastMADelay = tempInteger - tempInteger2;
          }
 
+        retCode1 = retCode2 = ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+
         /* Calculate the slow MA.  */
-        retCode1 = FUNCTION_CALL_STATE(MA)( STATE.slowMAState, inReal, &slowMA );
+        if (-STATE.fastMADelay < (int) STATE.mem_index)
+           retCode1 = FUNCTION_CALL_STATE(MA)( STATE.slowMAState, inReal, &slowMA );
 
         if( retCode1 != ENUM_VALUE(RetCode,TA_SUCCESS,Success) &&
             retCode1 != ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData))
@@ -668,13 +674,11 @@ int tempInteger, tempInteger2;
 
         /* Calculate the fast MA. */
         if (STATE.fastMADelay < (int) STATE.mem_index)
-        {
-        retCode2 = FUNCTION_CALL_STATE(MA)( STATE.fastMAState, inReal, &fastMA );
+           retCode2 = FUNCTION_CALL_STATE(MA)( STATE.fastMAState, inReal, &fastMA );
 
         if( retCode2 != ENUM_VALUE(RetCode,TA_SUCCESS,Success) &&
             retCode2 != ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData))
            return retCode2;
-        } else return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
 
         if (retCode1 | retCode2)
-- 
2.43.0


From b48a92fe94ec78725af2a47690000d39df58e7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 14/40] fix: TA_TRIMA_State divided by zero or read a stale bar
 with periods below 4

---
 ta-lib-rt/c/src/ta_func/ta_TRIMA.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
index b08c9d5..95c3d12 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
@@ -605,6 +605,13 @@ double tempReal;
     }
 
 
+   if (MEM_SIZE == 0)
+   {
+       /* Period of 1: the window is the current bar. */
+       VALUE_HANDLE_DEREF(outReal) = inReal;
+       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+   }
+
    if (NEED_MORE_DATA)
    { // _cur_idx always < STATE.optInTimePeriod
        if ((int)_cur_idx <= STATE.middleIdx)
@@ -643,6 +650,9 @@ double tempReal;
    STATE.numerator    -= STATE.numeratorSub;
    STATE.numeratorSub -= POP_FROM_MEM(inReal);
 
+   /* The middle can be the current bar when the period is less than 4. */
+   PUSH_TO_MEM(inReal, inReal);
+
    middle = STATE.middleIdx++ % STATE.mem_size;
    tempReal = MEM_IDX_NS(inReal, middle);
    STATE.numeratorSub += tempReal;
@@ -657,10 +667,6 @@ double tempReal;
        STATE.numerator +=  STATE.numeratorAdd;
    }
 
-
-
-   PUSH_TO_MEM(inReal, inReal);
-
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
 
-- 
2.43.0


From 375a78243f35544ee39d7a4688c75996cf38d81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 15/40] fix: TA_T3_State updated twice or skipped a bar with an
 unstable period or period 1

---
 ta-lib-rt/c/src/ta_func/ta_T3.c | 38 +++++++++++++--------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_T3.c b/ta-lib-rt/c/src/ta_func/ta_T3.c
index 7a200c9..85e49f6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_T3.c
+++ b/ta-lib-rt/c/src/ta_func/ta_T3.c
@@ -480,6 +480,11 @@
     STATE.c4 = 1.0 + 3.0 * STATE.optInVFactor - STATE.c1 + 3.0 * t;
    }
 
+   if (STATE.optInTimePeriod == 1 && FIRST_LAUNCH)
+   {
+       /* All the EMAs are seeded with the first bar. */
+       STATE.e1 = STATE.e2 = STATE.e3 = STATE.e4 = STATE.e5 = STATE.e6 = inReal;
+   } else
    if ((int)_cur_idx < STATE.optInTimePeriod)
    {
        STATE.tempReal += inReal;
@@ -554,32 +559,19 @@
                                STATE.tempReal = STATE.e6;
                            } else
                                return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+                       } else
+                       {
+                           STATE.e1  = (STATE.k*inReal)+(STATE.one_minus_k*STATE.e1);
+                           STATE.e2  = (STATE.k*STATE.e1)+(STATE.one_minus_k*STATE.e2);
+                           STATE.e3  = (STATE.k*STATE.e2)+(STATE.one_minus_k*STATE.e3);
+                           STATE.e4  = (STATE.k*STATE.e3)+(STATE.one_minus_k*STATE.e4);
+                           STATE.e5  = (STATE.k*STATE.e4)+(STATE.one_minus_k*STATE.e5);
+                           STATE.e6  = (STATE.k*STATE.e5)+(STATE.one_minus_k*STATE.e6);
                        }
 
+   /* Skip the unstable period. */
    if (NEED_MORE_DATA)
-   {
-
-   STATE.e1  = (STATE.k*inReal)+(STATE.one_minus_k*STATE.e1);
-   STATE.e2  = (STATE.k*STATE.e1)+(STATE.one_minus_k*STATE.e2);
-   STATE.e3  = (STATE.k*STATE.e2)+(STATE.one_minus_k*STATE.e3);
-   STATE.e4  = (STATE.k*STATE.e3)+(STATE.one_minus_k*STATE.e4);
-   STATE.e5  = (STATE.k*STATE.e4)+(STATE.one_minus_k*STATE.e5);
-   STATE.e6  = (STATE.k*STATE.e5)+(STATE.one_minus_k*STATE.e6);
-   return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-   } else
-       if (STATE.firstOutput == 0)
-       {
-           STATE.firstOutput = 1;
-           VALUE_HANDLE_DEREF(outReal) = STATE.c1*STATE.e6+STATE.c2*STATE.e5+STATE.c3*STATE.e4+STATE.c4*STATE.e3;
-           return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
-       }
-
-   STATE.e1  = (STATE.k*inReal)+(STATE.one_minus_k*STATE.e1);
-   STATE.e2  = (STATE.k*STATE.e1)+(STATE.one_minus_k*STATE.e2);
-   STATE.e3  = (STATE.k*STATE.e2)+(STATE.one_minus_k*STATE.e3);
-   STATE.e4  = (STATE.k*STATE.e3)+(STATE.one_minus_k*STATE.e4);
-   STATE.e5  = (STATE.k*STATE.e4)+(STATE.one_minus_k*STATE.e5);
-   STATE.e6  = (STATE.k*STATE.e5)+(STATE.one_minus_k*STATE.e6);
+       return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
 
    VALUE_HANDLE_DEREF(outReal) = STATE.c1*STATE.e6+STATE.c2*STATE.e5+STATE.c3*STATE.e4+STATE.c4*STATE.e3;
 
-- 
2.43.0


From 6273e536f82dccb06260551b2263cd27e3c13505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 16/40] fix: TA_ATR_State/TA_NATR_State of period 1 never
 counted their bars

---
 ta-lib-rt/c/src/ta_func/ta_ATR.c  | 18 +++++++++---------
 ta-lib-rt/c/src/ta_func/ta_NATR.c | 18 +++++++++---------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ATR.c b/ta-lib-rt/c/src/ta_func/ta_ATR.c
index f0cb910..c3545ab 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATR.c
@@ -407,15 +407,6 @@ TA_RetCode retCode;
    /* insert local variable here */
 
 
-             if( STATE.optInTimePeriod <= 1 )
-             {
-                /* No smoothing needed. Just do a TRANGE. */
-                TA_RetCode trangeRet = FUNCTION_CALL_STATE(TRANGE)( (struct TA_TRANGE_State*) STATE.StateTRANGE, inHigh, inLow, inClose, outReal );
-                if (trangeRet == ENUM_VALUE(RetCode,TA_SUCCESS,Success) && (NEED_MORE_DATA))
-                   trangeRet = ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-                return trangeRet;
-             }
-
              TA_RetCode retCode;
 #define TA_ATR_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double tempReal, tempATR;
@@ -448,6 +439,15 @@ double tempReal, tempATR;
 /* Generated */ 
 /**** END GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 
+             if( STATE.optInTimePeriod <= 1 )
+             {
+                /* No smoothing needed. Just do a TRANGE. */
+                TA_RetCode trangeRet = FUNCTION_CALL_STATE(TRANGE)( (struct TA_TRANGE_State*) STATE.StateTRANGE, inHigh, inLow, inClose, outReal );
+                if (trangeRet == ENUM_VALUE(RetCode,TA_SUCCESS,Success) && (NEED_MORE_DATA))
+                   trangeRet = ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+                return trangeRet;
+             }
+
    /* insert state based TA func code here. */
 
    if (FIRST_LAUNCH)
diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index c7a7cc2..985ed87 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -430,15 +430,6 @@ TA_RetCode retCode;
 /**** END GENCODE SECTION 7 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
-        if( STATE.optInTimePeriod <= 1 )
-        {
-           /* No smoothing needed. Just do a TRANGE. */
-           TA_RetCode trangeRet = FUNCTION_CALL_STATE(TRANGE)( (struct TA_TRANGE_State*) STATE.StateTRANGE, inHigh, inLow, inClose, outReal );
-           if (trangeRet == ENUM_VALUE(RetCode,TA_SUCCESS,Success) && (NEED_MORE_DATA))
-              trangeRet = ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-           return trangeRet;
-        }
-
         TA_RetCode retCode;
 #define TA_NATR_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double tempReal, tempATR;
@@ -470,6 +461,15 @@ double tempReal, tempATR;
 /* Generated */ 
 /**** END GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 
+        if( STATE.optInTimePeriod <= 1 )
+        {
+           /* No smoothing needed. Just do a TRANGE. */
+           TA_RetCode trangeRet = FUNCTION_CALL_STATE(TRANGE)( (struct TA_TRANGE_State*) STATE.StateTRANGE, inHigh, inLow, inClose, outReal );
+           if (trangeRet == ENUM_VALUE(RetCode,TA_SUCCESS,Success) && (NEED_MORE_DATA))
+              trangeRet = ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
+           return trangeRet;
+        }
+
    /* insert state based TA func code here. */
         if (FIRST_LAUNCH)
          {
-- 
2.43.0


From e69149d6d5ad28778604dd930688b40a6efb6f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:55 +0000
Subject: [PATCH 17/40] fix: TA_MACDEXT_State delayed averages that are seeded
 with the first bar in Metastock mode

---
 ta-lib-rt/c/src/ta_func/ta_MACDEXT.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
index c58a83e..9f16736 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
@@ -659,6 +659,13 @@ int tempInteger, tempInteger2;
             * fast MA starts that much later; when negative, the slow MA does.
             */
            STATE.fastMADelay = tempInteger - tempInteger2;
+           if( TA_GLOBALS_COMPATIBILITY != ENUM_VALUE(Compatibility,TA_COMPATIBILITY_DEFAULT,Default) )
+           {
+              /* These averages are then always seeded with the very first bar. */
+              ENUM_DECLARATION(MAType) lateMAType = STATE.fastMADelay > 0 ? STATE.optInFastMAType : STATE.optInSlowMAType;
+              if( lateMAType == ENUM_CASE(MAType, TA_MAType_EMA, Ema) || lateMAType == ENUM_CASE(MAType, TA_MAType_WLMA, Wlma) )
+                 STATE.fastMADelay = 0;
+           }
          }
 
         retCode1 = retCode2 = ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-- 
2.43.0


From d49ebe165419122670b2760361b8b0974c547f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:21 +0000
Subject: [PATCH 18/40] fix: TA_BBANDS misaligned its bands when the moving
 average lookback is shorter than the period

---
 ta-lib-rt/c/src/ta_func/ta_BBANDS.c | 44 ++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
index 0b6519e..37fb73b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
@@ -99,6 +99,7 @@
 /**** END GENCODE SECTION 1 - DO NOT DELETE THIS LINE ****/
 {
    /* insert local variable here */
+   int maLookback, stddevLookback;
 
 /**** START GENCODE SECTION 2 - DO NOT DELETE THIS LINE ****/
 /* Generated */ #ifndef TA_FUNC_NO_RANGE_CHECK
@@ -132,8 +133,12 @@
    UNUSED_VARIABLE(optInNbDevUp);
    UNUSED_VARIABLE(optInNbDevDn);
 
-   /* The lookback is driven by the middle band moving average. */
-   return LOOKBACK_CALL(MA)( optInTimePeriod, optInMAType );                          
+   /* The lookback is driven by the middle band moving average, unless
+    * that one does not depend on optInTimePeriod (e.g. MAMA).
+    */
+   maLookback = LOOKBACK_CALL(MA)( optInTimePeriod, optInMAType );
+   stddevLookback = LOOKBACK_CALL(STDDEV)( optInTimePeriod, 1.0 );
+   return max( maLookback, stddevLookback );
 }
 
 /**** START GENCODE SECTION 3 - DO NOT DELETE THIS LINE ****/
@@ -214,6 +219,7 @@
    /* Insert local variables here. */
    ENUM_DECLARATION(RetCode) retCode;
    int i;
+   int maBegIdx, maShift;
    double tempReal, tempReal2;
    ARRAY_REF(tempBuffer1);
    ARRAY_REF(tempBuffer2);
@@ -325,6 +331,13 @@
       return retCode;
    }
 
+   /* Position of the first moving average value, and how many of
+    * these precede the first standard deviation (possible only when
+    * the lookback of the moving average ignores optInTimePeriod).
+    */
+   maBegIdx = (int)VALUE_HANDLE_DEREF(outBegIdx);
+   maShift = 0;
+
    /* Calculate the standard deviation into tempBuffer2. */
    if( optInMAType == ENUM_VALUE(MAType,TA_MAType_SMA,Sma) )
    {
@@ -347,6 +360,11 @@
          VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
          return retCode;
       }
+
+      if( (int)VALUE_HANDLE_DEREF(outNBElement) == 0 )
+         return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
+      maShift = (int)VALUE_HANDLE_DEREF(outBegIdx) - maBegIdx;
    }
 
    /* Copy the MA calculation into the middle band ouput, unless
@@ -355,9 +373,15 @@
    #if !defined(USE_SINGLE_PRECISION_INPUT)
       if( tempBuffer1 != outRealMiddleBand )
       {
-         ARRAY_COPY( outRealMiddleBand, tempBuffer1, VALUE_HANDLE_DEREF(outNBElement) );
+         ARRAY_MEMMOVE( outRealMiddleBand, 0, tempBuffer1, maShift, VALUE_HANDLE_DEREF(outNBElement) );
       }
+      else if( maShift > 0 )
+   #else
+      if( maShift > 0 )
    #endif
+      {
+         ARRAY_MEMMOVE( outRealMiddleBand, 0, outRealMiddleBand, maShift, VALUE_HANDLE_DEREF(outNBElement) );
+      }
 
    /* Now do a tight loop to calculate the upper/lower band at
     * the same time. 
@@ -938,6 +962,7 @@ TA_RetCode retCode;
 /* Generated */ {
 /* Generated */    ENUM_DECLARATION(RetCode) retCode;
 /* Generated */    int i;
+/* Generated */    int maBegIdx, maShift;
 /* Generated */    double tempReal, tempReal2;
 /* Generated */    ARRAY_REF(tempBuffer1);
 /* Generated */    ARRAY_REF(tempBuffer2);
@@ -1011,6 +1036,8 @@ TA_RetCode retCode;
 /* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
 /* Generated */       return retCode;
 /* Generated */    }
+/* Generated */    maBegIdx = (int)VALUE_HANDLE_DEREF(outBegIdx);
+/* Generated */    maShift = 0;
 /* Generated */    if( optInMAType == ENUM_VALUE(MAType,TA_MAType_SMA,Sma) )
 /* Generated */    {
 /* Generated */        FUNCTION_CALL(INT_stddev_using_precalc_ma)( inReal, tempBuffer1, 
@@ -1027,13 +1054,22 @@ TA_RetCode retCode;
 /* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
 /* Generated */          return retCode;
 /* Generated */       }
+/* Generated */       if( (int)VALUE_HANDLE_DEREF(outNBElement) == 0 )
+/* Generated */          return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+/* Generated */       maShift = (int)VALUE_HANDLE_DEREF(outBegIdx) - maBegIdx;
 /* Generated */    }
 /* Generated */    #if !defined(USE_SINGLE_PRECISION_INPUT)
 /* Generated */       if( tempBuffer1 != outRealMiddleBand )
 /* Generated */       {
-/* Generated */          ARRAY_COPY( outRealMiddleBand, tempBuffer1, VALUE_HANDLE_DEREF(outNBElement) );
+/* Generated */          ARRAY_MEMMOVE( outRealMiddleBand, 0, tempBuffer1, maShift, VALUE_HANDLE_DEREF(outNBElement) );
 /* Generated */       }
+/* Generated */       else if( maShift > 0 )
+/* Generated */    #else
+/* Generated */       if( maShift > 0 )
 /* Generated */    #endif
+/* Generated */       {
+/* Generated */          ARRAY_MEMMOVE( outRealMiddleBand, 0, outRealMiddleBand, maShift, VALUE_HANDLE_DEREF(outNBElement) );
+/* Generated */       }
 /* Generated */    if( optInNbDevUp == optInNbDevDn )
 /* Generated */    {
 /* Generated */       if(  optInNbDevUp == 1.0 )
-- 
2.43.0


From de5b438c7d1175e6fdefbe8c93d33eebfffdf909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:21 +0000
Subject: [PATCH 19/40] fix: TA_MAVP returned uninitialized values when the
 minimum period exceeds the maximum

---
 ta-lib-rt/c/src/ta_func/ta_MAVP.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index 34b2bca..e4eb26d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -280,7 +280,7 @@
       tempInt = (int)(inPeriods[startIdx+i]);
 	  if( tempInt < optInMinPeriod )
 		  tempInt = optInMinPeriod;
-	  else if( tempInt > optInMaxPeriod )
+	  if( tempInt > optInMaxPeriod )
           tempInt = optInMaxPeriod;
       localPeriodArray[i] = tempInt;
    }
@@ -813,7 +813,7 @@ TA_RetCode retCode;
 /* Generated */       tempInt = (int)(inPeriods[startIdx+i]);
 /* Generated */ 	  if( tempInt < optInMinPeriod )
 /* Generated */ 		  tempInt = optInMinPeriod;
-/* Generated */ 	  else if( tempInt > optInMaxPeriod )
+/* Generated */ 	  if( tempInt > optInMaxPeriod )
 /* Generated */           tempInt = optInMaxPeriod;
 /* Generated */       localPeriodArray[i] = tempInt;
 /* Generated */    }
-- 
2.43.0


From d2f4f303130b7363fc8e3b9fcc0fe155cbab8ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 20/40] fix: TA_CDL2CROWS_State evaluated and averaged the
 wrong bars

---
 ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
index 1e51a1d..d2512d8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
@@ -361,10 +361,10 @@
             STATE.BodyLongPeriodTotal = 0.;
       }
 
-   if (STATE.mem_index > MEM_SIZE-2)
+   i2 = GET_LOCAL_IDX(-2);
+   if (!(NEED_MORE_DATA))
    {
        i1 = GET_LOCAL_IDX(-1);
-       i2 = GET_LOCAL_IDX(-2);
 
        if( TA_CANDLECOLOR_STATE_IDX(i2) == 1 &&                                                         // 1st: white
            TA_REALBODY_STATE_IDX(i2) > TA_CANDLEAVERAGE_STATE_IDX(  BodyLong,  STATE.BodyLongPeriodTotal, i2 ) &&     //      long
@@ -379,8 +379,13 @@
        else
            VALUE_HANDLE_DEREF(outInteger) = 0;
 
-       STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i2 ) - TA_CANDLERANGE_STATE( BodyLong, -MEM_SIZE );
-   } else  STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyLong );
+   }
+
+   if ((int)STATE.mem_index-1 >= 2)
+       STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX(  BodyLong, i2 );
+
+   if (!(NEED_MORE_DATA))
+       STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE( BodyLong, -(int)MEM_SIZE );
 
 
    PUSH_TO_MEM(inOpen,inOpen);
-- 
2.43.0


From 6f5daa7f4b2749b801523a408c94e93fd51383a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 21/40] fix:
 TA_CDL3BLACKCROWS/3INSIDE/HIGHWAVE/MATHOLD/RISEFALL3METHODS_State averaged
 bars outside of the period

---
 ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c      | 2 +-
 ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c          | 4 ++--
 ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c         | 6 ++++--
 ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c          | 4 ++--
 ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c | 4 ++--
 5 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
index ec59f27..374e12b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
@@ -411,7 +411,7 @@ unsigned int i1,i2,i3;
         }
 
 
-        if (STATE.mem_index-1 >= 2)
+        if ((int)STATE.mem_index-1 >= 3)
         {
           STATE.ShadowVeryShortPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  ShadowVeryShort, i2 );
           STATE.ShadowVeryShortPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  ShadowVeryShort, i1 );
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c b/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
index 24383d6..bbf326c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
@@ -396,12 +396,12 @@ unsigned int i1,i2;
                 }
 
 
-                if (STATE.mem_index-1 >= 2)
+                if ((int)STATE.mem_index-1 >= (int)MEM_SIZE - STATE.periodBodyLong+2)
                 {
                   STATE.BodyLongPeriodTotal += TA_CANDLERANGE_STATE_IDX( BodyLong, i2 );
                 }
 
-                if (STATE.mem_index-1 >= 1)
+                if ((int)STATE.mem_index-1 >= (int)MEM_SIZE - STATE.periodBodyShort+1)
                 {
                   STATE.BodyShortPeriodTotal += TA_CANDLERANGE_STATE_IDX( BodyShort, i1 );
                 }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
index 97e8c4a..95f2f5b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
@@ -371,8 +371,10 @@
                 }
 
 
-                STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
-                STATE.ShadowPeriodTotal += TA_CANDLERANGE_STATE_CUR( ShadowVeryLong );
+                if ((int)STATE.mem_index-1 >= (int)MEM_SIZE - TA_CANDLEAVGPERIOD(BodyShort))
+                   STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR( BodyShort );
+                if ((int)STATE.mem_index-1 >= (int)MEM_SIZE - TA_CANDLEAVGPERIOD(ShadowVeryLong))
+                   STATE.ShadowPeriodTotal += TA_CANDLERANGE_STATE_CUR( ShadowVeryLong );
 
 
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c b/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
index 42dcada..299aeb2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
@@ -478,14 +478,14 @@ int i1, i2, i3, i4;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.periodBodyShort)
+        if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
         {
             STATE.BodyPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i1 );
             STATE.BodyPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i2 );
             STATE.BodyPeriodTotal3 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i3 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.periodBodyLong)
+        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
         {
             STATE.BodyPeriodTotal4 += TA_CANDLERANGE_STATE_IDX(  BodyLong, i4 );
         }
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c b/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
index ca64ff9..0fc45d1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
@@ -443,14 +443,14 @@ int i1, i2, i3, i4;
         }
 
 
-        if ((int)STATE.mem_index-1 >= STATE.periodBodyShort)
+        if ((int)STATE.mem_index-1 >= STATE.gapBodyShort)
         {
             STATE.BodyPeriodTotal1 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i1 );
             STATE.BodyPeriodTotal2 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i2 );
             STATE.BodyPeriodTotal3 += TA_CANDLERANGE_STATE_IDX(  BodyShort, i3 );
         }
 
-        if ((int)STATE.mem_index-1 >= STATE.periodBodyLong)
+        if ((int)STATE.mem_index-1 >= STATE.gapBodyLong)
         {
             STATE.BodyPeriodTotal4 += TA_CANDLERANGE_STATE_IDX(  BodyLong, i4 );
             STATE.BodyPeriodTotal0 += TA_CANDLERANGE_STATE_CUR(  BodyLong );
-- 
2.43.0


From a7dcfd9d584efa449cad32e5bdffbe47e651815f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 22/40] fix:
 TA_CDLABANDONEDBABY/TRISTAR/UNIQUE3RIVER/UPSIDEGAP2CROWS_State started
 averaging at the wrong bar

---
 ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c   | 6 +++---
 ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c         | 2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c    | 2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c b/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
index c419bf3..cf40ca8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
@@ -434,11 +434,11 @@
                   STATE.BodyShortPeriodTotal = 0.;
 
                   STATE.periodBodyLong = TA_CANDLEAVGPERIOD(BodyLong) + 2;
-                  STATE.periodBodyDoji = TA_CANDLEAVGPERIOD(BodyDoji) - 1;
+                  STATE.periodBodyDoji = TA_CANDLEAVGPERIOD(BodyDoji) + 1;
                   STATE.periodBodyShort = TA_CANDLEAVGPERIOD(BodyShort);
 
-                  STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong;
-                  STATE.gapBodyDoji = MEM_SIZE - STATE.periodBodyDoji;
+                  STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong+2;
+                  STATE.gapBodyDoji = MEM_SIZE - STATE.periodBodyDoji+1;
                   STATE.gapBodyShort = MEM_SIZE - STATE.periodBodyShort;
             }
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
index 1ecf297..79a23e8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
@@ -368,7 +368,7 @@ int i1, i2;
            {
                  STATE.BodyPeriodTotal = 0.;
                  STATE.periodBody = TA_CANDLEAVGPERIOD(BodyDoji) + 2;
-                 STATE.gapBody = MEM_SIZE - STATE.periodBody;
+                 STATE.gapBody = MEM_SIZE - STATE.periodBody+2;
            }
 
         i1 = GET_LOCAL_IDX(-1);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c b/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
index d45dfb5..0073ac2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
@@ -372,7 +372,7 @@ int i1,i2;
 
                  STATE.BodyLongPeriodTotal = 0.;
                  STATE.periodBodyLong = TA_CANDLEAVGPERIOD(BodyLong) + 2;
-                 STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong;
+                 STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong+2;
            }
 
         i1 = GET_LOCAL_IDX(-1);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
index fa80293..5aee506 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
@@ -371,11 +371,11 @@ int i1,i2;
                    {
                          STATE.BodyShortPeriodTotal = 0.;
                          STATE.periodBodyShort = TA_CANDLEAVGPERIOD(BodyShort) + 1;
-                         STATE.gapBodyShort = MEM_SIZE - STATE.periodBodyShort;
+                         STATE.gapBodyShort = MEM_SIZE - STATE.periodBodyShort+1;
 
                          STATE.BodyLongPeriodTotal = 0.;
                          STATE.periodBodyLong = TA_CANDLEAVGPERIOD(BodyLong) + 2;
-                         STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong;
+                         STATE.gapBodyLong = MEM_SIZE - STATE.periodBodyLong+2;
                    }
 
                 i1 = GET_LOCAL_IDX(-1);
-- 
2.43.0


From 88222e0ffd777828e6bb249d52ba572c2106029b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 23/40] fix:
 TA_CDLBREAKAWAY/COUNTERATTACK/EVENINGSTAR/MORNINGSTAR/HIKKAKEMOD/STALLEDPATTERN_State
 removed the wrong bar from the average

---
 ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c      | 2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c  | 2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c    | 2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c     | 2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c    | 2 +-
 ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c b/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
index fd4f6a1..caa5b29 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
@@ -420,7 +420,7 @@ unsigned int i1,i2,i3,i4;
 
         if (!(NEED_MORE_DATA))
         {
-         STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE_CUR( BodyLong );
+         STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE( BodyLong, -(int)MEM_SIZE );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c b/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
index 2c8a049..aceca9c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
@@ -413,7 +413,7 @@ unsigned int i1;
         {
          STATE.EqualPeriodTotal -= TA_CANDLERANGE_STATE( Equal, -STATE.periodEqual-1 );
          STATE.BodyLongPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong-1 );
-         STATE.BodyLongPeriodTotal0 -= TA_CANDLERANGE_STATE_CUR( BodyLong );
+         STATE.BodyLongPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
index 51ec7e2..63fe981 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
@@ -458,7 +458,7 @@ int i1,i2;
         {
          STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong );
          STATE.BodyShortPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort );
-         STATE.BodyShortPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyShort, GET_LOCAL_IDX(-STATE.periodBodyShort+1) );
+         STATE.BodyShortPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort+1 );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
index 0a2d90a..48bc4be 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
@@ -464,7 +464,7 @@ int i1,i2,i3;
                     STATE.NearPeriodTotal += TA_CANDLERANGE_STATE_IDX( Near, i2 );
 
                 if ((int)STATE.mem_index-1 >= (int)MEM_SIZE-3)
-                    STATE.NearPeriodTotal -= TA_CANDLERANGE_STATE( Near, -STATE.periodNear-2 );
+                    STATE.NearPeriodTotal -= TA_CANDLERANGE_STATE( Near, -STATE.periodNear+1 );
 
 
                 PUSH_TO_MEM(inOpen,inOpen);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
index 36c9278..8e8b669 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
@@ -448,7 +448,7 @@ int i1,i2;
         {
          STATE.BodyLongPeriodTotal -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong );
          STATE.BodyShortPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort );
-         STATE.BodyShortPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyShort, GET_LOCAL_IDX(-STATE.periodBodyShort+1) );
+         STATE.BodyShortPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort+1 );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c b/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
index 3b5a4ce..deec975 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
@@ -486,7 +486,7 @@ int i1, i2, i3;
           STATE.BodyLongPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong-1 );
           STATE.BodyLongPeriodTotal2 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBodyLong-2 );
           STATE.BodyShortPeriodTotal -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBodyShort );
-          STATE.ShadowVeryShortPeriodTotal -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort );
+          STATE.ShadowVeryShortPeriodTotal -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort-1 );
           STATE.NearPeriodTotal1 -= TA_CANDLERANGE_STATE( Near, -STATE.periodNear-1 );
           STATE.NearPeriodTotal2 -= TA_CANDLERANGE_STATE( Near, -STATE.periodNear-2 );
         }
-- 
2.43.0


From c94c73fe72175ba742e4e89de3efca766051d75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 24/40] fix: TA_CDLKICKING/KICKINGBYLENGTH/SHOOTINGSTAR_State
 mixed body settings in one average

---
 ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c         | 4 ++--
 ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c | 4 ++--
 ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c    | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c b/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
index a097ddb..081f35d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
@@ -439,9 +439,9 @@ int i1;
         if (!(NEED_MORE_DATA))
         {
          STATE.ShadowVeryShortPeriodTotal0 -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort );
-         STATE.BodyPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody );
+         STATE.BodyPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBody );
          STATE.ShadowVeryShortPeriodTotal1 -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort - 1);
-         STATE.BodyPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody - 1 );
+         STATE.BodyPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBody - 1 );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c b/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
index caa3097..7cabf7c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
@@ -446,9 +446,9 @@ int i1;
         if (!(NEED_MORE_DATA))
         {
          STATE.ShadowVeryShortPeriodTotal0 -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort );
-         STATE.BodyPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody );
+         STATE.BodyPeriodTotal0 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBody );
          STATE.ShadowVeryShortPeriodTotal1 -= TA_CANDLERANGE_STATE( ShadowVeryShort, -STATE.periodShadowVeryShort - 1);
-         STATE.BodyPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyShort, -STATE.periodBody - 1 );
+         STATE.BodyPeriodTotal1 -= TA_CANDLERANGE_STATE( BodyLong, -STATE.periodBody - 1 );
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
index c1974d0..45a251f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
@@ -407,7 +407,7 @@ int i1;
 
         if ((int)STATE.mem_index-1 >= STATE.gapBody)
         {
-          STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR(  BodyLong );
+          STATE.BodyPeriodTotal += TA_CANDLERANGE_STATE_CUR(  BodyShort );
         }
 
         if ((int)STATE.mem_index-1 >= STATE.gapShadowLong)
-- 
2.43.0


From c377a9df02387e1d839b5630bf5c496cdfa8e756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 25/40] fix: MACDFIX StateSave/StateLoad handle the MACD state
 it really is

---
 ta-lib-rt/c/src/ta_func/ta_MACDFIX.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c b/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
index 9f6ac53..143e361 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
@@ -496,8 +496,8 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /**** END GENCODE SECTION 11 - DO NOT DELETE THIS LINE ****/
 
 {
-   /* insert local variable here */
-
+   return FUNCTION_CALL_STATE_SAVE(MACD)( (struct TA_MACD_State*) _state, _file );
+#ifdef SUPPRESS_CODE_BLOCK_BELOW
 /**** START GENCODE SECTION 12 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
 /* Generated */ #ifndef TA_FUNC_NO_RANGE_CHECK
@@ -525,6 +525,7 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 
    /* insert state save code here. */   
    return 0;
+#endif
 }
 
 /**** START GENCODE SECTION 13 - DO NOT DELETE THIS LINE ****/
@@ -544,8 +545,8 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /* Generated */ #endif
 /**** END GENCODE SECTION 13 - DO NOT DELETE THIS LINE ****/
 {
-   /* insert local variable here */
-
+   return FUNCTION_CALL_STATE_LOAD(MACD)( (struct TA_MACD_State**) _state, _file );
+#ifdef SUPPRESS_CODE_BLOCK_BELOW
 /**** START GENCODE SECTION 14 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
 /* Generated */ #ifndef TA_FUNC_NO_RANGE_CHECK
@@ -575,6 +576,7 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 
    /* insert state load code here. */   
    return 0;
+#endif
 }
 
 /**** START GENCODE SECTION 15 - DO NOT DELETE THIS LINE ****/
-- 
2.43.0


From d671c3c9588d07236350726aac0a138f2e1fb17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 26/40] fix: report a short read or write of a circular buffer
 header as an I/O error

---
 ta-lib-rt/c/src/ta_common/ta_memory.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_common/ta_memory.h b/ta-lib-rt/c/src/ta_common/ta_memory.h
index ef55221..160bdf4 100644
--- a/ta-lib-rt/c/src/ta_common/ta_memory.h
+++ b/ta-lib-rt/c/src/ta_common/ta_memory.h
@@ -410,9 +410,9 @@
     int io_circbuf_res; \
     struct TA_##taFunc##_STATE_CIRCBUF* str_circbuf = STATE.var; \
     io_circbuf_res = fwrite(&str_circbuf->idx,sizeof(str_circbuf->idx),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     io_circbuf_res = fwrite(&str_circbuf->size,sizeof(str_circbuf->size),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     if (str_circbuf->size > 0) { \
     io_circbuf_res = fwrite(str_circbuf->circbuf,sizeof(type),str_circbuf->size,_file); \
     if (io_circbuf_res < str_circbuf->size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); }\
@@ -422,9 +422,9 @@
     int io_circbuf_res; int circbuf_idx; int circbuf_size;\
     if (STATE_P.var != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam); \
     io_circbuf_res = fread(&circbuf_idx,sizeof(circbuf_idx),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     io_circbuf_res = fread(&circbuf_size,sizeof(circbuf_size),1,_file); \
-    if (io_circbuf_res < 0) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
+    if (io_circbuf_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); \
     CREATE_CIRCBUF_STRUCT(taFunc, var, type, circbuf_size) \
     struct TA_##taFunc##_STATE_CIRCBUF* str_circbuf = STATE_P.var;  \
     str_circbuf->idx = circbuf_idx; \
-- 
2.43.0


From de087fcd91e2fa3ab47ae45c2beb5ca9a565881f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:47 +0000
Subject: [PATCH 27/40] fix: StateFree of composite functions accepts a NULL,
 freed or partly loaded state; NATR frees its period-1 state

---
 ta-lib-rt/c/src/ta_common/ta_memory.h     | 7 +++++++
 ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c     | 1 +
 ta-lib-rt/c/src/ta_func/ta_ADXR.c         | 1 +
 ta-lib-rt/c/src/ta_func/ta_APO.c          | 1 +
 ta-lib-rt/c/src/ta_func/ta_ATR.c          | 1 +
 ta-lib-rt/c/src/ta_func/ta_BBANDS.c       | 1 +
 ta-lib-rt/c/src/ta_func/ta_CCI.c          | 1 +
 ta-lib-rt/c/src/ta_func/ta_DEMA.c         | 1 +
 ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c  | 1 +
 ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c   | 1 +
 ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c    | 1 +
 ta-lib-rt/c/src/ta_func/ta_HT_SINE.c      | 1 +
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c | 1 +
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c | 1 +
 ta-lib-rt/c/src/ta_func/ta_MA.c           | 1 +
 ta-lib-rt/c/src/ta_func/ta_MACD.c         | 1 +
 ta-lib-rt/c/src/ta_func/ta_MACDEXT.c      | 1 +
 ta-lib-rt/c/src/ta_func/ta_MAMA.c         | 1 +
 ta-lib-rt/c/src/ta_func/ta_MAVP.c         | 1 +
 ta-lib-rt/c/src/ta_func/ta_MFI.c          | 1 +
 ta-lib-rt/c/src/ta_func/ta_NATR.c         | 7 +------
 ta-lib-rt/c/src/ta_func/ta_SAR.c          | 1 +
 ta-lib-rt/c/src/ta_func/ta_SAREXT.c       | 1 +
 ta-lib-rt/c/src/ta_func/ta_STDDEV.c       | 1 +
 ta-lib-rt/c/src/ta_func/ta_STOCH.c        | 1 +
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c       | 1 +
 ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c     | 1 +
 ta-lib-rt/c/src/ta_func/ta_TEMA.c         | 1 +
 ta-lib-rt/c/src/ta_func/ta_TRIX.c         | 1 +
 ta-lib-rt/c/src/ta_func/ta_ULTOSC.c       | 1 +
 30 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_common/ta_memory.h b/ta-lib-rt/c/src/ta_common/ta_memory.h
index 160bdf4..f1a0302 100644
--- a/ta-lib-rt/c/src/ta_common/ta_memory.h
+++ b/ta-lib-rt/c/src/ta_common/ta_memory.h
@@ -373,6 +373,13 @@
 
 
 
+/* For the state free functions that release other states or buffers first:
+ * there is nothing to release when the state isn't allocated.
+ */
+#define RETURN_IF_NO_STATE_TO_FREE \
+   if (_state == NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam); \
+   if (*_state == NULL) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
+
 #define DEFINE_CIRCBUF_STRUCT(taFunc, type) \
   struct TA_##taFunc##_STATE_CIRCBUF  { \
        int idx;   \
diff --git a/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c b/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
index 001be92..f6a14cc 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
@@ -602,6 +602,7 @@ double tempReal,tempReal1,tempReal2;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    /* insert local variable here */
    TA_RetCode retCode;
    retCode = FUNCTION_CALL_STATE_FREE(SMA)( (struct TA_SMA_State**) &STATE_P.stateSMA1 );
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADXR.c b/ta-lib-rt/c/src/ta_func/ta_ADXR.c
index fbeae8d..a23ffb7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADXR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADXR.c
@@ -508,6 +508,7 @@ double tempReal;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    /* insert local variable here */
 ENUM_DECLARATION(RetCode) retCode;
 retCode = FUNCTION_CALL_STATE_FREE(ADX)((struct TA_ADX_State**)&STATE_P.ADXState);
diff --git a/ta-lib-rt/c/src/ta_func/ta_APO.c b/ta-lib-rt/c/src/ta_func/ta_APO.c
index 74727b1..7abb284 100644
--- a/ta-lib-rt/c/src/ta_func/ta_APO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_APO.c
@@ -703,6 +703,7 @@ int res1, res2;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    /* insert local variable here */
      int res = FUNCTION_CALL_STATE_FREE(MA)((struct TA_MA_State**)&STATE_P.fastMAState);
      if (res != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return res;
diff --git a/ta-lib-rt/c/src/ta_func/ta_ATR.c b/ta-lib-rt/c/src/ta_func/ta_ATR.c
index c3545ab..c3bb1df 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATR.c
@@ -583,6 +583,7 @@ double tempReal, tempATR;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    /* insert local variable here */
 
         TA_RetCode retCode;
diff --git a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
index 37fb73b..a3e3481 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
@@ -752,6 +752,7 @@
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    /* insert local variable here */
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)( (struct TA_MA_State**) &STATE_P.stateMA );
diff --git a/ta-lib-rt/c/src/ta_func/ta_CCI.c b/ta-lib-rt/c/src/ta_func/ta_CCI.c
index d42dc6a..e8da501 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CCI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CCI.c
@@ -553,6 +553,7 @@ double lastValue, sum, theAverage;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    /* insert local variable here */
   FREE_CIRCBUF_STRUCT(CCI, circBuf);
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
diff --git a/ta-lib-rt/c/src/ta_func/ta_DEMA.c b/ta-lib-rt/c/src/ta_func/ta_DEMA.c
index 7e01523..2f24847 100644
--- a/ta-lib-rt/c/src/ta_func/ta_DEMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_DEMA.c
@@ -557,6 +557,7 @@
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    /* insert local variable here */
 
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c b/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
index a3788a5..28adde5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
@@ -694,6 +694,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPERIOD)
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    /* insert local variable here */
 
         FREE_HILBERT_VARIABLES_STRUCT(detrender);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c b/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
index 4da4838..0e937ac 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
@@ -834,6 +834,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPHASE)
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    /* insert local variable here */
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c b/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
index f382ef1..9adc595 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
@@ -735,6 +735,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_PHASOR)
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    /* insert local variable here */
 
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c b/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
index cf611cf..7beac45 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
@@ -861,6 +861,7 @@ else {
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    /* insert local variable here */
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
index db9fc2c..53f70a4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
@@ -795,6 +795,7 @@ else {
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    /* insert local variable here */
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
index 2e8959c..988b74a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
@@ -964,6 +964,7 @@ double sine, leadSine;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    /* insert local variable here */
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MA.c b/ta-lib-rt/c/src/ta_func/ta_MA.c
index 7e04646..022cd97 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MA.c
@@ -659,6 +659,7 @@ return retValue;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    /* insert local variable here */
 ENUM_DECLARATION(RetCode) retValue;
 
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACD.c b/ta-lib-rt/c/src/ta_func/ta_MACD.c
index c386b82..b59e5cb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACD.c
@@ -942,6 +942,7 @@ k2 = (double)0.15; /* Fix 12 */
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    /* insert local variable here */
     ENUM_DECLARATION(RetCode) retCode;
     retCode = FUNCTION_CALL_STATE_FREE(EMA)((struct TA_EMA_State**)&STATE_P.slowEMAState);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
index 9f16736..677adbe 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
@@ -820,6 +820,7 @@ int tempInteger, tempInteger2;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    /* insert local variable here */
         ENUM_DECLARATION(RetCode) retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)((struct TA_MA_State**)&STATE_P.slowMAState);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAMA.c b/ta-lib-rt/c/src/ta_func/ta_MAMA.c
index 21652e4..e86bec4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAMA.c
@@ -885,6 +885,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(MAMA)
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
     FREE_HILBERT_VARIABLES_STRUCT(detrender);
     FREE_HILBERT_VARIABLES_STRUCT(Q1);
     FREE_HILBERT_VARIABLES_STRUCT(jI);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index e4eb26d..0e0c60e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -568,6 +568,7 @@
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    FUNCTION_CALL_STATE_FREE(MA) ((struct TA_MA_State**)&STATE_P.MAState);
 
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
diff --git a/ta-lib-rt/c/src/ta_func/ta_MFI.c b/ta-lib-rt/c/src/ta_func/ta_MFI.c
index d23d1c1..9d7eb31 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MFI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MFI.c
@@ -657,6 +657,7 @@ DEFINE_CIRCBUF_STRUCT(MFI, MoneyFlow)
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    /* insert local variable here */
    FREE_CIRCBUF_STRUCT(MFI, mflow);
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index 985ed87..32809d9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -606,13 +606,8 @@ double tempReal, tempATR;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    /* insert local variable here */
-        if( STATE_P.optInTimePeriod <= 1 )
-        {
-           /* No smoothing needed. Just do a TRANGE. */
-           return FUNCTION_CALL_STATE_FREE(TRANGE)( (struct TA_TRANGE_State**) &STATE_P.StateTRANGE);
-        }
-
         TA_RetCode retCode;
 
         retCode = FUNCTION_CALL_STATE_FREE(TRANGE)( (struct TA_TRANGE_State**) &STATE_P.StateTRANGE );
diff --git a/ta-lib-rt/c/src/ta_func/ta_SAR.c b/ta-lib-rt/c/src/ta_func/ta_SAR.c
index 21cd96a..d7ebbb9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAR.c
@@ -889,6 +889,7 @@ double ep_temp;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    /* insert local variable here */
 TA_RetCode retCode;
 retCode = FUNCTION_CALL_STATE_FREE(MINUS_DM)( (struct TA_MINUS_DM_State**) &STATE_P.stateMINUS_DM );
diff --git a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
index 933df34..72f4224 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
@@ -1180,6 +1180,7 @@ if( optInAccelerationShort > optInAccelerationMaxShort )
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    /* insert local variable here */
  if (STATE_P.optInStartValue == 0)
   {
diff --git a/ta-lib-rt/c/src/ta_func/ta_STDDEV.c b/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
index 8345d65..5214ce5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
@@ -582,6 +582,7 @@ void TA_PREFIX(INT_stddev_using_precalc_ma)( const INPUT_TYPE *inReal,
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    /* insert local variable here */
    FUNCTION_CALL_STATE_FREE(VAR)((struct TA_VAR_State**)&STATE_P.var_state);
 /**** START GENCODE SECTION 10 - DO NOT DELETE THIS LINE ****/
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index 2613887..06e4dbd 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -900,6 +900,7 @@
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    /* insert local variable here */
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)( (struct TA_MA_State**) &STATE_P.stateMA1 );
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index 9754424..549ab2c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -840,6 +840,7 @@ TA_RetCode retCode;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    /* insert local variable here */
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(MA)( (struct TA_MA_State**) &STATE_P.stateMA1 );
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
index 15f6384..2f62d5f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
@@ -614,6 +614,7 @@ TA_RetCode retCode;
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    /* insert local variable here */
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(RSI)( (struct TA_RSI_State**) &STATE_P.stateRSI );
diff --git a/ta-lib-rt/c/src/ta_func/ta_TEMA.c b/ta-lib-rt/c/src/ta_func/ta_TEMA.c
index 4aaf978..8820c98 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TEMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TEMA.c
@@ -567,6 +567,7 @@
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    /* insert local variable here */
 
         int res = FUNCTION_CALL_STATE_FREE(EMA)((struct TA_EMA_State**)&STATE_P.state_EMA);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIX.c b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
index 4e48687..a403cac 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
@@ -527,6 +527,7 @@
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    /* insert local variable here */
         TA_RetCode retCode;
         retCode = FUNCTION_CALL_STATE_FREE(EMA)( (struct TA_EMA_State**) &STATE_P.stateEMA1 );
diff --git a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
index 157c7fb..80dd827 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
@@ -723,6 +723,7 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /* Generated */ #endif
 /**** END GENCODE SECTION 9 - DO NOT DELETE THIS LINE ****/
 {
+   RETURN_IF_NO_STATE_TO_FREE
    /* insert local variable here */
    FREE_CIRCBUF_STRUCT(ULTOSC, periodA);
    FREE_CIRCBUF_STRUCT(ULTOSC, periodB);
-- 
2.43.0


From 44e71804da33ef54cb9e6584048301a89b6d5739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:28 +0000
Subject: [PATCH 28/40] fix: TA_TRIX shifted its output when the range starts
 after the lookback

---
 ta-lib-rt/c/src/ta_func/ta_TRIX.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIX.c b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
index a403cac..27fed23 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
@@ -234,7 +234,7 @@
 
    /* Calculate the first EMA */   
    k = PER_TO_K(optInTimePeriod);  
-   retCode = FUNCTION_CALL(INT_EMA)( (startIdx-totalLookback), endIdx, inReal,
+   retCode = FUNCTION_CALL(INT_EMA)( (startIdx-totalLookback)+emaLookback, endIdx, inReal,
                                      optInTimePeriod, k,
                                      VALUE_HANDLE_OUT(begIdx), VALUE_HANDLE_OUT(nbElement),
 								     tempBuffer );
@@ -771,7 +771,7 @@ TA_RetCode retCode;
 /* Generated */       }
 /* Generated */    #endif
 /* Generated */    k = PER_TO_K(optInTimePeriod);  
-/* Generated */    retCode = FUNCTION_CALL(INT_EMA)( (startIdx-totalLookback), endIdx, inReal,
+/* Generated */    retCode = FUNCTION_CALL(INT_EMA)( (startIdx-totalLookback)+emaLookback, endIdx, inReal,
 /* Generated */                                      optInTimePeriod, k,
 /* Generated */                                      VALUE_HANDLE_OUT(begIdx), VALUE_HANDLE_OUT(nbElement),
 /* Generated */ 								     tempBuffer );
-- 
2.43.0


From e7d07e6f5836275b4bdb3eadd2022bbe4b07b12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:28 +0000
Subject: [PATCH 29/40] fix: TA_NATR divided by the close of the wrong bar when
 the range starts after the lookback

---
 ta-lib-rt/c/src/ta_func/ta_NATR.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index 32809d9..8a42e8c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -314,7 +314,7 @@
     * provided outReal.
     */
    outIdx = 1;
-   tempValue = inClose[today];
+   tempValue = inClose[startIdx-lookbackTotal+today];
    if( !TA_IS_ZERO(tempValue) )
       outReal[0] = (prevATR/tempValue)*100.0;
    else
@@ -328,11 +328,11 @@
       prevATR *= optInTimePeriod - 1;
       prevATR += tempBuffer[today++];
       prevATR /= optInTimePeriod;
-      tempValue = inClose[today];
+      tempValue = inClose[startIdx-lookbackTotal+today];
       if( !TA_IS_ZERO(tempValue) )
          outReal[outIdx] = (prevATR/tempValue)*100.0;
       else
-         outReal[0] = 0.0;
+         outReal[outIdx] = 0.0;
       outIdx++;
    }
 
@@ -874,7 +874,7 @@ TA_RetCode retCode;
 /* Generated */       outIdx--;
 /* Generated */    }
 /* Generated */    outIdx = 1;
-/* Generated */    tempValue = inClose[today];
+/* Generated */    tempValue = inClose[startIdx-lookbackTotal+today];
 /* Generated */    if( !TA_IS_ZERO(tempValue) )
 /* Generated */       outReal[0] = (prevATR/tempValue)*100.0;
 /* Generated */    else
@@ -885,11 +885,11 @@ TA_RetCode retCode;
 /* Generated */       prevATR *= optInTimePeriod - 1;
 /* Generated */       prevATR += tempBuffer[today++];
 /* Generated */       prevATR /= optInTimePeriod;
-/* Generated */       tempValue = inClose[today];
+/* Generated */       tempValue = inClose[startIdx-lookbackTotal+today];
 /* Generated */       if( !TA_IS_ZERO(tempValue) )
 /* Generated */          outReal[outIdx] = (prevATR/tempValue)*100.0;
 /* Generated */       else
-/* Generated */          outReal[0] = 0.0;
+/* Generated */          outReal[outIdx] = 0.0;
 /* Generated */       outIdx++;
 /* Generated */    }
 /* Generated */    VALUE_HANDLE_DEREF(outBegIdx)    = startIdx;
-- 
2.43.0


From c9be5c5242ef6c7cda8b2bab94a3e8e3b1bb5cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:28 +0000
Subject: [PATCH 30/40] fix: TA_MAVP was wrong when the output buffer is the
 input buffer

---
 ta-lib-rt/c/src/ta_func/ta_MAVP.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index 0e0c60e..5548616 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -187,6 +187,7 @@
    int i, j, lookbackTotal, outputSize, tempInt, curPeriod;
    ARRAY_INT_REF(localPeriodArray);
    ARRAY_REF(localOutputArray);
+   ARRAY_REF(localResultArray);
    VALUE_HANDLE_INT(localBegIdx);
    VALUE_HANDLE_INT(localNbElement);
    ENUM_DECLARATION(RetCode) retCode;
@@ -270,6 +271,7 @@
 
    /* Allocate intermediate local buffer. */
    ARRAY_ALLOC(localOutputArray,outputSize);
+   ARRAY_ALLOC(localResultArray,outputSize);
    ARRAY_INT_ALLOC(localPeriodArray,outputSize);
 
    /* Copy caller array of period into local buffer.
@@ -311,25 +313,30 @@
            if( retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
 		   {
               ARRAY_FREE(localOutputArray);
+              ARRAY_FREE(localResultArray);
 			  ARRAY_INT_FREE(localPeriodArray);
               VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
               VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
               return retCode;
 	       }
 		   
-		   outReal[i] = localOutputArray[i];
+		   localResultArray[i] = localOutputArray[i];
 		   for( j=i+1; j < outputSize; j++ )
 		   {
 			   if( localPeriodArray[j] == curPeriod )
 			   {
 				   localPeriodArray[j] = 0; /* Flag to avoid recalculation */
-				   outReal[j] = localOutputArray[j];
+				   localResultArray[j] = localOutputArray[j];
 			   }
 		   }		   
 	   }
    }
 
+   /* The caller may use the same buffer for the input and the output. */
+   ARRAY_MEMMOVE(outReal,0,localResultArray,0,outputSize);
+
    ARRAY_FREE(localOutputArray);
+   ARRAY_FREE(localResultArray);
    ARRAY_INT_FREE(localPeriodArray);
 
    /* Done. Inform the caller of the success. */
@@ -756,6 +763,7 @@ TA_RetCode retCode;
 /* Generated */    int i, j, lookbackTotal, outputSize, tempInt, curPeriod;
 /* Generated */    ARRAY_INT_REF(localPeriodArray);
 /* Generated */    ARRAY_REF(localOutputArray);
+/* Generated */    ARRAY_REF(localResultArray);
 /* Generated */    VALUE_HANDLE_INT(localBegIdx);
 /* Generated */    VALUE_HANDLE_INT(localNbElement);
 /* Generated */    ENUM_DECLARATION(RetCode) retCode;
@@ -808,6 +816,7 @@ TA_RetCode retCode;
 /* Generated */    }   
 /* Generated */    outputSize = endIdx - tempInt + 1;
 /* Generated */    ARRAY_ALLOC(localOutputArray,outputSize);
+/* Generated */    ARRAY_ALLOC(localResultArray,outputSize);
 /* Generated */    ARRAY_INT_ALLOC(localPeriodArray,outputSize);
 /* Generated */    for( i=0; i < outputSize; i++ )
 /* Generated */    {
@@ -829,23 +838,26 @@ TA_RetCode retCode;
 /* Generated */            if( retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
 /* Generated */ 		   {
 /* Generated */               ARRAY_FREE(localOutputArray);
+/* Generated */               ARRAY_FREE(localResultArray);
 /* Generated */ 			  ARRAY_INT_FREE(localPeriodArray);
 /* Generated */               VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
 /* Generated */               VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
 /* Generated */               return retCode;
 /* Generated */ 	       }
-/* Generated */ 		   outReal[i] = localOutputArray[i];
+/* Generated */ 		   localResultArray[i] = localOutputArray[i];
 /* Generated */ 		   for( j=i+1; j < outputSize; j++ )
 /* Generated */ 		   {
 /* Generated */ 			   if( localPeriodArray[j] == curPeriod )
 /* Generated */ 			   {
 /* Generated */ 				   localPeriodArray[j] = 0; 
-/* Generated */ 				   outReal[j] = localOutputArray[j];
+/* Generated */ 				   localResultArray[j] = localOutputArray[j];
 /* Generated */ 			   }
 /* Generated */ 		   }		   
 /* Generated */ 	   }
 /* Generated */    }
+/* Generated */    ARRAY_MEMMOVE(outReal,0,localResultArray,0,outputSize);
 /* Generated */    ARRAY_FREE(localOutputArray);
+/* Generated */    ARRAY_FREE(localResultArray);
 /* Generated */    ARRAY_INT_FREE(localPeriodArray);
 /* Generated */    VALUE_HANDLE_DEREF(outBegIdx) = startIdx;
 /* Generated */    VALUE_HANDLE_DEREF(outNBElement) = outputSize;
-- 
2.43.0


From e4a8cac1f9b90146e9da74ddde1334fdf34a0e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:12 +0000
Subject: [PATCH 31/40] fix: TA_Set/GetUnstablePeriod refuse negative ids
 instead of accessing memory before the table

---
 ta-lib-rt/c/src/ta_func/ta_utility.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_utility.c b/ta-lib-rt/c/src/ta_func/ta_utility.c
index 2fb4b10..ccea2cd 100644
--- a/ta-lib-rt/c/src/ta_func/ta_utility.c
+++ b/ta-lib-rt/c/src/ta_func/ta_utility.c
@@ -68,7 +68,7 @@ TA_RetCode TA_SetUnstablePeriod( TA_FuncUnstId id,
 {
    int i;
 
-   if( id > ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll) )
+   if( (int)id < 0 || id > ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll) )
       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
    if( id == ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll) )
@@ -100,7 +100,7 @@ unsigned int Core::GetUnstablePeriod( enum class FuncUnstId id )
 unsigned int TA_GetUnstablePeriod( TA_FuncUnstId id )
 #endif
 {
-   if( id >= ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll) )
+   if( (int)id < 0 || id >= ENUM_VALUE(FuncUnstId,TA_FUNC_UNST_ALL,FuncUnstAll) )
 	   return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 
    #if defined( _MANAGED )
-- 
2.43.0


From 7ab0f4300037d7f407c05dcbe48c6269491ce078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:12 +0000
Subject: [PATCH 32/40] fix: TA_EMA/WLMA/ULTOSC_StateInit resolve default
 periods before using them

---
 ta-lib-rt/c/src/ta_func/ta_EMA.c    |  4 ++++
 ta-lib-rt/c/src/ta_func/ta_ULTOSC.c | 21 ++++++++++++---------
 ta-lib-rt/c/src/ta_func/ta_WLMA.c   |  4 ++++
 3 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_EMA.c b/ta-lib-rt/c/src/ta_func/ta_EMA.c
index d74d03d..381f574 100644
--- a/ta-lib-rt/c/src/ta_func/ta_EMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_EMA.c
@@ -375,6 +375,10 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
 
 {
    /* insert local variable here */
+   /* The smoothing factor needs the actual period. */
+   if( (int)optInTimePeriod == TA_INTEGER_DEFAULT )
+      optInTimePeriod = 30;
+
    return TA_INT_EMA_StateInit(_state, optInTimePeriod, PER_TO_K( optInTimePeriod ));
 
 #ifdef SUPPRESS_CODE_BLOCK_BELOW
diff --git a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
index 80dd827..66d6c11 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
@@ -429,15 +429,6 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
        x = x ^ y; \
     }
 
-   //sort optIns
-    if (optInTimePeriod1 < optInTimePeriod2) {
-        if (optInTimePeriod3 < optInTimePeriod1) swap(optInTimePeriod1, optInTimePeriod3);
-    } else {
-        if (optInTimePeriod2 < optInTimePeriod3) {swap(optInTimePeriod1, optInTimePeriod2); }
-        else swap(optInTimePeriod1, optInTimePeriod3);
-    }
-    if(optInTimePeriod3 < optInTimePeriod2) swap(optInTimePeriod2, optInTimePeriod3);
-
 /**** START GENCODE SECTION 6 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
 /* Generated */ #ifndef TA_FUNC_NO_RANGE_CHECK
@@ -479,6 +470,18 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /**** END GENCODE SECTION 6 - DO NOT DELETE THIS LINE ****/
 
    /* insert state init code here. */
+   //sort optIns
+    if (optInTimePeriod1 < optInTimePeriod2) {
+        if (optInTimePeriod3 < optInTimePeriod1) swap(optInTimePeriod1, optInTimePeriod3);
+    } else {
+        if (optInTimePeriod2 < optInTimePeriod3) {swap(optInTimePeriod1, optInTimePeriod2); }
+        else swap(optInTimePeriod1, optInTimePeriod3);
+    }
+    if(optInTimePeriod3 < optInTimePeriod2) swap(optInTimePeriod2, optInTimePeriod3);
+    STATE_P.optInTimePeriod1 = optInTimePeriod1;
+    STATE_P.optInTimePeriod2 = optInTimePeriod2;
+    STATE_P.optInTimePeriod3 = optInTimePeriod3;
+
  CREATE_CIRCBUF_STRUCT(ULTOSC, periodA, double, optInTimePeriod3+1);
  CREATE_CIRCBUF_STRUCT(ULTOSC, periodB, double, optInTimePeriod3+1);
 #undef swap
diff --git a/ta-lib-rt/c/src/ta_func/ta_WLMA.c b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
index 4a1675f..f683d81 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WLMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
@@ -372,6 +372,10 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
 
 {
    /* insert local variable here */
+   /* The smoothing factor needs the actual period. */
+   if( (int)optInTimePeriod == TA_INTEGER_DEFAULT )
+      optInTimePeriod = 30;
+
    return TA_INT_WLMA_StateInit(_state, optInTimePeriod, PER_TO_WILDERS_K( optInTimePeriod ));
 
 #ifdef SUPPRESS_CODE_BLOCK_BELOW
-- 
2.43.0


From 282724329660675a2b4ebd2ba1275ad059134b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:12 +0000
Subject: [PATCH 33/40] fix: TA_IMI widened its window by the unstable period

---
 ta-lib-rt/c/src/ta_func/ta_IMI.c | 51 ++++++++++++++------------------
 1 file changed, 22 insertions(+), 29 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_IMI.c b/ta-lib-rt/c/src/ta_func/ta_IMI.c
index 469d2a2..8ba755b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_IMI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_IMI.c
@@ -213,7 +213,7 @@
 		double upsum = .0, downsum = .0;
 		int i;
 
-		for (i = startIdx - lookback; i <= startIdx; i++) {
+		for (i = startIdx - optInTimePeriod + 1; i <= startIdx; i++) {
 			double close = inClose[i];
 			double open = inOpen[i];
 
@@ -310,6 +310,8 @@
    /* insert local variable here */
 #define TA_IMI_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double tempClose, tempOpen;
+size_t trailingIdx;
+int needMoreData;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
 /* Generated */ #ifndef TA_FUNC_NO_RANGE_CHECK
@@ -337,43 +339,34 @@ double tempClose, tempOpen;
 /**** END GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 
    /* insert state based TA func code here. */
-                if (NEED_MORE_DATA)
-        {
-
-
-            if (inClose > inOpen) {
-                STATE.upsum += (inClose - inOpen);
-            } else {
-                STATE.downsum += (inOpen - inClose);
-            }
-
-            PUSH_TO_MEM(inOpen,inOpen);
-            PUSH_TO_MEM(inClose,inClose);
-            return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
-        }
-
-
         if (inClose > inOpen) {
             STATE.upsum += (inClose - inOpen);
         } else {
             STATE.downsum += (inOpen - inClose);
         }
 
+        needMoreData = NEED_MORE_DATA;
+        if (!needMoreData)
+            VALUE_HANDLE_DEREF(outReal) = 100.0*(STATE.upsum/(STATE.upsum + STATE.downsum));
 
-         VALUE_HANDLE_DEREF(outReal) = 100.0*(STATE.upsum/(STATE.upsum + STATE.downsum));
+        /* Remove the bar that leaves the window (the memory also covers the unstable period). */
+        if (STATE.mem_index >= (size_t)STATE.optInTimePeriod) {
+            trailingIdx = (_cur_idx + MEM_SIZE - (STATE.optInTimePeriod-1)) % MEM_SIZE;
+            tempClose = MEM_IDX_NS(inClose,trailingIdx);
+            tempOpen = MEM_IDX_NS(inOpen,trailingIdx);
 
-         tempClose = POP_FROM_MEM(inClose);
-         tempOpen = POP_FROM_MEM(inOpen);
-
-         if (tempClose > tempOpen) {
-             STATE.upsum -= (tempClose - tempOpen);
-         } else {
-             STATE.downsum -= (tempOpen - tempClose);
-         }
+            if (tempClose > tempOpen) {
+                STATE.upsum -= (tempClose - tempOpen);
+            } else {
+                STATE.downsum -= (tempOpen - tempClose);
+            }
+        }
 
-         PUSH_TO_MEM(inOpen,inOpen);
-         PUSH_TO_MEM(inClose,inClose);
+        PUSH_TO_MEM(inOpen,inOpen);
+        PUSH_TO_MEM(inClose,inClose);
 
+        if (needMoreData)
+            return ENUM_VALUE(RetCode,TA_NEED_MORE_DATA,NeedMoreData);
         return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
     }
 
@@ -684,7 +677,7 @@ double tempClose, tempOpen;
 /* Generated */    while (startIdx <= endIdx) {
 /* Generated */ 		double upsum = .0, downsum = .0;
 /* Generated */ 		int i;
-/* Generated */ 		for (i = startIdx - lookback; i <= startIdx; i++) {
+/* Generated */ 		for (i = startIdx - optInTimePeriod + 1; i <= startIdx; i++) {
 /* Generated */ 			double close = inClose[i];
 /* Generated */ 			double open = inOpen[i];
 /* Generated */ 			if (close > open) {
-- 
2.43.0


From 415c589b3e27f86812bf777b37217491e11197dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:12 +0000
Subject: [PATCH 34/40] fix: integer overflow of period products for large
 periods (WMA, TRIMA, LINEARREG family, TSF, EMA factor)

---
 ta-lib-rt/c/src/ta_func/ta_LINEARREG.c           | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c     | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c     | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_TRIMA.c               | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_TSF.c                 | 12 ++++++------
 ta-lib-rt/c/src/ta_func/ta_WMA.c                 | 16 ++++++++--------
 ta-lib-rt/c/src/ta_func/ta_utility.h             |  2 +-
 8 files changed, 45 insertions(+), 45 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
index 22568b5..1e72f68 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
@@ -231,8 +231,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+   SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -357,8 +357,8 @@
 
    if (FIRST_LAUNCH)
         { // init const values
-            STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-            STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+            STATE.SumX = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
+            STATE.SumXSqr = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
             STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
           // init sums
             STATE.SumXY = 0;
@@ -701,8 +701,8 @@
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+/* Generated */    SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
index 2d1670d..8d6dbe1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
@@ -233,8 +233,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+   SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -358,8 +358,8 @@ double m, tempReal;
 
         if (FIRST_LAUNCH)
              { // init const values
-                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+                 STATE.SumX = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
+                 STATE.SumXSqr = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
                  STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
                // init sums
                  STATE.SumXY = 0;
@@ -701,8 +701,8 @@ double m, tempReal;
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+/* Generated */    SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
index c082e2c..4a6a7b5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
@@ -231,8 +231,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+   SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -356,8 +356,8 @@ double m, tempReal;
 
         if (FIRST_LAUNCH)
              { // init const values
-                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+                 STATE.SumX = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
+                 STATE.SumXSqr = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
                  STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
                // init sums
                  STATE.SumXY = 0;
@@ -700,8 +700,8 @@ double m, tempReal;
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+/* Generated */    SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
index ed3f355..ce885e6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
@@ -230,8 +230,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+   SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -354,8 +354,8 @@ double tempReal;
 
         if (FIRST_LAUNCH)
              { // init const values
-                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+                 STATE.SumX = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
+                 STATE.SumXSqr = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
                  STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
                // init sums
                  STATE.SumXY = 0;
@@ -695,8 +695,8 @@ double tempReal;
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+/* Generated */    SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
index 95c3d12..dae4385 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
@@ -339,7 +339,7 @@
        *       on assignement to the factor variable.
        */
       i = (optInTimePeriod>>1);
-      factor = (i+1)*(i+1); 
+      factor = (double)(i+1)*(i+1); 
       factor = 1.0/factor;
 
       /* Initialize all the variable before
@@ -412,7 +412,7 @@
        *  - Adjustment of numeratorAdd is different. See Step (2).
        */
       i = (optInTimePeriod>>1);
-      factor = i*(i+1); 
+      factor = (double)i*(i+1); 
       factor = 1.0/factor;
 
       /* Initialize all the variable before
@@ -592,12 +592,12 @@ double tempReal;
             if( (STATE.optInTimePeriod % 2) == 1 )
             {
                 i = (STATE.optInTimePeriod>>1);
-                STATE.factor = (i+1)*(i+1);
+                STATE.factor = (double)(i+1)*(i+1);
                 STATE.factor = 1.0/STATE.factor;
                 STATE.middleIdx   = i;
             } else {
                 i = (STATE.optInTimePeriod>>1);
-                STATE.factor = i*(i+1);
+                STATE.factor = (double)i*(i+1);
                 STATE.factor = 1.0/STATE.factor;
 
                 STATE.middleIdx   = i - 1;
@@ -984,7 +984,7 @@ double tempReal;
 /* Generated */    if( (optInTimePeriod % 2) == 1 )
 /* Generated */    {
 /* Generated */       i = (optInTimePeriod>>1);
-/* Generated */       factor = (i+1)*(i+1); 
+/* Generated */       factor = (double)(i+1)*(i+1); 
 /* Generated */       factor = 1.0/factor;
 /* Generated */       trailingIdx = startIdx-lookbackTotal;
 /* Generated */       middleIdx   = trailingIdx + i;
@@ -1027,7 +1027,7 @@ double tempReal;
 /* Generated */    else
 /* Generated */    {
 /* Generated */       i = (optInTimePeriod>>1);
-/* Generated */       factor = i*(i+1); 
+/* Generated */       factor = (double)i*(i+1); 
 /* Generated */       factor = 1.0/factor;
 /* Generated */       trailingIdx = startIdx-lookbackTotal;
 /* Generated */       middleIdx   = trailingIdx + i - 1;
diff --git a/ta-lib-rt/c/src/ta_func/ta_TSF.c b/ta-lib-rt/c/src/ta_func/ta_TSF.c
index 5663a8d..6dc5798 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TSF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TSF.c
@@ -231,8 +231,8 @@
    outIdx = 0; /* Index into the output. */
    today = startIdx;
 
-   SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-   SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+   SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+   SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 
    while( today <= endIdx )
@@ -357,8 +357,8 @@ double m, b, tempReal;
 
         if (FIRST_LAUNCH)
              { // init const values
-                 STATE.SumX = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
-                 STATE.SumXSqr = STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
+                 STATE.SumX = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * 0.5;
+                 STATE.SumXSqr = (double)STATE.optInTimePeriod * ( STATE.optInTimePeriod - 1 ) * ( 2 * STATE.optInTimePeriod - 1 ) / 6;
                  STATE.Divisor = STATE.SumX * STATE.SumX - STATE.optInTimePeriod * STATE.SumXSqr;
                // init sums
                  STATE.SumXY = 0;
@@ -701,8 +701,8 @@ double m, b, tempReal;
 /* Generated */    }
 /* Generated */    outIdx = 0; 
 /* Generated */    today = startIdx;
-/* Generated */    SumX = optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
-/* Generated */    SumXSqr = optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
+/* Generated */    SumX = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * 0.5;
+/* Generated */    SumXSqr = (double)optInTimePeriod * ( optInTimePeriod - 1 ) * ( 2 * optInTimePeriod - 1 ) / 6;
 /* Generated */    Divisor = SumX * SumX - optInTimePeriod * SumXSqr;
 /* Generated */    while( today <= endIdx )
 /* Generated */    {
diff --git a/ta-lib-rt/c/src/ta_func/ta_WMA.c b/ta-lib-rt/c/src/ta_func/ta_WMA.c
index 108ca8b..0ca5143 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WMA.c
@@ -158,8 +158,8 @@
 /**** END GENCODE SECTION 3 - DO NOT DELETE THIS LINE ****/
 {
    /* Insert local variables here. */
-   int inIdx, outIdx, i, trailingIdx, divider;
-   double periodSum, periodSub, tempReal, trailingValue;
+   int inIdx, outIdx, i, trailingIdx;
+   double periodSum, periodSub, tempReal, trailingValue, divider;
    int lookbackTotal;
 
    #if defined( USE_SINGLE_PRECISION_INPUT )
@@ -232,9 +232,9 @@
 
    /* Calculate the divider (always an integer value).
     * By induction: 1+2+3+4+'n' = n(n+1)/2
-    * '>>1' is usually faster than '/2' for unsigned.
+    * In floating point: it does not fit an int for large periods.
     */
-   divider = (optInTimePeriod*(optInTimePeriod+1))>>1;
+   divider = (double)optInTimePeriod*(optInTimePeriod+1)*0.5;
 
    /* The algo used here use a very basic property of
     * multiplication/addition: (x*2) = x+x
@@ -414,7 +414,7 @@
     {
             STATE.periodSum = 0.;
             STATE.periodSub = 0.;
-            STATE.divider =  (STATE.optInTimePeriod*(STATE.optInTimePeriod+1))>>1; //const
+            STATE.divider = (double)STATE.optInTimePeriod*(STATE.optInTimePeriod+1)*0.5; //const
     }
 
  if (NEED_MORE_DATA)
@@ -711,8 +711,8 @@
 /* Generated */                      double        outReal[] )
 /* Generated */ #endif
 /* Generated */ {
-/* Generated */    int inIdx, outIdx, i, trailingIdx, divider;
-/* Generated */    double periodSum, periodSub, tempReal, trailingValue;
+/* Generated */    int inIdx, outIdx, i, trailingIdx;
+/* Generated */    double periodSum, periodSub, tempReal, trailingValue, divider;
 /* Generated */    int lookbackTotal;
 /* Generated */    #if defined( USE_SINGLE_PRECISION_INPUT )
 /* Generated */       ARRAY_MEMMOVEMIX_VAR;
@@ -754,7 +754,7 @@
 /* Generated */       #endif
 /* Generated */       return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    }
-/* Generated */    divider = (optInTimePeriod*(optInTimePeriod+1))>>1;
+/* Generated */    divider = (double)optInTimePeriod*(optInTimePeriod+1)*0.5;
 /* Generated */    outIdx      = 0;
 /* Generated */    trailingIdx = startIdx - lookbackTotal;
 /* Generated */    periodSum = periodSub = (double)0.0;
diff --git a/ta-lib-rt/c/src/ta_func/ta_utility.h b/ta-lib-rt/c/src/ta_func/ta_utility.h
index 1789fc7..9d8e65c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_utility.h
+++ b/ta-lib-rt/c/src/ta_func/ta_utility.h
@@ -416,7 +416,7 @@ void TA_S_INT_stddev_using_precalc_ma( const float  *inReal,
  *
  * Useful to calculate the 'k' for TA_INT_EMA().
  */
-#define PER_TO_K( per ) ((double)2.0 / ((double)(per + 1)))
+#define PER_TO_K( per ) ((double)2.0 / ((double)(per) + 1.0))
 
 /* Convert a period into the equivalent k:
  *
-- 
2.43.0


From cf602015fd192c51a9ff7b166758ce6540434dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:40 +0000
Subject: [PATCH 35/40] fix: terminate the array TA_FunctionDescriptionXML
 returns as a string

---
 ta-lib-rt/c/src/tools/gen_code/gen_code.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ta-lib-rt/c/src/tools/gen_code/gen_code.c b/ta-lib-rt/c/src/tools/gen_code/gen_code.c
index 9def3fd..5d74e62 100644
--- a/ta-lib-rt/c/src/tools/gen_code/gen_code.c
+++ b/ta-lib-rt/c/src/tools/gen_code/gen_code.c
@@ -4758,6 +4758,8 @@ int generateFuncAPI_C()
    in  = inFile->file;
  
    convertFileToCArray(in, out);
+   /* the array is used as a string: terminate it */
+   fprintf( out, ",0x00" );
 
    fileClose(gOutFuncAPI_C);
    fileClose(inFile);
-- 
2.43.0


From 8deb0f2115bd47658f9fb95d5d4d3623bf118444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:48 +0000
Subject: [PATCH 36/40] fix: ta_func_api.xml gave the maximum as suggested
 start, end and increment of integer parameters

---
 .../c/src/tools/gen_code/print_funcs_xml.c    |    6 +-
 ta-lib-rt/ta_func_api.xml                     | 2400 ++++++++---------
 2 files changed, 1203 insertions(+), 1203 deletions(-)

diff --git a/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c b/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c
index e4db2f3..43c67c9 100644
--- a/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c
+++ b/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c
@@ -186,9 +186,9 @@ void print_opt_input_arg(FILE *file, int indent, const TA_OptInputParameterInfo
         fprintf(file, "%.*s<Range>\n", indent+1, t);
         fprintf(file, "%.*s<Minimum>%d</Minimum>\n", indent+2, t, integerRange->min);
         fprintf(file, "%.*s<Maximum>%d</Maximum>\n", indent+2, t, integerRange->max);
-        fprintf(file, "%.*s<SuggestedStart>%d</SuggestedStart>\n", indent+2, t, integerRange->max);
-        fprintf(file, "%.*s<SuggestedEnd>%d</SuggestedEnd>\n", indent+2, t, integerRange->max);
-        fprintf(file, "%.*s<SuggestedIncrement>%d</SuggestedIncrement>\n", indent+2, t, integerRange->max);
+        fprintf(file, "%.*s<SuggestedStart>%d</SuggestedStart>\n", indent+2, t, integerRange->suggested_start);
+        fprintf(file, "%.*s<SuggestedEnd>%d</SuggestedEnd>\n", indent+2, t, integerRange->suggested_end);
+        fprintf(file, "%.*s<SuggestedIncrement>%d</SuggestedIncrement>\n", indent+2, t, integerRange->suggested_increment);
         fprintf(file, "%.*s</Range>\n", indent+1, t);
         fprintf(file, "%.*s<DefaultValue>%d</DefaultValue>\n", indent+1, t, (int)optInputInfo->defaultValue);
     }
diff --git a/ta-lib-rt/ta_func_api.xml b/ta-lib-rt/ta_func_api.xml
index eeec395..86f1c4b 100644
--- a/ta-lib-rt/ta_func_api.xml
+++ b/ta-lib-rt/ta_func_api.xml
@@ -62,9 +62,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>20</DefaultValue>
 					</OptionalInputArgument>
@@ -104,9 +104,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>20</DefaultValue>
 					</OptionalInputArgument>
@@ -161,9 +161,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>20</DefaultValue>
 					</OptionalInputArgument>
@@ -314,9 +314,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>20</DefaultValue>
 					</OptionalInputArgument>
@@ -344,9 +344,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>20</DefaultValue>
 					</OptionalInputArgument>
@@ -1079,9 +1079,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -1092,9 +1092,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -1138,9 +1138,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -1151,9 +1151,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -1194,9 +1194,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -1207,9 +1207,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -1340,9 +1340,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -1353,9 +1353,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -1383,9 +1383,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -1396,9 +1396,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -1490,9 +1490,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1532,9 +1532,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1575,9 +1575,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1700,9 +1700,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1730,9 +1730,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1796,9 +1796,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1838,9 +1838,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -1881,9 +1881,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2006,9 +2006,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2036,9 +2036,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2099,9 +2099,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -2112,9 +2112,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -2152,9 +2152,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -2165,9 +2165,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -2214,9 +2214,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -2227,9 +2227,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -2342,9 +2342,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -2355,9 +2355,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -2391,9 +2391,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -2404,9 +2404,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -2485,9 +2485,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2523,9 +2523,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2573,9 +2573,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2704,9 +2704,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2734,9 +2734,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2809,9 +2809,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2847,9 +2847,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -2890,9 +2890,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3007,9 +3007,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3037,9 +3037,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3499,9 +3499,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3541,9 +3541,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3584,9 +3584,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3709,9 +3709,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -3739,9 +3739,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -4040,9 +4040,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -4074,9 +4074,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -4117,9 +4117,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -4226,9 +4226,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -4256,9 +4256,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -4318,9 +4318,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4386,9 +4386,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4477,9 +4477,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4648,9 +4648,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4712,9 +4712,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4837,9 +4837,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4875,9 +4875,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -4918,9 +4918,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -5035,9 +5035,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -5065,9 +5065,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -5372,9 +5372,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -5414,9 +5414,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -5457,9 +5457,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -5582,9 +5582,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -5612,9 +5612,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -22797,9 +22797,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -22831,9 +22831,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -22874,9 +22874,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -22983,9 +22983,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -23013,9 +23013,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -23088,9 +23088,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23126,9 +23126,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23169,9 +23169,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23286,9 +23286,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23316,9 +23316,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23762,9 +23762,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23796,9 +23796,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23839,9 +23839,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23948,9 +23948,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -23978,9 +23978,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -24276,9 +24276,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -24318,9 +24318,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -24361,9 +24361,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -24486,9 +24486,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -24516,9 +24516,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -24587,9 +24587,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -24621,9 +24621,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -24664,9 +24664,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -24773,9 +24773,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -24803,9 +24803,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -27054,9 +27054,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27092,9 +27092,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27135,9 +27135,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27252,9 +27252,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27282,9 +27282,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27353,9 +27353,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -27387,9 +27387,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -27430,9 +27430,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -27539,9 +27539,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -27569,9 +27569,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -27643,9 +27643,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27677,9 +27677,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27720,9 +27720,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27829,9 +27829,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27859,9 +27859,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27930,9 +27930,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -27964,9 +27964,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28007,9 +28007,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28116,9 +28116,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28146,9 +28146,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28220,9 +28220,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28254,9 +28254,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28297,9 +28297,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28406,9 +28406,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28436,9 +28436,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28507,9 +28507,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28541,9 +28541,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28584,9 +28584,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28693,9 +28693,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -28723,9 +28723,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -29165,9 +29165,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -29205,9 +29205,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -29254,9 +29254,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -29369,9 +29369,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -29405,9 +29405,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -29478,9 +29478,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -29491,9 +29491,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -29504,9 +29504,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -29538,9 +29538,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -29551,9 +29551,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -29564,9 +29564,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -29621,9 +29621,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -29634,9 +29634,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -29647,9 +29647,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -29784,9 +29784,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -29797,9 +29797,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -29810,9 +29810,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -29840,9 +29840,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -29853,9 +29853,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -29866,9 +29866,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -29933,9 +29933,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -29952,9 +29952,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -29971,9 +29971,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30011,9 +30011,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -30030,9 +30030,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -30049,9 +30049,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30112,9 +30112,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -30131,9 +30131,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -30150,9 +30150,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30293,9 +30293,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -30312,9 +30312,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -30331,9 +30331,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30367,9 +30367,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -30386,9 +30386,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -30405,9 +30405,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30462,9 +30462,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30496,9 +30496,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30553,9 +30553,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30690,9 +30690,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -30720,9 +30720,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>9</DefaultValue>
 					</OptionalInputArgument>
@@ -31241,9 +31241,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>2</DefaultValue>
 					</OptionalInputArgument>
@@ -31254,9 +31254,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31298,9 +31298,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>2</DefaultValue>
 					</OptionalInputArgument>
@@ -31311,9 +31311,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31360,9 +31360,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>2</DefaultValue>
 					</OptionalInputArgument>
@@ -31373,9 +31373,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31496,9 +31496,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>2</DefaultValue>
 					</OptionalInputArgument>
@@ -31509,9 +31509,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31545,9 +31545,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>2</DefaultValue>
 					</OptionalInputArgument>
@@ -31558,9 +31558,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31626,9 +31626,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31660,9 +31660,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31703,9 +31703,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31812,9 +31812,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31842,9 +31842,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31901,9 +31901,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31935,9 +31935,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -31978,9 +31978,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -32087,9 +32087,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -32117,9 +32117,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -32410,9 +32410,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32456,9 +32456,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32499,9 +32499,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32632,9 +32632,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32662,9 +32662,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32716,9 +32716,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32750,9 +32750,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32793,9 +32793,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32902,9 +32902,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32932,9 +32932,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -32990,9 +32990,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -33028,9 +33028,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -33071,9 +33071,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -33188,9 +33188,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -33218,9 +33218,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -33280,9 +33280,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33314,9 +33314,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33357,9 +33357,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33466,9 +33466,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33496,9 +33496,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33555,9 +33555,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33589,9 +33589,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33632,9 +33632,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33741,9 +33741,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33771,9 +33771,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33841,9 +33841,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33875,9 +33875,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -33925,9 +33925,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34048,9 +34048,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34078,9 +34078,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34145,9 +34145,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34179,9 +34179,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34229,9 +34229,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34352,9 +34352,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34382,9 +34382,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -34464,9 +34464,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34506,9 +34506,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34549,9 +34549,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34674,9 +34674,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34704,9 +34704,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34774,9 +34774,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34812,9 +34812,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34855,9 +34855,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -34972,9 +34972,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -35002,9 +35002,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -35053,9 +35053,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -35087,9 +35087,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -35130,9 +35130,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -35239,9 +35239,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -35269,9 +35269,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -35555,9 +35555,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -35597,9 +35597,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -35640,9 +35640,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -35765,9 +35765,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -35795,9 +35795,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36305,9 +36305,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36347,9 +36347,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36390,9 +36390,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36515,9 +36515,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36545,9 +36545,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36615,9 +36615,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36653,9 +36653,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36696,9 +36696,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36813,9 +36813,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36843,9 +36843,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -36894,9 +36894,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -36907,9 +36907,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -36947,9 +36947,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -36960,9 +36960,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -37009,9 +37009,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -37022,9 +37022,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -37137,9 +37137,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -37150,9 +37150,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -37186,9 +37186,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>12</DefaultValue>
 					</OptionalInputArgument>
@@ -37199,9 +37199,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>26</DefaultValue>
 					</OptionalInputArgument>
@@ -37680,9 +37680,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -37714,9 +37714,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -37757,9 +37757,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -37866,9 +37866,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -37896,9 +37896,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -37947,9 +37947,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -37981,9 +37981,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38024,9 +38024,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38133,9 +38133,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38163,9 +38163,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38214,9 +38214,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38248,9 +38248,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38291,9 +38291,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38400,9 +38400,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38430,9 +38430,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38481,9 +38481,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38515,9 +38515,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38558,9 +38558,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38667,9 +38667,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38697,9 +38697,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>10</DefaultValue>
 					</OptionalInputArgument>
@@ -38767,9 +38767,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -38801,9 +38801,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -38844,9 +38844,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -38953,9 +38953,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -38983,9 +38983,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -40643,9 +40643,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -40677,9 +40677,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -40720,9 +40720,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -40829,9 +40829,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -40859,9 +40859,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -41106,9 +41106,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41154,9 +41154,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41211,9 +41211,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41334,9 +41334,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41378,9 +41378,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41475,9 +41475,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41488,9 +41488,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41507,9 +41507,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41555,9 +41555,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41568,9 +41568,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41587,9 +41587,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41643,9 +41643,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41656,9 +41656,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41675,9 +41675,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41820,9 +41820,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41833,9 +41833,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41852,9 +41852,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41888,9 +41888,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -41901,9 +41901,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -41920,9 +41920,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42005,9 +42005,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42018,9 +42018,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42066,9 +42066,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42079,9 +42079,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42135,9 +42135,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42148,9 +42148,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42293,9 +42293,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42306,9 +42306,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42342,9 +42342,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42355,9 +42355,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42423,9 +42423,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -42436,9 +42436,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42449,9 +42449,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42489,9 +42489,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -42502,9 +42502,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42515,9 +42515,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42571,9 +42571,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -42584,9 +42584,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42597,9 +42597,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42726,9 +42726,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -42739,9 +42739,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42752,9 +42752,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -42788,9 +42788,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -42801,9 +42801,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -42814,9 +42814,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>3</DefaultValue>
 					</OptionalInputArgument>
@@ -43083,9 +43083,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -43117,9 +43117,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -43160,9 +43160,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -43269,9 +43269,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -43299,9 +43299,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -43410,9 +43410,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -43458,9 +43458,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -43515,9 +43515,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -43638,9 +43638,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -43682,9 +43682,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -44146,9 +44146,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44180,9 +44180,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44223,9 +44223,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44332,9 +44332,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44362,9 +44362,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44660,9 +44660,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44694,9 +44694,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44737,9 +44737,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44846,9 +44846,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44876,9 +44876,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44943,9 +44943,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -44977,9 +44977,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -45020,9 +45020,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -45129,9 +45129,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -45159,9 +45159,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -45233,9 +45233,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45267,9 +45267,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45310,9 +45310,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45419,9 +45419,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45449,9 +45449,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45779,9 +45779,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>7</DefaultValue>
 					</OptionalInputArgument>
@@ -45792,9 +45792,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45805,9 +45805,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>28</DefaultValue>
 					</OptionalInputArgument>
@@ -45847,9 +45847,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>7</DefaultValue>
 					</OptionalInputArgument>
@@ -45860,9 +45860,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45873,9 +45873,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>28</DefaultValue>
 					</OptionalInputArgument>
@@ -45916,9 +45916,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>7</DefaultValue>
 					</OptionalInputArgument>
@@ -45929,9 +45929,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -45942,9 +45942,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>28</DefaultValue>
 					</OptionalInputArgument>
@@ -46067,9 +46067,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>7</DefaultValue>
 					</OptionalInputArgument>
@@ -46080,9 +46080,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -46093,9 +46093,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>28</DefaultValue>
 					</OptionalInputArgument>
@@ -46123,9 +46123,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>7</DefaultValue>
 					</OptionalInputArgument>
@@ -46136,9 +46136,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -46149,9 +46149,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>28</DefaultValue>
 					</OptionalInputArgument>
@@ -46208,9 +46208,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -46256,9 +46256,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -46313,9 +46313,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -46436,9 +46436,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -46480,9 +46480,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>5</DefaultValue>
 					</OptionalInputArgument>
@@ -46796,9 +46796,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -46838,9 +46838,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -46881,9 +46881,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -47006,9 +47006,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -47036,9 +47036,9 @@
 						<Range>
 							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
@@ -47107,9 +47107,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47141,9 +47141,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47184,9 +47184,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47293,9 +47293,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47323,9 +47323,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47389,9 +47389,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47423,9 +47423,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47466,9 +47466,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47575,9 +47575,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
@@ -47605,9 +47605,9 @@
 						<Range>
 							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>100000</SuggestedStart>
-							<SuggestedEnd>100000</SuggestedEnd>
-							<SuggestedIncrement>100000</SuggestedIncrement>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
 						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
-- 
2.43.0


From 9d182035ed7060d19577b2113d4cae631d206296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:50 +0000
Subject: [PATCH 37/40] fix: ta_func_api.xml listed optional parameters for
 StateSave and StateLoad, which take none

---
 .../c/src/tools/gen_code/print_funcs_xml.c    |    2 -
 ta-lib-rt/ta_func_api.xml                     | 4502 +++--------------
 2 files changed, 653 insertions(+), 3851 deletions(-)

diff --git a/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c b/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c
index 43c67c9..4dd2f88 100644
--- a/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c
+++ b/ta-lib-rt/c/src/tools/gen_code/print_funcs_xml.c
@@ -479,8 +479,6 @@ void print_state_save_or_load_function(FILE *file, int indent, const struct TA_F
 
     fprintf(file, "%.*s</SpecialInputArguments>\n", indent+1, t);
 
-    print_arguments_input_optional(file, indent+1, funcInfo);
-
     fprintf(file, "%.*s</Function>\n", indent, t);
 }
 
diff --git a/ta-lib-rt/ta_func_api.xml b/ta-lib-rt/ta_func_api.xml
index 86f1c4b..3db0b11 100644
--- a/ta-lib-rt/ta_func_api.xml
+++ b/ta-lib-rt/ta_func_api.xml
@@ -306,21 +306,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>20</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_ACCBANDS_StateSave</Name>
@@ -336,21 +321,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>20</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -1332,34 +1302,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_ADOSC_StateSave</Name>
@@ -1375,34 +1317,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -1692,21 +1606,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_ADX_StateSave</Name>
@@ -1722,21 +1621,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -1998,21 +1882,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_ADXR_StateSave</Name>
@@ -2028,21 +1897,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -2334,40 +2188,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>12</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>26</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_APO_StateSave</Name>
@@ -2383,40 +2203,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>12</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>26</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -2696,21 +2482,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_AROON_StateSave</Name>
@@ -2726,21 +2497,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -2999,21 +2755,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_AROONOSC_StateSave</Name>
@@ -3029,21 +2770,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -3701,21 +3427,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_ATR_StateSave</Name>
@@ -3731,21 +3442,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -4218,21 +3914,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_AVGDEV_StateSave</Name>
@@ -4248,21 +3929,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -4640,55 +4306,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Deviations up</Name>
-						<ShortDescription>Deviation multiplier for upper band</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>-2.000000e+0</SuggestedStart>
-							<SuggestedEnd>2.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>2.000000e-1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Deviations down</Name>
-						<ShortDescription>Deviation multiplier for lower band</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>-2.000000e+0</SuggestedStart>
-							<SuggestedEnd>2.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>2.000000e-1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_BBANDS_StateSave</Name>
@@ -4704,55 +4321,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Deviations up</Name>
-						<ShortDescription>Deviation multiplier for upper band</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>-2.000000e+0</SuggestedStart>
-							<SuggestedEnd>2.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>2.000000e-1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Deviations down</Name>
-						<ShortDescription>Deviation multiplier for lower band</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>-2.000000e+0</SuggestedStart>
-							<SuggestedEnd>2.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>2.000000e-1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -5027,21 +4595,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_BETA_StateSave</Name>
@@ -5057,21 +4610,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -5574,21 +5112,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CCI_StateSave</Name>
@@ -5604,21 +5127,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -7796,22 +7304,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CDLABANDONEDBABY_StateSave</Name>
@@ -7827,22 +7319,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -9761,22 +9237,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CDLDARKCLOUDCOVER_StateSave</Name>
@@ -9792,22 +9252,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -11144,22 +10588,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CDLEVENINGDOJISTAR_StateSave</Name>
@@ -11175,22 +10603,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -11495,22 +10907,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CDLEVENINGSTAR_StateSave</Name>
@@ -11526,22 +10922,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -17234,22 +16614,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CDLMATHOLD_StateSave</Name>
@@ -17265,22 +16629,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -17593,22 +16941,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CDLMORNINGDOJISTAR_StateSave</Name>
@@ -17624,22 +16956,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -17944,22 +17260,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CDLMORNINGSTAR_StateSave</Name>
@@ -17975,22 +17275,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Penetration</Name>
-						<ShortDescription>Percentage of penetration of a candle within another candle</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>0</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -22975,21 +22259,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CMO_StateSave</Name>
@@ -23005,21 +22274,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -23278,21 +22532,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_CORREL_StateSave</Name>
@@ -23308,21 +22547,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -23940,21 +23164,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_DEMA_StateSave</Name>
@@ -23970,21 +23179,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -24478,21 +23672,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_DX_StateSave</Name>
@@ -24508,21 +23687,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -24765,21 +23929,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_EMA_StateSave</Name>
@@ -24795,21 +23944,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -27244,35 +26378,153 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
+			</Function>
+			<Function>
+				<Name>TA_IMI_StateSave</Name>
+				<Type>StateSave</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+					<SpecialInputArgument>
+						<Type>Pointer to File</Type>
+						<Name>file</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
+		</Functions>
+	</FinancialFunctionGroup>
+
+
+	<!-- KAMA -->
+	<FinancialFunctionGroup>
+		<Abbreviation>KAMA</Abbreviation>
+		<CamelCaseName>Kama</CamelCaseName>
+		<ShortDescription>Kaufman Adaptive Moving Average</ShortDescription>
+		<GroupId>Overlap Studies</GroupId>
+		<Flags>
+			<Flag>Overlap</Flag>
+			<Flag>Unstable Period</Flag>
+		</Flags>
+		<StateMemory>
+			<StateMemoryField>
+				<Type>Double</Type>
+				<Name>inReal</Name>
+			</StateMemoryField>
+		</StateMemory>
+		<State>
+			<StateField>
+				<Type>Integer</Type>
+				<Name>mem_size</Name>
+			</StateField>
+			<StateField>
+				<Type>Integer</Type>
+				<Name>mem_index</Name>
+			</StateField>
+			<StateField>
+				<Type>Pointer</Type>
+				<Name>memory</Name>
+			</StateField>
+			<StateField>
+				<Type>Double</Type>
+				<Name>sumROC1</Name>
+			</StateField>
+			<StateField>
+				<Type>Double</Type>
+				<Name>yestReal</Name>
+			</StateField>
+			<StateField>
+				<Type>Double</Type>
+				<Name>prevKAMA</Name>
+			</StateField>
+			<StateField>
+				<Type>Double</Type>
+				<Name>trailingValue</Name>
+			</StateField>
+		</State>
+		<Functions>
+			<Function>
+				<Name>TA_KAMA_Lookback</Name>
+				<Type>Lookback</Type>
+				<ReturnValue>Integer</ReturnValue>
 				<OptionalInputArguments>
 					<OptionalInputArgument>
 						<Name>Time Period</Name>
 						<ShortDescription>Number of period</ShortDescription>
 						<Type>Integer</Type>
 						<Range>
-							<Minimum>2</Minimum>
+							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
+							<SuggestedStart>1</SuggestedStart>
 							<SuggestedEnd>200</SuggestedEnd>
 							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
-						<DefaultValue>14</DefaultValue>
+						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_IMI_StateSave</Name>
-				<Type>StateSave</Type>
+				<Name>TA_KAMA</Name>
+				<Type>Regular</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<RequiredInputArguments>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>startIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>endIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double Array</Type>
+						<Name>inReal</Name>
+					</RequiredInputArgument>
+				</RequiredInputArguments>
+				<OptionalInputArguments>
+					<OptionalInputArgument>
+						<Name>Time Period</Name>
+						<ShortDescription>Number of period</ShortDescription>
+						<Type>Integer</Type>
+						<Range>
+							<Minimum>1</Minimum>
+							<Maximum>100000</Maximum>
+							<SuggestedStart>1</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
+						</Range>
+						<DefaultValue>30</DefaultValue>
+					</OptionalInputArgument>
+				</OptionalInputArguments>
+				<OutputArguments>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outBegIdx</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outNBElement</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Double Array</Type>
+						<Name>outReal</Name>
+						<Flags>
+							<Flag>Line</Flag>
+						</Flags>
+					</OutputArgument>
+				</OutputArguments>
+			</Function>
+			<Function>
+				<Name>TA_KAMA_StateInit</Name>
+				<Type>StateInit</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
 					<SpecialInputArgument>
-						<Type>Pointer</Type>
+						<Type>Pointer to Pointer</Type>
 						<Name>state</Name>
 					</SpecialInputArgument>
-					<SpecialInputArgument>
-						<Type>Pointer to File</Type>
-						<Name>file</Name>
-					</SpecialInputArgument>
 				</SpecialInputArguments>
 				<OptionalInputArguments>
 					<OptionalInputArgument>
@@ -27280,29 +26532,137 @@
 						<ShortDescription>Number of period</ShortDescription>
 						<Type>Integer</Type>
 						<Range>
-							<Minimum>2</Minimum>
+							<Minimum>1</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
+							<SuggestedStart>1</SuggestedStart>
 							<SuggestedEnd>200</SuggestedEnd>
 							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
-						<DefaultValue>14</DefaultValue>
+						<DefaultValue>30</DefaultValue>
 					</OptionalInputArgument>
 				</OptionalInputArguments>
 			</Function>
+			<Function>
+				<Name>TA_KAMA_State</Name>
+				<Type>State</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+				<RequiredInputArguments>
+					<RequiredInputArgument>
+						<Type>Double</Type>
+						<Name>inReal</Name>
+					</RequiredInputArgument>
+				</RequiredInputArguments>
+				<OutputArguments>
+					<OutputArgument>
+						<Type>Double</Type>
+						<Name>outReal</Name>
+						<Flags>
+							<Flag>Line</Flag>
+						</Flags>
+					</OutputArgument>
+				</OutputArguments>
+			</Function>
+			<Function>
+				<Name>TA_KAMA_BatchState</Name>
+				<Type>BatchState</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+				<RequiredInputArguments>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>startIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>endIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double Array</Type>
+						<Name>inReal</Name>
+					</RequiredInputArgument>
+				</RequiredInputArguments>
+				<OutputArguments>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outBegIdx</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outNBElement</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Double Array</Type>
+						<Name>outReal</Name>
+						<Flags>
+							<Flag>Line</Flag>
+						</Flags>
+					</OutputArgument>
+				</OutputArguments>
+			</Function>
+			<Function>
+				<Name>TA_KAMA_StateFree</Name>
+				<Type>StateFree</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer to Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
+			<Function>
+				<Name>TA_KAMA_StateLoad</Name>
+				<Type>StateLoad</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer to Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+					<SpecialInputArgument>
+						<Type>Pointer to File</Type>
+						<Name>file</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
+			<Function>
+				<Name>TA_KAMA_StateSave</Name>
+				<Type>StateSave</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+					<SpecialInputArgument>
+						<Type>Pointer to File</Type>
+						<Name>file</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
 
 
-	<!-- KAMA -->
+	<!-- LINEARREG -->
 	<FinancialFunctionGroup>
-		<Abbreviation>KAMA</Abbreviation>
-		<CamelCaseName>Kama</CamelCaseName>
-		<ShortDescription>Kaufman Adaptive Moving Average</ShortDescription>
-		<GroupId>Overlap Studies</GroupId>
+		<Abbreviation>LINEARREG</Abbreviation>
+		<CamelCaseName>LinearReg</CamelCaseName>
+		<ShortDescription>Linear Regression</ShortDescription>
+		<GroupId>Statistic Functions</GroupId>
 		<Flags>
 			<Flag>Overlap</Flag>
-			<Flag>Unstable Period</Flag>
 		</Flags>
 		<StateMemory>
 			<StateMemoryField>
@@ -27325,24 +26685,28 @@
 			</StateField>
 			<StateField>
 				<Type>Double</Type>
-				<Name>sumROC1</Name>
+				<Name>SumX</Name>
 			</StateField>
 			<StateField>
 				<Type>Double</Type>
-				<Name>yestReal</Name>
+				<Name>SumXY</Name>
 			</StateField>
 			<StateField>
 				<Type>Double</Type>
-				<Name>prevKAMA</Name>
+				<Name>SumY</Name>
 			</StateField>
 			<StateField>
 				<Type>Double</Type>
-				<Name>trailingValue</Name>
+				<Name>SumXSqr</Name>
+			</StateField>
+			<StateField>
+				<Type>Double</Type>
+				<Name>Divisor</Name>
 			</StateField>
 		</State>
 		<Functions>
 			<Function>
-				<Name>TA_KAMA_Lookback</Name>
+				<Name>TA_LINEARREG_Lookback</Name>
 				<Type>Lookback</Type>
 				<ReturnValue>Integer</ReturnValue>
 				<OptionalInputArguments>
@@ -27351,18 +26715,18 @@
 						<ShortDescription>Number of period</ShortDescription>
 						<Type>Integer</Type>
 						<Range>
-							<Minimum>1</Minimum>
+							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
+							<SuggestedStart>4</SuggestedStart>
 							<SuggestedEnd>200</SuggestedEnd>
 							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
-						<DefaultValue>30</DefaultValue>
+						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_KAMA</Name>
+				<Name>TA_LINEARREG</Name>
 				<Type>Regular</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<RequiredInputArguments>
@@ -27385,13 +26749,13 @@
 						<ShortDescription>Number of period</ShortDescription>
 						<Type>Integer</Type>
 						<Range>
-							<Minimum>1</Minimum>
+							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
+							<SuggestedStart>4</SuggestedStart>
 							<SuggestedEnd>200</SuggestedEnd>
 							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
-						<DefaultValue>30</DefaultValue>
+						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
 				</OptionalInputArguments>
 				<OutputArguments>
@@ -27413,7 +26777,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_KAMA_StateInit</Name>
+				<Name>TA_LINEARREG_StateInit</Name>
 				<Type>StateInit</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -27428,18 +26792,18 @@
 						<ShortDescription>Number of period</ShortDescription>
 						<Type>Integer</Type>
 						<Range>
-							<Minimum>1</Minimum>
+							<Minimum>2</Minimum>
 							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
+							<SuggestedStart>4</SuggestedStart>
 							<SuggestedEnd>200</SuggestedEnd>
 							<SuggestedIncrement>1</SuggestedIncrement>
 						</Range>
-						<DefaultValue>30</DefaultValue>
+						<DefaultValue>14</DefaultValue>
 					</OptionalInputArgument>
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_KAMA_State</Name>
+				<Name>TA_LINEARREG_State</Name>
 				<Type>State</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -27465,7 +26829,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_KAMA_BatchState</Name>
+				<Name>TA_LINEARREG_BatchState</Name>
 				<Type>BatchState</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -27507,7 +26871,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_KAMA_StateFree</Name>
+				<Name>TA_LINEARREG_StateFree</Name>
 				<Type>StateFree</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -27518,7 +26882,7 @@
 				</SpecialInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_KAMA_StateLoad</Name>
+				<Name>TA_LINEARREG_StateLoad</Name>
 				<Type>StateLoad</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -27531,24 +26895,9 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_KAMA_StateSave</Name>
+				<Name>TA_LINEARREG_StateSave</Name>
 				<Type>StateSave</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -27561,35 +26910,17 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
 
 
-	<!-- LINEARREG -->
+	<!-- LINEARREG_ANGLE -->
 	<FinancialFunctionGroup>
-		<Abbreviation>LINEARREG</Abbreviation>
-		<CamelCaseName>LinearReg</CamelCaseName>
-		<ShortDescription>Linear Regression</ShortDescription>
+		<Abbreviation>LINEARREG_ANGLE</Abbreviation>
+		<CamelCaseName>LinearRegAngle</CamelCaseName>
+		<ShortDescription>Linear Regression Angle</ShortDescription>
 		<GroupId>Statistic Functions</GroupId>
-		<Flags>
-			<Flag>Overlap</Flag>
-		</Flags>
 		<StateMemory>
 			<StateMemoryField>
 				<Type>Double</Type>
@@ -27632,7 +26963,7 @@
 		</State>
 		<Functions>
 			<Function>
-				<Name>TA_LINEARREG_Lookback</Name>
+				<Name>TA_LINEARREG_ANGLE_Lookback</Name>
 				<Type>Lookback</Type>
 				<ReturnValue>Integer</ReturnValue>
 				<OptionalInputArguments>
@@ -27652,7 +26983,7 @@
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG</Name>
+				<Name>TA_LINEARREG_ANGLE</Name>
 				<Type>Regular</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<RequiredInputArguments>
@@ -27703,7 +27034,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_StateInit</Name>
+				<Name>TA_LINEARREG_ANGLE_StateInit</Name>
 				<Type>StateInit</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -27729,7 +27060,7 @@
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_State</Name>
+				<Name>TA_LINEARREG_ANGLE_State</Name>
 				<Type>State</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -27755,7 +27086,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_BatchState</Name>
+				<Name>TA_LINEARREG_ANGLE_BatchState</Name>
 				<Type>BatchState</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -27797,7 +27128,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_StateFree</Name>
+				<Name>TA_LINEARREG_ANGLE_StateFree</Name>
 				<Type>StateFree</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -27808,7 +27139,7 @@
 				</SpecialInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_StateLoad</Name>
+				<Name>TA_LINEARREG_ANGLE_StateLoad</Name>
 				<Type>StateLoad</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -27821,24 +27152,9 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_StateSave</Name>
+				<Name>TA_LINEARREG_ANGLE_StateSave</Name>
 				<Type>StateSave</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -27851,32 +27167,20 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
 
 
-	<!-- LINEARREG_ANGLE -->
+	<!-- LINEARREG_INTERCEPT -->
 	<FinancialFunctionGroup>
-		<Abbreviation>LINEARREG_ANGLE</Abbreviation>
-		<CamelCaseName>LinearRegAngle</CamelCaseName>
-		<ShortDescription>Linear Regression Angle</ShortDescription>
+		<Abbreviation>LINEARREG_INTERCEPT</Abbreviation>
+		<CamelCaseName>LinearRegIntercept</CamelCaseName>
+		<ShortDescription>Linear Regression Intercept</ShortDescription>
 		<GroupId>Statistic Functions</GroupId>
+		<Flags>
+			<Flag>Overlap</Flag>
+		</Flags>
 		<StateMemory>
 			<StateMemoryField>
 				<Type>Double</Type>
@@ -27919,7 +27223,7 @@
 		</State>
 		<Functions>
 			<Function>
-				<Name>TA_LINEARREG_ANGLE_Lookback</Name>
+				<Name>TA_LINEARREG_INTERCEPT_Lookback</Name>
 				<Type>Lookback</Type>
 				<ReturnValue>Integer</ReturnValue>
 				<OptionalInputArguments>
@@ -27939,7 +27243,7 @@
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_ANGLE</Name>
+				<Name>TA_LINEARREG_INTERCEPT</Name>
 				<Type>Regular</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<RequiredInputArguments>
@@ -27990,7 +27294,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_ANGLE_StateInit</Name>
+				<Name>TA_LINEARREG_INTERCEPT_StateInit</Name>
 				<Type>StateInit</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -28016,7 +27320,7 @@
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_ANGLE_State</Name>
+				<Name>TA_LINEARREG_INTERCEPT_State</Name>
 				<Type>State</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -28042,7 +27346,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_ANGLE_BatchState</Name>
+				<Name>TA_LINEARREG_INTERCEPT_BatchState</Name>
 				<Type>BatchState</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -28084,7 +27388,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_ANGLE_StateFree</Name>
+				<Name>TA_LINEARREG_INTERCEPT_StateFree</Name>
 				<Type>StateFree</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -28095,7 +27399,7 @@
 				</SpecialInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_ANGLE_StateLoad</Name>
+				<Name>TA_LINEARREG_INTERCEPT_StateLoad</Name>
 				<Type>StateLoad</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -28108,24 +27412,9 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_ANGLE_StateSave</Name>
+				<Name>TA_LINEARREG_INTERCEPT_StateSave</Name>
 				<Type>StateSave</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -28138,35 +27427,17 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
 
 
-	<!-- LINEARREG_INTERCEPT -->
+	<!-- LINEARREG_SLOPE -->
 	<FinancialFunctionGroup>
-		<Abbreviation>LINEARREG_INTERCEPT</Abbreviation>
-		<CamelCaseName>LinearRegIntercept</CamelCaseName>
-		<ShortDescription>Linear Regression Intercept</ShortDescription>
+		<Abbreviation>LINEARREG_SLOPE</Abbreviation>
+		<CamelCaseName>LinearRegSlope</CamelCaseName>
+		<ShortDescription>Linear Regression Slope</ShortDescription>
 		<GroupId>Statistic Functions</GroupId>
-		<Flags>
-			<Flag>Overlap</Flag>
-		</Flags>
 		<StateMemory>
 			<StateMemoryField>
 				<Type>Double</Type>
@@ -28209,7 +27480,7 @@
 		</State>
 		<Functions>
 			<Function>
-				<Name>TA_LINEARREG_INTERCEPT_Lookback</Name>
+				<Name>TA_LINEARREG_SLOPE_Lookback</Name>
 				<Type>Lookback</Type>
 				<ReturnValue>Integer</ReturnValue>
 				<OptionalInputArguments>
@@ -28229,7 +27500,7 @@
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_INTERCEPT</Name>
+				<Name>TA_LINEARREG_SLOPE</Name>
 				<Type>Regular</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<RequiredInputArguments>
@@ -28280,7 +27551,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_INTERCEPT_StateInit</Name>
+				<Name>TA_LINEARREG_SLOPE_StateInit</Name>
 				<Type>StateInit</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -28306,7 +27577,7 @@
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_INTERCEPT_State</Name>
+				<Name>TA_LINEARREG_SLOPE_State</Name>
 				<Type>State</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -28332,7 +27603,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_INTERCEPT_BatchState</Name>
+				<Name>TA_LINEARREG_SLOPE_BatchState</Name>
 				<Type>BatchState</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -28374,7 +27645,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_INTERCEPT_StateFree</Name>
+				<Name>TA_LINEARREG_SLOPE_StateFree</Name>
 				<Type>StateFree</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -28385,7 +27656,7 @@
 				</SpecialInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_INTERCEPT_StateLoad</Name>
+				<Name>TA_LINEARREG_SLOPE_StateLoad</Name>
 				<Type>StateLoad</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -28398,24 +27669,9 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_INTERCEPT_StateSave</Name>
+				<Name>TA_LINEARREG_SLOPE_StateSave</Name>
 				<Type>StateSave</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -28428,32 +27684,17 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
 
 
-	<!-- LINEARREG_SLOPE -->
+	<!-- LN -->
 	<FinancialFunctionGroup>
-		<Abbreviation>LINEARREG_SLOPE</Abbreviation>
-		<CamelCaseName>LinearRegSlope</CamelCaseName>
-		<ShortDescription>Linear Regression Slope</ShortDescription>
-		<GroupId>Statistic Functions</GroupId>
+		<Abbreviation>LN</Abbreviation>
+		<CamelCaseName>Ln</CamelCaseName>
+		<ShortDescription>Vector Log Natural</ShortDescription>
+		<GroupId>Math Transform</GroupId>
 		<StateMemory>
 			<StateMemoryField>
 				<Type>Double</Type>
@@ -28473,50 +27714,15 @@
 				<Type>Pointer</Type>
 				<Name>memory</Name>
 			</StateField>
-			<StateField>
-				<Type>Double</Type>
-				<Name>SumX</Name>
-			</StateField>
-			<StateField>
-				<Type>Double</Type>
-				<Name>SumXY</Name>
-			</StateField>
-			<StateField>
-				<Type>Double</Type>
-				<Name>SumY</Name>
-			</StateField>
-			<StateField>
-				<Type>Double</Type>
-				<Name>SumXSqr</Name>
-			</StateField>
-			<StateField>
-				<Type>Double</Type>
-				<Name>Divisor</Name>
-			</StateField>
 		</State>
 		<Functions>
 			<Function>
-				<Name>TA_LINEARREG_SLOPE_Lookback</Name>
+				<Name>TA_LN_Lookback</Name>
 				<Type>Lookback</Type>
 				<ReturnValue>Integer</ReturnValue>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_SLOPE</Name>
+				<Name>TA_LN</Name>
 				<Type>Regular</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<RequiredInputArguments>
@@ -28533,21 +27739,6 @@
 						<Name>inReal</Name>
 					</RequiredInputArgument>
 				</RequiredInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 				<OutputArguments>
 					<OutputArgument>
 						<Type>Pointer to Integer</Type>
@@ -28567,7 +27758,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_SLOPE_StateInit</Name>
+				<Name>TA_LN_StateInit</Name>
 				<Type>StateInit</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -28576,246 +27767,9 @@
 						<Name>state</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_LINEARREG_SLOPE_State</Name>
-				<Type>State</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<RequiredInputArguments>
-					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>inReal</Name>
-					</RequiredInputArgument>
-				</RequiredInputArguments>
-				<OutputArguments>
-					<OutputArgument>
-						<Type>Double</Type>
-						<Name>outReal</Name>
-						<Flags>
-							<Flag>Line</Flag>
-						</Flags>
-					</OutputArgument>
-				</OutputArguments>
-			</Function>
-			<Function>
-				<Name>TA_LINEARREG_SLOPE_BatchState</Name>
-				<Type>BatchState</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<RequiredInputArguments>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>startIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>endIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double Array</Type>
-						<Name>inReal</Name>
-					</RequiredInputArgument>
-				</RequiredInputArguments>
-				<OutputArguments>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outBegIdx</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outNBElement</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Double Array</Type>
-						<Name>outReal</Name>
-						<Flags>
-							<Flag>Line</Flag>
-						</Flags>
-					</OutputArgument>
-				</OutputArguments>
-			</Function>
-			<Function>
-				<Name>TA_LINEARREG_SLOPE_StateFree</Name>
-				<Type>StateFree</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer to Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-			</Function>
-			<Function>
-				<Name>TA_LINEARREG_SLOPE_StateLoad</Name>
-				<Type>StateLoad</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer to Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-					<SpecialInputArgument>
-						<Type>Pointer to File</Type>
-						<Name>file</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
-			</Function>
-			<Function>
-				<Name>TA_LINEARREG_SLOPE_StateSave</Name>
-				<Type>StateSave</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-					<SpecialInputArgument>
-						<Type>Pointer to File</Type>
-						<Name>file</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
-			</Function>
-		</Functions>
-	</FinancialFunctionGroup>
-
-
-	<!-- LN -->
-	<FinancialFunctionGroup>
-		<Abbreviation>LN</Abbreviation>
-		<CamelCaseName>Ln</CamelCaseName>
-		<ShortDescription>Vector Log Natural</ShortDescription>
-		<GroupId>Math Transform</GroupId>
-		<StateMemory>
-			<StateMemoryField>
-				<Type>Double</Type>
-				<Name>inReal</Name>
-			</StateMemoryField>
-		</StateMemory>
-		<State>
-			<StateField>
-				<Type>Integer</Type>
-				<Name>mem_size</Name>
-			</StateField>
-			<StateField>
-				<Type>Integer</Type>
-				<Name>mem_index</Name>
-			</StateField>
-			<StateField>
-				<Type>Pointer</Type>
-				<Name>memory</Name>
-			</StateField>
-		</State>
-		<Functions>
-			<Function>
-				<Name>TA_LN_Lookback</Name>
-				<Type>Lookback</Type>
-				<ReturnValue>Integer</ReturnValue>
-			</Function>
-			<Function>
-				<Name>TA_LN</Name>
-				<Type>Regular</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<RequiredInputArguments>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>startIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>endIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double Array</Type>
-						<Name>inReal</Name>
-					</RequiredInputArgument>
-				</RequiredInputArguments>
-				<OutputArguments>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outBegIdx</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outNBElement</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Double Array</Type>
-						<Name>outReal</Name>
-						<Flags>
-							<Flag>Line</Flag>
-						</Flags>
-					</OutputArgument>
-				</OutputArguments>
-			</Function>
-			<Function>
-				<Name>TA_LN_StateInit</Name>
-				<Type>StateInit</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer to Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-			</Function>
-			<Function>
-				<Name>TA_LN_State</Name>
+				<Name>TA_LN_State</Name>
 				<Type>State</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -29361,27 +28315,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MA_StateSave</Name>
@@ -29397,27 +28330,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -29776,47 +28688,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>12</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>26</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Signal Period</Name>
-						<ShortDescription>Smoothing for the signal line (nb of period)</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>9</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MACD_StateSave</Name>
@@ -29832,47 +28703,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>12</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>26</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Signal Period</Name>
-						<ShortDescription>Smoothing for the signal line (nb of period)</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>9</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -30285,65 +29115,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>12</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast MA</Name>
-						<ShortDescription>Type of Moving Average for fast MA</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>26</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow MA</Name>
-						<ShortDescription>Type of Moving Average for slow MA</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Signal Period</Name>
-						<ShortDescription>Smoothing for the signal line (nb of period)</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>9</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Signal MA</Name>
-						<ShortDescription>Type of Moving Average for signal line</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MACDEXT_StateSave</Name>
@@ -30359,65 +29130,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>12</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast MA</Name>
-						<ShortDescription>Type of Moving Average for fast MA</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>26</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow MA</Name>
-						<ShortDescription>Type of Moving Average for slow MA</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Signal Period</Name>
-						<ShortDescription>Smoothing for the signal line (nb of period)</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>9</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Signal MA</Name>
-						<ShortDescription>Type of Moving Average for signal line</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -30682,21 +29394,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Signal Period</Name>
-						<ShortDescription>Smoothing for the signal line (nb of period)</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>9</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MACDFIX_StateSave</Name>
@@ -30712,21 +29409,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Signal Period</Name>
-						<ShortDescription>Smoothing for the signal line (nb of period)</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>9</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -31111,36 +29793,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Limit</Name>
-						<ShortDescription>Upper limit use in the adaptive algorithm</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>1.000000e-2</Minimum>
-							<Maximum>9.900000e-1</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>2.100000e-1</SuggestedStart>
-							<SuggestedEnd>8.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Limit</Name>
-						<ShortDescription>Lower limit use in the adaptive algorithm</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>1.000000e-2</Minimum>
-							<Maximum>9.900000e-1</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>6.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MAMA_StateSave</Name>
@@ -31156,36 +29808,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Limit</Name>
-						<ShortDescription>Upper limit use in the adaptive algorithm</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>1.000000e-2</Minimum>
-							<Maximum>9.900000e-1</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>2.100000e-1</SuggestedStart>
-							<SuggestedEnd>8.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Limit</Name>
-						<ShortDescription>Lower limit use in the adaptive algorithm</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>1.000000e-2</Minimum>
-							<Maximum>9.900000e-1</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>6.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -31488,40 +30110,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Minimum Period</Name>
-						<ShortDescription>Value less than minimum will be changed to Minimum period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Maximum Period</Name>
-						<ShortDescription>Value higher than maximum will be changed to Maximum period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MAVP_StateSave</Name>
@@ -31537,40 +30125,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Minimum Period</Name>
-						<ShortDescription>Value less than minimum will be changed to Minimum period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Maximum Period</Name>
-						<ShortDescription>Value higher than maximum will be changed to Maximum period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -31771,283 +30325,8 @@
 						<Name>outNBElement</Name>
 					</OutputArgument>
 					<OutputArgument>
-						<Type>Double Array</Type>
-						<Name>outReal</Name>
-						<Flags>
-							<Flag>Line</Flag>
-						</Flags>
-					</OutputArgument>
-				</OutputArguments>
-			</Function>
-			<Function>
-				<Name>TA_MAX_StateFree</Name>
-				<Type>StateFree</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer to Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-			</Function>
-			<Function>
-				<Name>TA_MAX_StateLoad</Name>
-				<Type>StateLoad</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer to Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-					<SpecialInputArgument>
-						<Type>Pointer to File</Type>
-						<Name>file</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
-			</Function>
-			<Function>
-				<Name>TA_MAX_StateSave</Name>
-				<Type>StateSave</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-					<SpecialInputArgument>
-						<Type>Pointer to File</Type>
-						<Name>file</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
-			</Function>
-		</Functions>
-	</FinancialFunctionGroup>
-
-
-	<!-- MAXINDEX -->
-	<FinancialFunctionGroup>
-		<Abbreviation>MAXINDEX</Abbreviation>
-		<CamelCaseName>MaxIndex</CamelCaseName>
-		<ShortDescription>Index of highest value over a specified period</ShortDescription>
-		<GroupId>Math Operators</GroupId>
-		<StateMemory>
-			<StateMemoryField>
-				<Type>Double</Type>
-				<Name>inReal</Name>
-			</StateMemoryField>
-		</StateMemory>
-		<State>
-			<StateField>
-				<Type>Integer</Type>
-				<Name>mem_size</Name>
-			</StateField>
-			<StateField>
-				<Type>Integer</Type>
-				<Name>mem_index</Name>
-			</StateField>
-			<StateField>
-				<Type>Pointer</Type>
-				<Name>memory</Name>
-			</StateField>
-			<StateField>
-				<Type>Double</Type>
-				<Name>max</Name>
-			</StateField>
-			<StateField>
-				<Type>Integer</Type>
-				<Name>maxIdx</Name>
-			</StateField>
-		</State>
-		<Functions>
-			<Function>
-				<Name>TA_MAXINDEX_Lookback</Name>
-				<Type>Lookback</Type>
-				<ReturnValue>Integer</ReturnValue>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
-			</Function>
-			<Function>
-				<Name>TA_MAXINDEX</Name>
-				<Type>Regular</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<RequiredInputArguments>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>startIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>endIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double Array</Type>
-						<Name>inReal</Name>
-					</RequiredInputArgument>
-				</RequiredInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
-				<OutputArguments>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outBegIdx</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outNBElement</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Integer Array</Type>
-						<Name>outInteger</Name>
-						<Flags>
-							<Flag>Line</Flag>
-						</Flags>
-					</OutputArgument>
-				</OutputArguments>
-			</Function>
-			<Function>
-				<Name>TA_MAXINDEX_StateInit</Name>
-				<Type>StateInit</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer to Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
-			</Function>
-			<Function>
-				<Name>TA_MAXINDEX_State</Name>
-				<Type>State</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<RequiredInputArguments>
-					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>inReal</Name>
-					</RequiredInputArgument>
-				</RequiredInputArguments>
-				<OutputArguments>
-					<OutputArgument>
-						<Type>Integer</Type>
-						<Name>outInteger</Name>
-						<Flags>
-							<Flag>Line</Flag>
-						</Flags>
-					</OutputArgument>
-				</OutputArguments>
-			</Function>
-			<Function>
-				<Name>TA_MAXINDEX_BatchState</Name>
-				<Type>BatchState</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<RequiredInputArguments>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>startIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>endIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double Array</Type>
-						<Name>inReal</Name>
-					</RequiredInputArgument>
-				</RequiredInputArguments>
-				<OutputArguments>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outBegIdx</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outNBElement</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Integer Array</Type>
-						<Name>outInteger</Name>
+						<Type>Double Array</Type>
+						<Name>outReal</Name>
 						<Flags>
 							<Flag>Line</Flag>
 						</Flags>
@@ -32055,7 +30334,7 @@
 				</OutputArguments>
 			</Function>
 			<Function>
-				<Name>TA_MAXINDEX_StateFree</Name>
+				<Name>TA_MAX_StateFree</Name>
 				<Type>StateFree</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -32066,7 +30345,7 @@
 				</SpecialInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_MAXINDEX_StateLoad</Name>
+				<Name>TA_MAX_StateLoad</Name>
 				<Type>StateLoad</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
@@ -32079,6 +30358,65 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
+			</Function>
+			<Function>
+				<Name>TA_MAX_StateSave</Name>
+				<Type>StateSave</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+					<SpecialInputArgument>
+						<Type>Pointer to File</Type>
+						<Name>file</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
+		</Functions>
+	</FinancialFunctionGroup>
+
+
+	<!-- MAXINDEX -->
+	<FinancialFunctionGroup>
+		<Abbreviation>MAXINDEX</Abbreviation>
+		<CamelCaseName>MaxIndex</CamelCaseName>
+		<ShortDescription>Index of highest value over a specified period</ShortDescription>
+		<GroupId>Math Operators</GroupId>
+		<StateMemory>
+			<StateMemoryField>
+				<Type>Double</Type>
+				<Name>inReal</Name>
+			</StateMemoryField>
+		</StateMemory>
+		<State>
+			<StateField>
+				<Type>Integer</Type>
+				<Name>mem_size</Name>
+			</StateField>
+			<StateField>
+				<Type>Integer</Type>
+				<Name>mem_index</Name>
+			</StateField>
+			<StateField>
+				<Type>Pointer</Type>
+				<Name>memory</Name>
+			</StateField>
+			<StateField>
+				<Type>Double</Type>
+				<Name>max</Name>
+			</StateField>
+			<StateField>
+				<Type>Integer</Type>
+				<Name>maxIdx</Name>
+			</StateField>
+		</State>
+		<Functions>
+			<Function>
+				<Name>TA_MAXINDEX_Lookback</Name>
+				<Type>Lookback</Type>
+				<ReturnValue>Integer</ReturnValue>
 				<OptionalInputArguments>
 					<OptionalInputArgument>
 						<Name>Time Period</Name>
@@ -32096,18 +30434,65 @@
 				</OptionalInputArguments>
 			</Function>
 			<Function>
-				<Name>TA_MAXINDEX_StateSave</Name>
-				<Type>StateSave</Type>
+				<Name>TA_MAXINDEX</Name>
+				<Type>Regular</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<RequiredInputArguments>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>startIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>endIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double Array</Type>
+						<Name>inReal</Name>
+					</RequiredInputArgument>
+				</RequiredInputArguments>
+				<OptionalInputArguments>
+					<OptionalInputArgument>
+						<Name>Time Period</Name>
+						<ShortDescription>Number of period</ShortDescription>
+						<Type>Integer</Type>
+						<Range>
+							<Minimum>2</Minimum>
+							<Maximum>100000</Maximum>
+							<SuggestedStart>4</SuggestedStart>
+							<SuggestedEnd>200</SuggestedEnd>
+							<SuggestedIncrement>1</SuggestedIncrement>
+						</Range>
+						<DefaultValue>30</DefaultValue>
+					</OptionalInputArgument>
+				</OptionalInputArguments>
+				<OutputArguments>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outBegIdx</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outNBElement</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Integer Array</Type>
+						<Name>outInteger</Name>
+						<Flags>
+							<Flag>Line</Flag>
+						</Flags>
+					</OutputArgument>
+				</OutputArguments>
+			</Function>
+			<Function>
+				<Name>TA_MAXINDEX_StateInit</Name>
+				<Type>StateInit</Type>
 				<ReturnValue>TA_Result</ReturnValue>
 				<SpecialInputArguments>
 					<SpecialInputArgument>
-						<Type>Pointer</Type>
+						<Type>Pointer to Pointer</Type>
 						<Name>state</Name>
 					</SpecialInputArgument>
-					<SpecialInputArgument>
-						<Type>Pointer to File</Type>
-						<Name>file</Name>
-					</SpecialInputArgument>
 				</SpecialInputArguments>
 				<OptionalInputArguments>
 					<OptionalInputArgument>
@@ -32125,6 +30510,115 @@
 					</OptionalInputArgument>
 				</OptionalInputArguments>
 			</Function>
+			<Function>
+				<Name>TA_MAXINDEX_State</Name>
+				<Type>State</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+				<RequiredInputArguments>
+					<RequiredInputArgument>
+						<Type>Double</Type>
+						<Name>inReal</Name>
+					</RequiredInputArgument>
+				</RequiredInputArguments>
+				<OutputArguments>
+					<OutputArgument>
+						<Type>Integer</Type>
+						<Name>outInteger</Name>
+						<Flags>
+							<Flag>Line</Flag>
+						</Flags>
+					</OutputArgument>
+				</OutputArguments>
+			</Function>
+			<Function>
+				<Name>TA_MAXINDEX_BatchState</Name>
+				<Type>BatchState</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+				<RequiredInputArguments>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>startIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>endIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double Array</Type>
+						<Name>inReal</Name>
+					</RequiredInputArgument>
+				</RequiredInputArguments>
+				<OutputArguments>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outBegIdx</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outNBElement</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Integer Array</Type>
+						<Name>outInteger</Name>
+						<Flags>
+							<Flag>Line</Flag>
+						</Flags>
+					</OutputArgument>
+				</OutputArguments>
+			</Function>
+			<Function>
+				<Name>TA_MAXINDEX_StateFree</Name>
+				<Type>StateFree</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer to Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
+			<Function>
+				<Name>TA_MAXINDEX_StateLoad</Name>
+				<Type>StateLoad</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer to Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+					<SpecialInputArgument>
+						<Type>Pointer to File</Type>
+						<Name>file</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
+			<Function>
+				<Name>TA_MAXINDEX_StateSave</Name>
+				<Type>StateSave</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+					<SpecialInputArgument>
+						<Type>Pointer to File</Type>
+						<Name>file</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
 
@@ -32624,21 +31118,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MFI_StateSave</Name>
@@ -32654,21 +31133,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -32894,21 +31358,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MIDPOINT_StateSave</Name>
@@ -32924,21 +31373,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -33180,21 +31614,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MIDPRICE_StateSave</Name>
@@ -33210,21 +31629,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -33458,21 +31862,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MIN_StateSave</Name>
@@ -33488,21 +31877,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -33733,21 +32107,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MININDEX_StateSave</Name>
@@ -33763,21 +32122,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -34040,21 +32384,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MINMAX_StateSave</Name>
@@ -34070,21 +32399,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -34344,21 +32658,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MINMAXINDEX_StateSave</Name>
@@ -34374,21 +32673,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -34666,21 +32950,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MINUS_DI_StateSave</Name>
@@ -34696,21 +32965,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -34964,21 +33218,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MINUS_DM_StateSave</Name>
@@ -34994,21 +33233,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -35231,21 +33455,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_MOM_StateSave</Name>
@@ -35261,21 +33470,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -35757,21 +33951,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_NATR_StateSave</Name>
@@ -35787,21 +33966,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -36507,21 +34671,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_PLUS_DI_StateSave</Name>
@@ -36537,21 +34686,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -36805,21 +34939,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_PLUS_DM_StateSave</Name>
@@ -36835,21 +34954,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -37036,183 +35140,115 @@
 					</OptionalInputArgument>
 				</OptionalInputArguments>
 			</Function>
-			<Function>
-				<Name>TA_PPO_State</Name>
-				<Type>State</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<RequiredInputArguments>
-					<RequiredInputArgument>
-						<Type>Double</Type>
-						<Name>inReal</Name>
-					</RequiredInputArgument>
-				</RequiredInputArguments>
-				<OutputArguments>
-					<OutputArgument>
-						<Type>Double</Type>
-						<Name>outReal</Name>
-						<Flags>
-							<Flag>Line</Flag>
-						</Flags>
-					</OutputArgument>
-				</OutputArguments>
-			</Function>
-			<Function>
-				<Name>TA_PPO_BatchState</Name>
-				<Type>BatchState</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<RequiredInputArguments>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>startIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Integer</Type>
-						<Name>endIdx</Name>
-					</RequiredInputArgument>
-					<RequiredInputArgument>
-						<Type>Double Array</Type>
-						<Name>inReal</Name>
-					</RequiredInputArgument>
-				</RequiredInputArguments>
-				<OutputArguments>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outBegIdx</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Pointer to Integer</Type>
-						<Name>outNBElement</Name>
-					</OutputArgument>
-					<OutputArgument>
-						<Type>Double Array</Type>
-						<Name>outReal</Name>
-						<Flags>
-							<Flag>Line</Flag>
-						</Flags>
-					</OutputArgument>
-				</OutputArguments>
-			</Function>
-			<Function>
-				<Name>TA_PPO_StateFree</Name>
-				<Type>StateFree</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer to Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-			</Function>
-			<Function>
-				<Name>TA_PPO_StateLoad</Name>
-				<Type>StateLoad</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer to Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-					<SpecialInputArgument>
-						<Type>Pointer to File</Type>
-						<Name>file</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>12</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>26</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
-			</Function>
-			<Function>
-				<Name>TA_PPO_StateSave</Name>
-				<Type>StateSave</Type>
-				<ReturnValue>TA_Result</ReturnValue>
-				<SpecialInputArguments>
-					<SpecialInputArgument>
-						<Type>Pointer</Type>
-						<Name>state</Name>
-					</SpecialInputArgument>
-					<SpecialInputArgument>
-						<Type>Pointer to File</Type>
-						<Name>file</Name>
-					</SpecialInputArgument>
-				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast Period</Name>
-						<ShortDescription>Number of period for the fast MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>12</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow Period</Name>
-						<ShortDescription>Number of period for the slow MA</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>26</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>MA Type</Name>
-						<ShortDescription>Type of Moving Average</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
-			</Function>
+			<Function>
+				<Name>TA_PPO_State</Name>
+				<Type>State</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+				<RequiredInputArguments>
+					<RequiredInputArgument>
+						<Type>Double</Type>
+						<Name>inReal</Name>
+					</RequiredInputArgument>
+				</RequiredInputArguments>
+				<OutputArguments>
+					<OutputArgument>
+						<Type>Double</Type>
+						<Name>outReal</Name>
+						<Flags>
+							<Flag>Line</Flag>
+						</Flags>
+					</OutputArgument>
+				</OutputArguments>
+			</Function>
+			<Function>
+				<Name>TA_PPO_BatchState</Name>
+				<Type>BatchState</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+				<RequiredInputArguments>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>startIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Integer</Type>
+						<Name>endIdx</Name>
+					</RequiredInputArgument>
+					<RequiredInputArgument>
+						<Type>Double Array</Type>
+						<Name>inReal</Name>
+					</RequiredInputArgument>
+				</RequiredInputArguments>
+				<OutputArguments>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outBegIdx</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Pointer to Integer</Type>
+						<Name>outNBElement</Name>
+					</OutputArgument>
+					<OutputArgument>
+						<Type>Double Array</Type>
+						<Name>outReal</Name>
+						<Flags>
+							<Flag>Line</Flag>
+						</Flags>
+					</OutputArgument>
+				</OutputArguments>
+			</Function>
+			<Function>
+				<Name>TA_PPO_StateFree</Name>
+				<Type>StateFree</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer to Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
+			<Function>
+				<Name>TA_PPO_StateLoad</Name>
+				<Type>StateLoad</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer to Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+					<SpecialInputArgument>
+						<Type>Pointer to File</Type>
+						<Name>file</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
+			<Function>
+				<Name>TA_PPO_StateSave</Name>
+				<Type>StateSave</Type>
+				<ReturnValue>TA_Result</ReturnValue>
+				<SpecialInputArguments>
+					<SpecialInputArgument>
+						<Type>Pointer</Type>
+						<Name>state</Name>
+					</SpecialInputArgument>
+					<SpecialInputArgument>
+						<Type>Pointer to File</Type>
+						<Name>file</Name>
+					</SpecialInputArgument>
+				</SpecialInputArguments>
+			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
 
@@ -37858,21 +35894,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_ROC_StateSave</Name>
@@ -37888,21 +35909,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -38125,21 +36131,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_ROCP_StateSave</Name>
@@ -38155,21 +36146,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -38392,21 +36368,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_ROCR_StateSave</Name>
@@ -38422,21 +36383,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -38659,21 +36605,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_ROCR100_StateSave</Name>
@@ -38689,21 +36620,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>10</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -38945,21 +36861,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_RSI_StateSave</Name>
@@ -38975,21 +36876,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -39312,36 +37198,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Acceleration Factor</Name>
-						<ShortDescription>Acceleration Factor used up to the Maximum value</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>2.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Maximum</Name>
-						<ShortDescription>Acceleration Factor Maximum value</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>2.000000e-1</SuggestedStart>
-							<SuggestedEnd>4.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_SAR_StateSave</Name>
@@ -39357,36 +37213,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Acceleration Factor</Name>
-						<ShortDescription>Acceleration Factor used up to the Maximum value</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>2.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Maximum</Name>
-						<ShortDescription>Acceleration Factor Maximum value</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>2.000000e-1</SuggestedStart>
-							<SuggestedEnd>4.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -39965,120 +37791,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Start Value</Name>
-						<ShortDescription>Start value and direction. 0 for Auto, &gt;0 for Long, &lt;0 for Short</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>0.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Offset on Reverse</Name>
-						<ShortDescription>Percent offset added/removed to initial stop on short/long reversal</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>1.500000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>0.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Init Long</Name>
-						<ShortDescription>Acceleration Factor initial value for the Long direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>1.900000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Long</Name>
-						<ShortDescription>Acceleration Factor for the Long direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>2.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Max Long</Name>
-						<ShortDescription>Acceleration Factor maximum value for the Long direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>2.000000e-1</SuggestedStart>
-							<SuggestedEnd>4.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Init Short</Name>
-						<ShortDescription>Acceleration Factor initial value for the Short direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>1.900000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Short</Name>
-						<ShortDescription>Acceleration Factor for the Short direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>2.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Max Short</Name>
-						<ShortDescription>Acceleration Factor maximum value for the Short direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>2.000000e-1</SuggestedStart>
-							<SuggestedEnd>4.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_SAREXT_StateSave</Name>
@@ -40094,120 +37806,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Start Value</Name>
-						<ShortDescription>Start value and direction. 0 for Auto, &gt;0 for Long, &lt;0 for Short</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>0.000000e+0</SuggestedStart>
-							<SuggestedEnd>0.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>0.000000e+0</SuggestedIncrement>
-						</Range>
-						<DefaultValue>0.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Offset on Reverse</Name>
-						<ShortDescription>Percent offset added/removed to initial stop on short/long reversal</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>1.500000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>0.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Init Long</Name>
-						<ShortDescription>Acceleration Factor initial value for the Long direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>1.900000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Long</Name>
-						<ShortDescription>Acceleration Factor for the Long direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>2.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Max Long</Name>
-						<ShortDescription>Acceleration Factor maximum value for the Long direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>2.000000e-1</SuggestedStart>
-							<SuggestedEnd>4.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Init Short</Name>
-						<ShortDescription>Acceleration Factor initial value for the Short direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>1.900000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Short</Name>
-						<ShortDescription>Acceleration Factor for the Short direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>2.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-2</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>AF Max Short</Name>
-						<ShortDescription>Acceleration Factor maximum value for the Short direction</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>4</Precision>
-							<SuggestedStart>2.000000e-1</SuggestedStart>
-							<SuggestedEnd>4.000000e-1</SuggestedEnd>
-							<SuggestedIncrement>1.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>2.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -40821,21 +38419,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_SMA_StateSave</Name>
@@ -40851,21 +38434,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -41326,35 +38894,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Deviations</Name>
-						<ShortDescription>Nb of deviations</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>-2.000000e+0</SuggestedStart>
-							<SuggestedEnd>2.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>2.000000e-1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>1.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_STDDEV_StateSave</Name>
@@ -41370,35 +38909,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Deviations</Name>
-						<ShortDescription>Nb of deviations</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>-2.000000e+0</SuggestedStart>
-							<SuggestedEnd>2.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>2.000000e-1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>1.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -41812,59 +39322,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast-K Period</Name>
-						<ShortDescription>Time period for building the Fast-K line</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow-K Period</Name>
-						<ShortDescription>Smoothing for making the Slow-K line. Usually set to 3</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow-K MA</Name>
-						<ShortDescription>Type of Moving Average for Slow-K</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow-D Period</Name>
-						<ShortDescription>Smoothing for making the Slow-D line</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow-D MA</Name>
-						<ShortDescription>Type of Moving Average for Slow-D</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_STOCH_StateSave</Name>
@@ -41880,59 +39337,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast-K Period</Name>
-						<ShortDescription>Time period for building the Fast-K line</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow-K Period</Name>
-						<ShortDescription>Smoothing for making the Slow-K line. Usually set to 3</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow-K MA</Name>
-						<ShortDescription>Type of Moving Average for Slow-K</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow-D Period</Name>
-						<ShortDescription>Smoothing for making the Slow-D line</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Slow-D MA</Name>
-						<ShortDescription>Type of Moving Average for Slow-D</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -42285,40 +39689,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast-K Period</Name>
-						<ShortDescription>Time period for building the Fast-K line</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-D Period</Name>
-						<ShortDescription>Smoothing for making the Fast-D line. Usually set to 3</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-D MA</Name>
-						<ShortDescription>Type of Moving Average for Fast-D</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_STOCHF_StateSave</Name>
@@ -42334,40 +39704,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Fast-K Period</Name>
-						<ShortDescription>Time period for building the Fast-K line</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-D Period</Name>
-						<ShortDescription>Smoothing for making the Fast-D line. Usually set to 3</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-D MA</Name>
-						<ShortDescription>Type of Moving Average for Fast-D</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -42718,53 +40054,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-K Period</Name>
-						<ShortDescription>Time period for building the Fast-K line</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-D Period</Name>
-						<ShortDescription>Smoothing for making the Fast-D line. Usually set to 3</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-D MA</Name>
-						<ShortDescription>Type of Moving Average for Fast-D</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_STOCHRSI_StateSave</Name>
@@ -42780,53 +40069,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-K Period</Name>
-						<ShortDescription>Time period for building the Fast-K line</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-D Period</Name>
-						<ShortDescription>Smoothing for making the Fast-D line. Usually set to 3</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>3</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Fast-D MA</Name>
-						<ShortDescription>Type of Moving Average for Fast-D</ShortDescription>
-						<Type>MA Type</Type>
-						<DefaultValue>0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -43261,21 +40503,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_SUM_StateSave</Name>
@@ -43291,21 +40518,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -43630,35 +40842,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Volume Factor</Name>
-						<ShortDescription>Volume Factor</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>1.000000e+0</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>1.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>5.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>7.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_T3_StateSave</Name>
@@ -43674,35 +40857,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Volume Factor</Name>
-						<ShortDescription>Volume Factor</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>0.000000e+0</Minimum>
-							<Maximum>1.000000e+0</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>1.000000e-2</SuggestedStart>
-							<SuggestedEnd>1.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>5.000000e-2</SuggestedIncrement>
-						</Range>
-						<DefaultValue>7.000000e-1</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -44324,21 +41478,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_TEMA_StateSave</Name>
@@ -44354,21 +41493,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -44838,21 +41962,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_TRIMA_StateSave</Name>
@@ -44868,21 +41977,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -45121,21 +42215,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_TRIX_StateSave</Name>
@@ -45151,21 +42230,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -45411,21 +42475,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_TSF_StateSave</Name>
@@ -45441,21 +42490,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -46059,47 +43093,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>First Period</Name>
-						<ShortDescription>Number of bars for 1st period.</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>7</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Second Period</Name>
-						<ShortDescription>Number of bars fro 2nd period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Third Period</Name>
-						<ShortDescription>Number of bars for 3rd period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>28</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_ULTOSC_StateSave</Name>
@@ -46115,47 +43108,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>First Period</Name>
-						<ShortDescription>Number of bars for 1st period.</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>7</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Second Period</Name>
-						<ShortDescription>Number of bars fro 2nd period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Third Period</Name>
-						<ShortDescription>Number of bars for 3rd period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>28</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -46428,35 +43380,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Deviations</Name>
-						<ShortDescription>Nb of deviations</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>-2.000000e+0</SuggestedStart>
-							<SuggestedEnd>2.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>2.000000e-1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>1.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_VAR_StateSave</Name>
@@ -46472,35 +43395,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>5</DefaultValue>
-					</OptionalInputArgument>
-					<OptionalInputArgument>
-						<Name>Deviations</Name>
-						<ShortDescription>Nb of deviations</ShortDescription>
-						<Type>Double</Type>
-						<Range>
-							<Minimum>-3.000000e+37</Minimum>
-							<Maximum>3.000000e+37</Maximum>
-							<Precision>2</Precision>
-							<SuggestedStart>-2.000000e+0</SuggestedStart>
-							<SuggestedEnd>2.000000e+0</SuggestedEnd>
-							<SuggestedIncrement>2.000000e-1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>1.000000e+0</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -46998,21 +43892,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_WILLR_StateSave</Name>
@@ -47028,21 +43907,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>2</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>4</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>14</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -47285,21 +44149,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_WLMA_StateSave</Name>
@@ -47315,21 +44164,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
@@ -47567,21 +44401,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 			<Function>
 				<Name>TA_WMA_StateSave</Name>
@@ -47597,21 +44416,6 @@
 						<Name>file</Name>
 					</SpecialInputArgument>
 				</SpecialInputArguments>
-				<OptionalInputArguments>
-					<OptionalInputArgument>
-						<Name>Time Period</Name>
-						<ShortDescription>Number of period</ShortDescription>
-						<Type>Integer</Type>
-						<Range>
-							<Minimum>1</Minimum>
-							<Maximum>100000</Maximum>
-							<SuggestedStart>1</SuggestedStart>
-							<SuggestedEnd>200</SuggestedEnd>
-							<SuggestedIncrement>1</SuggestedIncrement>
-						</Range>
-						<DefaultValue>30</DefaultValue>
-					</OptionalInputArgument>
-				</OptionalInputArguments>
 			</Function>
 		</Functions>
 	</FinancialFunctionGroup>
-- 
2.43.0


From 68cd8b72f135da7f93a83c1f64b1999b4d194b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:35 +0000
Subject: [PATCH 38/40] fix: report a failed allocation (TA_ALLOC_ERR) instead
 of dereferencing NULL

---
 ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c         |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_ACOS.c             |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_AD.c               |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_ADD.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_ADOSC.c            |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_ADX.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_ADXR.c             |  9 +++-
 ta-lib-rt/c/src/ta_func/ta_APO.c              |  9 +++-
 ta-lib-rt/c/src/ta_func/ta_AROON.c            |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_AROONOSC.c         |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_ASIN.c             |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_ATAN.c             |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_ATR.c              | 24 ++++++++-
 ta-lib-rt/c/src/ta_func/ta_AVGDEV.c           |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c         |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_BBANDS.c           |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_BETA.c             | 11 +++-
 ta-lib-rt/c/src/ta_func/ta_BOP.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CCI.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c        |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c   |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c       |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c   |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c      |  9 +++-
 ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c |  8 ++-
 .../c/src/ta_func/ta_CDL3WHITESOLDIERS.c      |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c  |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c      |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c     |  8 ++-
 .../c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c     |  8 ++-
 .../c/src/ta_func/ta_CDLCONCEALBABYSWALL.c    |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c |  8 ++-
 .../c/src/ta_func/ta_CDLDARKCLOUDCOVER.c      |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c          |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c      |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c     |  8 ++-
 .../c/src/ta_func/ta_CDLEVENINGDOJISTAR.c     |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c   |  8 ++-
 .../c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c    |  8 ++-
 .../c/src/ta_func/ta_CDLGRAVESTONEDOJI.c      |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c        |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c    |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c        |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c   |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c      |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c       |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c    |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c  |  8 ++-
 .../c/src/ta_func/ta_CDLIDENTICAL3CROWS.c     |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c        |  8 ++-
 .../c/src/ta_func/ta_CDLINVERTEDHAMMER.c      |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c       |  8 ++-
 .../c/src/ta_func/ta_CDLKICKINGBYLENGTH.c     |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c  |  8 ++-
 .../c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c      |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c      |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c      |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c   |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c       |  8 ++-
 .../c/src/ta_func/ta_CDLMORNINGDOJISTAR.c     |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c   |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c        |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c      |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c   |  8 ++-
 .../c/src/ta_func/ta_CDLRISEFALL3METHODS.c    |  8 ++-
 .../c/src/ta_func/ta_CDLSEPARATINGLINES.c     |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c  |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c     |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c   |  8 ++-
 .../c/src/ta_func/ta_CDLSTALLEDPATTERN.c      |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c        |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c     |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c     |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c       |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c  |  8 ++-
 .../c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c     |  8 ++-
 .../c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c    |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CEIL.c             |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CMO.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_CORREL.c           |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_COS.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_COSH.c             |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_DEMA.c             |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_DIV.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_DX.c               |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_EMA.c              |  9 +++-
 ta-lib-rt/c/src/ta_func/ta_EXP.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_FLOOR.c            |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c      |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c       |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c        |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_HT_SINE.c          |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c     |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c     |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_IMI.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_KAMA.c             |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_LINEARREG.c        |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c  |  8 ++-
 .../c/src/ta_func/ta_LINEARREG_INTERCEPT.c    |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c  |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_LN.c               |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_LOG10.c            |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_MA.c               |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_MACD.c             |  9 +++-
 ta-lib-rt/c/src/ta_func/ta_MACDEXT.c          |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_MACDFIX.c          |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_MAMA.c             |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_MAVP.c             | 30 ++++++++++-
 ta-lib-rt/c/src/ta_func/ta_MAX.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c         |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c         |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_MFI.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c         |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c         |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_MIN.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_MININDEX.c         |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_MINMAX.c           |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c      |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c         |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c         |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_MOM.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_MULT.c             |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_NATR.c             | 24 ++++++++-
 ta-lib-rt/c/src/ta_func/ta_NVI.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_OBV.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c          |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c          |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_PPO.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_PVI.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_PVT.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_ROC.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_ROCP.c             |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_ROCR.c             |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_ROCR100.c          |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_RSI.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_SAR.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_SAREXT.c           |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_SIN.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_SINH.c             |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_SMA.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_SQRT.c             |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_STDDEV.c           |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_STOCH.c            | 51 ++++++++++++++++---
 ta-lib-rt/c/src/ta_func/ta_STOCHF.c           | 51 ++++++++++++++++---
 ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c         | 24 ++++++++-
 ta-lib-rt/c/src/ta_func/ta_SUB.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_SUM.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_T3.c               |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_TAN.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_TANH.c             |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_TEMA.c             |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_TRANGE.c           |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_TRIMA.c            |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_TRIX.c             |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_TSF.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c         |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_ULTOSC.c           |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_VAR.c              |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c         |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_WILLR.c            |  8 ++-
 ta-lib-rt/c/src/ta_func/ta_WLMA.c             |  9 +++-
 ta-lib-rt/c/src/ta_func/ta_WMA.c              |  8 ++-
 ta-lib-rt/c/src/tools/gen_code/gen_code.c     | 12 ++++-
 166 files changed, 1157 insertions(+), 340 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c b/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
index f6a14cc..d178a6c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ACCBANDS.c
@@ -369,13 +369,15 @@ TA_RetCode retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACCBANDS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ACCBANDS_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ACCBANDS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ACCBANDS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -715,6 +717,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACCBANDS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -723,6 +726,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ACCBANDS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ACCBANDS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ACOS.c b/ta-lib-rt/c/src/ta_func/ta_ACOS.c
index c2529f9..83b1c32 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ACOS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ACOS.c
@@ -205,12 +205,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACOS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_ACOS_Lookback();
 /* Generated */    #ifndef TA_ACOS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ACOS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -463,6 +465,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ACOS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -471,6 +474,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ACOS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ACOS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_AD.c b/ta-lib-rt/c/src/ta_func/ta_AD.c
index 262d2ae..db292f7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AD.c
@@ -252,12 +252,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_AD_Lookback();
 /* Generated */    #ifndef TA_AD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AD_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -551,6 +553,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -559,6 +562,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ad,sizeof(STATE_P.ad),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADD.c b/ta-lib-rt/c/src/ta_func/ta_ADD.c
index 620e17c..81694de 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADD.c
@@ -217,12 +217,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_ADD_Lookback();
 /* Generated */    #ifndef TA_ADD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADD_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -485,6 +487,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -493,6 +496,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ADD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADOSC.c b/ta-lib-rt/c/src/ta_func/ta_ADOSC.c
index a8c2fe4..12718a0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADOSC.c
@@ -390,14 +390,16 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInSlowPeriod = optInSlowPeriod;
 /* Generated */    MEM_SIZE_P = TA_ADOSC_Lookback(optInFastPeriod, optInSlowPeriod );
 /* Generated */    #ifndef TA_ADOSC_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADOSC_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -725,6 +727,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -733,6 +736,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADOSC_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ADOSC_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADX.c b/ta-lib-rt/c/src/ta_func/ta_ADX.c
index 34efe34..7c65073 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADX.c
@@ -585,13 +585,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ADX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ADX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADX_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -967,6 +969,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -975,6 +978,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ADX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ADXR.c b/ta-lib-rt/c/src/ta_func/ta_ADXR.c
index a23ffb7..9e1dfee 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ADXR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ADXR.c
@@ -302,13 +302,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADXR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ADXR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ADXR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADXR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -323,6 +325,7 @@
 
    // TODO only one double is needed for memory
    MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ADXR_Data));
+   if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 
    return FUNCTION_CALL_STATE_INIT(ADX)((struct TA_ADX_State**)&STATE_P.ADXState, STATE_P.optInTimePeriod);
 }
@@ -613,6 +616,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ADXR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -621,6 +625,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ADXR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ADXR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_APO.c b/ta-lib-rt/c/src/ta_func/ta_APO.c
index 7abb284..7087c5f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_APO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_APO.c
@@ -445,15 +445,17 @@ TA_RetCode TA_PREFIX(INT_PO)( int    startIdx,
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_APO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInSlowPeriod = optInSlowPeriod;
 /* Generated */    STATE_P.optInMAType = optInMAType;
 /* Generated */    MEM_SIZE_P = TA_APO_Lookback(optInFastPeriod, optInSlowPeriod, optInMAType );
 /* Generated */    #ifndef TA_APO_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_APO_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -523,6 +525,7 @@ TA_RetCode retCode;
     }
 
     STATE = TA_Calloc(1, sizeof(struct TA_APO_State));
+    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
     STATE_P.optInFastPeriod = optInFastPeriod;
     STATE_P.optInSlowPeriod = optInSlowPeriod;
@@ -819,6 +822,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_APO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -827,6 +831,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_APO_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_APO_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_AROON.c b/ta-lib-rt/c/src/ta_func/ta_AROON.c
index 5023801..eca47e5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AROON.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AROON.c
@@ -341,13 +341,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROON_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_AROON_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_AROON_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AROON_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -703,6 +705,7 @@ double temp;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROON_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -711,6 +714,7 @@ double temp;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AROON_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AROON_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c b/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c
index da47e01..ede9256 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AROONOSC.c
@@ -352,13 +352,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROONOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_AROONOSC_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_AROONOSC_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AROONOSC_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -698,6 +700,7 @@ double temp;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AROONOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -706,6 +709,7 @@ double temp;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AROONOSC_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AROONOSC_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ASIN.c b/ta-lib-rt/c/src/ta_func/ta_ASIN.c
index 8ff0efe..643b3e9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ASIN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ASIN.c
@@ -205,12 +205,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ASIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_ASIN_Lookback();
 /* Generated */    #ifndef TA_ASIN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ASIN_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -463,6 +465,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ASIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -471,6 +474,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ASIN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ASIN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ATAN.c b/ta-lib-rt/c/src/ta_func/ta_ATAN.c
index 5c866c4..0b5193d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATAN.c
@@ -202,12 +202,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_ATAN_Lookback();
 /* Generated */    #ifndef TA_ATAN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ATAN_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -460,6 +462,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -468,6 +471,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ATAN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ATAN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ATR.c b/ta-lib-rt/c/src/ta_func/ta_ATR.c
index c3bb1df..3b1faad 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ATR.c
@@ -249,6 +249,14 @@
 
    /* Allocate an intermediate buffer for TRANGE. */
    ARRAY_ALLOC(tempBuffer, lookbackTotal+(endIdx-startIdx)+1 );
+   #if !defined( _JAVA )
+      if( !tempBuffer )
+      {
+         VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+         VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+      }
+   #endif
 
    /* Do TRANGE in the intermediate buffer. */
    retCode = FUNCTION_CALL(TRANGE)( (startIdx-lookbackTotal+1), endIdx,
@@ -355,13 +363,15 @@ TA_RetCode retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ATR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ATR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ATR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -702,6 +712,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ATR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -710,6 +721,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ATR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ATR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
@@ -825,6 +837,14 @@ TA_RetCode retCode;
 /* Generated */                                     outBegIdx, outNBElement, outReal );
 /* Generated */    }
 /* Generated */    ARRAY_ALLOC(tempBuffer, lookbackTotal+(endIdx-startIdx)+1 );
+/* Generated */    #if !defined( _JAVA )
+/* Generated */       if( !tempBuffer )
+/* Generated */       {
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */       }
+/* Generated */    #endif
 /* Generated */    retCode = FUNCTION_CALL(TRANGE)( (startIdx-lookbackTotal+1), endIdx,
 /* Generated */                                     inHigh, inLow, inClose,
 /* Generated */                                     VALUE_HANDLE_OUT(outBegIdx1), VALUE_HANDLE_OUT(outNbElement1),
diff --git a/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c b/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
index 31f7bde..5dd7fe4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AVGDEV.c
@@ -262,13 +262,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGDEV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_AVGDEV_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_AVGDEV_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AVGDEV_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -552,6 +554,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGDEV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -560,6 +563,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AVGDEV_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AVGDEV_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c b/ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c
index 6400773..7a086a7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_AVGPRICE.c
@@ -226,12 +226,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_AVGPRICE_Lookback();
 /* Generated */    #ifndef TA_AVGPRICE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_AVGPRICE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -508,6 +510,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_AVGPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -516,6 +519,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_AVGPRICE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_AVGPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
index a3e3481..ff3fc71 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BBANDS.c
@@ -509,6 +509,7 @@
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BBANDS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInNbDevUp = optInNbDevUp;
@@ -516,9 +517,10 @@
 /* Generated */    STATE_P.optInMAType = optInMAType;
 /* Generated */    MEM_SIZE_P = TA_BBANDS_Lookback(optInTimePeriod, optInNbDevUp, optInNbDevDn, optInMAType );
 /* Generated */    #ifndef TA_BBANDS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BBANDS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -868,6 +870,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BBANDS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -876,6 +879,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_BBANDS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_BBANDS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_BETA.c b/ta-lib-rt/c/src/ta_func/ta_BETA.c
index 3f0df77..d7c1e42 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BETA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BETA.c
@@ -361,13 +361,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BETA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_BETA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_BETA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BETA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -378,7 +380,10 @@
    STATE_P.initialized = 0;
    MEM_SIZE_P--;
    if (MEM_SIZE_P > 0)
+   {
      MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BETA_Data));
+     if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+   }
 
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
@@ -724,6 +729,7 @@ double x,y,temp;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BETA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -732,6 +738,7 @@ double x,y,temp;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_BETA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_BETA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_BOP.c b/ta-lib-rt/c/src/ta_func/ta_BOP.c
index ea3d263..19953a5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_BOP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_BOP.c
@@ -225,12 +225,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BOP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_BOP_Lookback();
 /* Generated */    #ifndef TA_BOP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_BOP_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -513,6 +515,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_BOP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -521,6 +524,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_BOP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_BOP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CCI.c b/ta-lib-rt/c/src/ta_func/ta_CCI.c
index e8da501..247b455 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CCI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CCI.c
@@ -337,13 +337,15 @@ DEFINE_CIRCBUF_STRUCT(CCI, double)
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CCI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_CCI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_CCI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CCI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -657,6 +659,7 @@ double lastValue, sum, theAverage;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CCI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -665,6 +668,7 @@ double lastValue, sum, theAverage;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CCI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CCI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
index d2512d8..f8642c1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL2CROWS.c
@@ -280,12 +280,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL2CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL2CROWS_Lookback();
 /* Generated */    #ifndef TA_CDL2CROWS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL2CROWS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -603,6 +605,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL2CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -611,6 +614,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL2CROWS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL2CROWS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
index 374e12b..6ec358c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3BLACKCROWS.c
@@ -294,12 +294,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3BLACKCROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3BLACKCROWS_Lookback();
 /* Generated */    #ifndef TA_CDL3BLACKCROWS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3BLACKCROWS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -641,6 +643,7 @@ unsigned int i1,i2,i3;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3BLACKCROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -649,6 +652,7 @@ unsigned int i1,i2,i3;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3BLACKCROWS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3BLACKCROWS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal0,sizeof(STATE_P.ShadowVeryShortPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c b/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
index bbf326c..d12307b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3INSIDE.c
@@ -289,12 +289,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3INSIDE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3INSIDE_Lookback();
 /* Generated */    #ifndef TA_CDL3INSIDE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3INSIDE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -632,6 +634,7 @@ unsigned int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3INSIDE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -640,6 +643,7 @@ unsigned int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3INSIDE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3INSIDE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c b/ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c
index 2901e2d..7d979ec 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3LINESTRIKE.c
@@ -300,12 +300,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3LINESTRIKE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3LINESTRIKE_Lookback();
 /* Generated */    #ifndef TA_CDL3LINESTRIKE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3LINESTRIKE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -652,6 +654,7 @@ unsigned int i1,i2,i3;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3LINESTRIKE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -660,6 +663,7 @@ unsigned int i1,i2,i3;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3LINESTRIKE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3LINESTRIKE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.NearPeriodTotal3,sizeof(STATE_P.NearPeriodTotal3),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c b/ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c
index f8cebb6..a681b8f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3OUTSIDE.c
@@ -268,12 +268,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3OUTSIDE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3OUTSIDE_Lookback();
 /* Generated */    #ifndef TA_CDL3OUTSIDE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3OUTSIDE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -284,6 +286,7 @@
 
 //   MEM_SIZE_P--;
    MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3OUTSIDE_Data));
+   if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
    return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 }
 
@@ -574,6 +577,7 @@ int i1, i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3OUTSIDE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -582,6 +586,7 @@ int i1, i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3OUTSIDE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3OUTSIDE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c b/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c
index 0336b61..225206c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3STARSINSOUTH.c
@@ -329,12 +329,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3STARSINSOUTH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3STARSINSOUTH_Lookback();
 /* Generated */    #ifndef TA_CDL3STARSINSOUTH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3STARSINSOUTH_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -722,6 +724,7 @@ unsigned int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3STARSINSOUTH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -730,6 +733,7 @@ unsigned int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3STARSINSOUTH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3STARSINSOUTH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c b/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c
index c59ba43..e4f1494 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDL3WHITESOLDIERS.c
@@ -342,12 +342,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3WHITESOLDIERS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDL3WHITESOLDIERS_Lookback();
 /* Generated */    #ifndef TA_CDL3WHITESOLDIERS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDL3WHITESOLDIERS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -755,6 +757,7 @@ unsigned int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDL3WHITESOLDIERS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -763,6 +766,7 @@ unsigned int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDL3WHITESOLDIERS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDL3WHITESOLDIERS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal0,sizeof(STATE_P.ShadowVeryShortPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c b/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
index cf40ca8..1ba31a0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLABANDONEDBABY.c
@@ -350,13 +350,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLABANDONEDBABY_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLABANDONEDBABY_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLABANDONEDBABY_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLABANDONEDBABY_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -732,6 +734,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLABANDONEDBABY_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -740,6 +743,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLABANDONEDBABY_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLABANDONEDBABY_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c b/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c
index e6a2857..dd5e23b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLADVANCEBLOCK.c
@@ -378,12 +378,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLADVANCEBLOCK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLADVANCEBLOCK_Lookback();
 /* Generated */    #ifndef TA_CDLADVANCEBLOCK_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLADVANCEBLOCK_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -830,6 +832,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLADVANCEBLOCK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -838,6 +841,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLADVANCEBLOCK_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLADVANCEBLOCK_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowShortPeriodTotal0,sizeof(STATE_P.ShadowShortPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c b/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c
index c380a8e..d6a60d4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLBELTHOLD.c
@@ -284,12 +284,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBELTHOLD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLBELTHOLD_Lookback();
 /* Generated */    #ifndef TA_CDLBELTHOLD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLBELTHOLD_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -637,6 +639,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBELTHOLD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLBELTHOLD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLBELTHOLD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c b/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
index caa5b29..1eb8b09 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLBREAKAWAY.c
@@ -294,12 +294,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBREAKAWAY_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLBREAKAWAY_Lookback();
 /* Generated */    #ifndef TA_CDLBREAKAWAY_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLBREAKAWAY_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -637,6 +639,7 @@ unsigned int i1,i2,i3,i4;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLBREAKAWAY_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@ unsigned int i1,i2,i3,i4;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLBREAKAWAY_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLBREAKAWAY_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c b/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c
index b458467..2223028 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLCLOSINGMARUBOZU.c
@@ -298,12 +298,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCLOSINGMARUBOZU_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLCLOSINGMARUBOZU_Lookback();
 /* Generated */    #ifndef TA_CDLCLOSINGMARUBOZU_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLCLOSINGMARUBOZU_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -651,6 +653,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCLOSINGMARUBOZU_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -659,6 +662,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLCLOSINGMARUBOZU_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLCLOSINGMARUBOZU_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c b/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c
index 25f7f7f..e5d9ba3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLCONCEALBABYSWALL.c
@@ -303,12 +303,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCONCEALBABYSWALL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLCONCEALBABYSWALL_Lookback();
 /* Generated */    #ifndef TA_CDLCONCEALBABYSWALL_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLCONCEALBABYSWALL_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -652,6 +654,7 @@ unsigned int i1,i2,i3;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCONCEALBABYSWALL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -660,6 +663,7 @@ unsigned int i1,i2,i3;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLCONCEALBABYSWALL_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLCONCEALBABYSWALL_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal1,sizeof(STATE_P.ShadowVeryShortPeriodTotal1),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c b/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
index aceca9c..3274d26 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLCOUNTERATTACK.c
@@ -294,12 +294,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCOUNTERATTACK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLCOUNTERATTACK_Lookback();
 /* Generated */    #ifndef TA_CDLCOUNTERATTACK_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLCOUNTERATTACK_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -642,6 +644,7 @@ unsigned int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLCOUNTERATTACK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -650,6 +653,7 @@ unsigned int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLCOUNTERATTACK_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLCOUNTERATTACK_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal0,sizeof(STATE_P.BodyLongPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c b/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c
index 53f8275..b21baba 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLDARKCLOUDCOVER.c
@@ -310,13 +310,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDARKCLOUDCOVER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLDARKCLOUDCOVER_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLDARKCLOUDCOVER_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDARKCLOUDCOVER_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -639,6 +641,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDARKCLOUDCOVER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -647,6 +650,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDARKCLOUDCOVER_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLDARKCLOUDCOVER_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c b/ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c
index 3523601..675c17c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLDOJI.c
@@ -276,12 +276,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLDOJI_Lookback();
 /* Generated */    #ifndef TA_CDLDOJI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDOJI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -593,6 +595,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -601,6 +604,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDOJI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLDOJI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c
index 3eb838b..eb901b9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLDOJISTAR.c
@@ -290,12 +290,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLDOJISTAR_Lookback();
 /* Generated */    #ifndef TA_CDLDOJISTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDOJISTAR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -632,6 +634,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -640,6 +643,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDOJISTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLDOJISTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.DojiPeriodTotal,sizeof(STATE_P.DojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c b/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c
index f362ba7..8f70a69 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLDRAGONFLYDOJI.c
@@ -293,12 +293,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDRAGONFLYDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLDRAGONFLYDOJI_Lookback();
 /* Generated */    #ifndef TA_CDLDRAGONFLYDOJI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLDRAGONFLYDOJI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -635,6 +637,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLDRAGONFLYDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -643,6 +646,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLDRAGONFLYDOJI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLDRAGONFLYDOJI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c b/ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c
index 3a07d6a..6aa32bc 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLENGULFING.c
@@ -274,12 +274,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLENGULFING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLENGULFING_Lookback();
 /* Generated */    #ifndef TA_CDLENGULFING_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLENGULFING_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -579,6 +581,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLENGULFING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -587,6 +590,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLENGULFING_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLENGULFING_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c
index ecd51e1..ee250cf 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGDOJISTAR.c
@@ -338,13 +338,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLEVENINGDOJISTAR_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLEVENINGDOJISTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLEVENINGDOJISTAR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -707,6 +709,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -715,6 +718,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLEVENINGDOJISTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLEVENINGDOJISTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
index 63fe981..742d033 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLEVENINGSTAR.c
@@ -330,13 +330,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLEVENINGSTAR_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLEVENINGSTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLEVENINGSTAR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -689,6 +691,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLEVENINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -697,6 +700,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLEVENINGSTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLEVENINGSTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c b/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c
index 6377984..e255a59 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLGAPSIDESIDEWHITE.c
@@ -290,12 +290,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGAPSIDESIDEWHITE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLGAPSIDESIDEWHITE_Lookback();
 /* Generated */    #ifndef TA_CDLGAPSIDESIDEWHITE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLGAPSIDESIDEWHITE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -639,6 +641,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGAPSIDESIDEWHITE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -647,6 +650,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLGAPSIDESIDEWHITE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLGAPSIDESIDEWHITE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.NearPeriodTotal,sizeof(STATE_P.NearPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c b/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c
index 5918d5f..d87df2a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLGRAVESTONEDOJI.c
@@ -280,12 +280,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGRAVESTONEDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLGRAVESTONEDOJI_Lookback();
 /* Generated */    #ifndef TA_CDLGRAVESTONEDOJI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLGRAVESTONEDOJI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -623,6 +625,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLGRAVESTONEDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -631,6 +634,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLGRAVESTONEDOJI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLGRAVESTONEDOJI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c b/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c
index 937e225..b3d6298 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHAMMER.c
@@ -306,12 +306,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHAMMER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHAMMER_Lookback();
 /* Generated */    #ifndef TA_CDLHAMMER_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHAMMER_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -683,6 +685,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHAMMER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -691,6 +694,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHAMMER_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHAMMER_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c b/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c
index 085136f..a8da618 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHANGINGMAN.c
@@ -306,12 +306,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHANGINGMAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHANGINGMAN_Lookback();
 /* Generated */    #ifndef TA_CDLHANGINGMAN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHANGINGMAN_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -683,6 +685,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHANGINGMAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -691,6 +694,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHANGINGMAN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHANGINGMAN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c
index 17adadf..881ece5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMI.c
@@ -301,12 +301,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHARAMI_Lookback();
 /* Generated */    #ifndef TA_CDLHARAMI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHARAMI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -656,6 +658,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -664,6 +667,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHARAMI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHARAMI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyShortPeriodTotal,sizeof(STATE_P.BodyShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c
index 4a091e9..56ad5c3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHARAMICROSS.c
@@ -297,12 +297,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMICROSS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHARAMICROSS_Lookback();
 /* Generated */    #ifndef TA_CDLHARAMICROSS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHARAMICROSS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -653,6 +655,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHARAMICROSS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -661,6 +664,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHARAMICROSS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHARAMICROSS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
index 95f2f5b..5853c03 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIGHWAVE.c
@@ -276,12 +276,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIGHWAVE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHIGHWAVE_Lookback();
 /* Generated */    #ifndef TA_CDLHIGHWAVE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHIGHWAVE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -607,6 +609,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIGHWAVE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -615,6 +618,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHIGHWAVE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHIGHWAVE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c
index 3198dcb..1de857b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKE.c
@@ -298,12 +298,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHIKKAKE_Lookback();
 /* Generated */    #ifndef TA_CDLHIKKAKE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHIKKAKE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -637,6 +639,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHIKKAKE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHIKKAKE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.patternResult,sizeof(STATE_P.patternResult),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
index 48bc4be..83eec74 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHIKKAKEMOD.c
@@ -330,12 +330,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKEMOD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHIKKAKEMOD_Lookback();
 /* Generated */    #ifndef TA_CDLHIKKAKEMOD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHIKKAKEMOD_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -693,6 +695,7 @@ int i1,i2,i3;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHIKKAKEMOD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -701,6 +704,7 @@ int i1,i2,i3;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHIKKAKEMOD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHIKKAKEMOD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.patternResult,sizeof(STATE_P.patternResult),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c b/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c
index 199497d..dac23ea 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLHOMINGPIGEON.c
@@ -291,12 +291,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHOMINGPIGEON_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLHOMINGPIGEON_Lookback();
 /* Generated */    #ifndef TA_CDLHOMINGPIGEON_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLHOMINGPIGEON_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -637,6 +639,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLHOMINGPIGEON_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLHOMINGPIGEON_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLHOMINGPIGEON_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c
index 37166c6..15a65ea 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLIDENTICAL3CROWS.c
@@ -316,12 +316,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLIDENTICAL3CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLIDENTICAL3CROWS_Lookback();
 /* Generated */    #ifndef TA_CDLIDENTICAL3CROWS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLIDENTICAL3CROWS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -695,6 +697,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLIDENTICAL3CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -703,6 +706,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLIDENTICAL3CROWS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLIDENTICAL3CROWS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal0,sizeof(STATE_P.ShadowVeryShortPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c b/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c
index 9d0b5ff..80ddca1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLINNECK.c
@@ -292,12 +292,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINNECK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLINNECK_Lookback();
 /* Generated */    #ifndef TA_CDLINNECK_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLINNECK_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -636,6 +638,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINNECK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -644,6 +647,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLINNECK_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLINNECK_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c b/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c
index 5101675..2f91db0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLINVERTEDHAMMER.c
@@ -301,12 +301,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINVERTEDHAMMER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLINVERTEDHAMMER_Lookback();
 /* Generated */    #ifndef TA_CDLINVERTEDHAMMER_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLINVERTEDHAMMER_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -663,6 +665,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLINVERTEDHAMMER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -671,6 +674,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLINVERTEDHAMMER_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLINVERTEDHAMMER_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c b/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
index 081f35d..401461f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLKICKING.c
@@ -304,12 +304,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLKICKING_Lookback();
 /* Generated */    #ifndef TA_CDLKICKING_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLKICKING_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -672,6 +674,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -680,6 +683,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLKICKING_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLKICKING_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal0,sizeof(STATE_P.BodyPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c b/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
index 7cabf7c..8ab1d3f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLKICKINGBYLENGTH.c
@@ -306,12 +306,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKINGBYLENGTH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLKICKINGBYLENGTH_Lookback();
 /* Generated */    #ifndef TA_CDLKICKINGBYLENGTH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLKICKINGBYLENGTH_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -679,6 +681,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLKICKINGBYLENGTH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -687,6 +690,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLKICKINGBYLENGTH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLKICKINGBYLENGTH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal0,sizeof(STATE_P.BodyPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c b/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c
index ac07488..1e813e9 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLLADDERBOTTOM.c
@@ -282,12 +282,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLADDERBOTTOM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLLADDERBOTTOM_Lookback();
 /* Generated */    #ifndef TA_CDLLADDERBOTTOM_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLLADDERBOTTOM_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -618,6 +620,7 @@ int i1, i2, i3, i4;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLADDERBOTTOM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -626,6 +629,7 @@ int i1, i2, i3, i4;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLLADDERBOTTOM_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLLADDERBOTTOM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c
index 0efb80e..0450088 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLEGGEDDOJI.c
@@ -279,12 +279,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLEGGEDDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLLONGLEGGEDDOJI_Lookback();
 /* Generated */    #ifndef TA_CDLLONGLEGGEDDOJI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLLONGLEGGEDDOJI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -620,6 +622,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLEGGEDDOJI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -628,6 +631,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLLONGLEGGEDDOJI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLLONGLEGGEDDOJI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
index 899df25..d32bdb8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLLONGLINE.c
@@ -280,12 +280,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLLONGLINE_Lookback();
 /* Generated */    #ifndef TA_CDLLONGLINE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLLONGLINE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -621,6 +623,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLLONGLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -629,6 +632,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLLONGLINE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLLONGLINE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowPeriodTotal,sizeof(STATE_P.ShadowPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c b/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c
index b6307bd..3e9f24f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMARUBOZU.c
@@ -276,12 +276,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMARUBOZU_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLMARUBOZU_Lookback();
 /* Generated */    #ifndef TA_CDLMARUBOZU_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMARUBOZU_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -621,6 +623,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMARUBOZU_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -629,6 +632,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMARUBOZU_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMARUBOZU_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c b/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c
index 81708ca..a0d78c7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMATCHINGLOW.c
@@ -273,12 +273,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATCHINGLOW_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLMATCHINGLOW_Lookback();
 /* Generated */    #ifndef TA_CDLMATCHINGLOW_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMATCHINGLOW_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -602,6 +604,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATCHINGLOW_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -610,6 +613,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMATCHINGLOW_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMATCHINGLOW_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.EqualPeriodTotal,sizeof(STATE_P.EqualPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c b/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
index 299aeb2..a112bc7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMATHOLD.c
@@ -347,13 +347,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATHOLD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLMATHOLD_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLMATHOLD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMATHOLD_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -729,6 +731,7 @@ int i1, i2, i3, i4;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMATHOLD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -737,6 +740,7 @@ int i1, i2, i3, i4;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMATHOLD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMATHOLD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c
index 1e542fd..765047b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGDOJISTAR.c
@@ -332,13 +332,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLMORNINGDOJISTAR_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLMORNINGDOJISTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMORNINGDOJISTAR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -701,6 +703,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGDOJISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -709,6 +712,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMORNINGDOJISTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMORNINGDOJISTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
index 8e8b669..95375b3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLMORNINGSTAR.c
@@ -320,13 +320,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInPenetration = optInPenetration;
 /* Generated */    MEM_SIZE_P = TA_CDLMORNINGSTAR_Lookback(optInPenetration );
 /* Generated */    #ifndef TA_CDLMORNINGSTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLMORNINGSTAR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -679,6 +681,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLMORNINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -687,6 +690,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLMORNINGSTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLMORNINGSTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInPenetration,sizeof(STATE_P.optInPenetration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c b/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c
index ccab91e..4f97c3e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLONNECK.c
@@ -284,12 +284,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLONNECK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLONNECK_Lookback();
 /* Generated */    #ifndef TA_CDLONNECK_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLONNECK_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -631,6 +633,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLONNECK_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -639,6 +642,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLONNECK_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLONNECK_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.EqualPeriodTotal,sizeof(STATE_P.EqualPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c b/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c
index 1d898ca..1938541 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLPIERCING.c
@@ -284,12 +284,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLPIERCING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLPIERCING_Lookback();
 /* Generated */    #ifndef TA_CDLPIERCING_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLPIERCING_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -622,6 +624,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLPIERCING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -630,6 +633,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLPIERCING_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLPIERCING_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal0,sizeof(STATE_P.BodyLongPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c b/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
index cc020fb..29ff498 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLRICKSHAWMAN.c
@@ -306,12 +306,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRICKSHAWMAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLRICKSHAWMAN_Lookback();
 /* Generated */    #ifndef TA_CDLRICKSHAWMAN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLRICKSHAWMAN_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -669,6 +671,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRICKSHAWMAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -677,6 +680,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLRICKSHAWMAN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLRICKSHAWMAN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c b/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
index 0fc45d1..f53e76d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLRISEFALL3METHODS.c
@@ -314,12 +314,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRISEFALL3METHODS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLRISEFALL3METHODS_Lookback();
 /* Generated */    #ifndef TA_CDLRISEFALL3METHODS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLRISEFALL3METHODS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -696,6 +698,7 @@ int i1, i2, i3, i4;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLRISEFALL3METHODS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -704,6 +707,7 @@ int i1, i2, i3, i4;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLRISEFALL3METHODS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLRISEFALL3METHODS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal0,sizeof(STATE_P.BodyPeriodTotal0),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c b/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c
index 91600a0..d267a67 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSEPARATINGLINES.c
@@ -301,12 +301,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSEPARATINGLINES_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSEPARATINGLINES_Lookback();
 /* Generated */    #ifndef TA_CDLSEPARATINGLINES_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSEPARATINGLINES_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -673,6 +675,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSEPARATINGLINES_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -681,6 +684,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSEPARATINGLINES_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSEPARATINGLINES_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowVeryShortPeriodTotal,sizeof(STATE_P.ShadowVeryShortPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
index 45a251f..3492002 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSHOOTINGSTAR.c
@@ -297,12 +297,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHOOTINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSHOOTINGSTAR_Lookback();
 /* Generated */    #ifndef TA_CDLSHOOTINGSTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSHOOTINGSTAR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -657,6 +659,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHOOTINGSTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -665,6 +668,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSHOOTINGSTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSHOOTINGSTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c b/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
index 54385c3..8ad20d2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSHORTLINE.c
@@ -276,12 +276,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHORTLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSHORTLINE_Lookback();
 /* Generated */    #ifndef TA_CDLSHORTLINE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSHORTLINE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -617,6 +619,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSHORTLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -625,6 +628,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSHORTLINE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSHORTLINE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.ShadowPeriodTotal,sizeof(STATE_P.ShadowPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c b/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
index 8829cac..f138f25 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSPINNINGTOP.c
@@ -268,12 +268,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSPINNINGTOP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSPINNINGTOP_Lookback();
 /* Generated */    #ifndef TA_CDLSPINNINGTOP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSPINNINGTOP_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -592,6 +594,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSPINNINGTOP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -600,6 +603,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSPINNINGTOP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSPINNINGTOP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c b/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
index deec975..c01a603 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSTALLEDPATTERN.c
@@ -332,12 +332,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTALLEDPATTERN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSTALLEDPATTERN_Lookback();
 /* Generated */    #ifndef TA_CDLSTALLEDPATTERN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSTALLEDPATTERN_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -731,6 +733,7 @@ int i1, i2, i3;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTALLEDPATTERN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -739,6 +742,7 @@ int i1, i2, i3;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSTALLEDPATTERN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSTALLEDPATTERN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal1,sizeof(STATE_P.BodyLongPeriodTotal1),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c b/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c
index c6b80bf..af00853 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLSTICKSANDWICH.c
@@ -274,12 +274,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTICKSANDWICH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLSTICKSANDWICH_Lookback();
 /* Generated */    #ifndef TA_CDLSTICKSANDWICH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLSTICKSANDWICH_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -605,6 +607,7 @@ int i1, i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLSTICKSANDWICH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -613,6 +616,7 @@ int i1, i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLSTICKSANDWICH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLSTICKSANDWICH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.EqualPeriodTotal,sizeof(STATE_P.EqualPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c b/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c
index 34f5410..acc790c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTAKURI.c
@@ -297,12 +297,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTAKURI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLTAKURI_Lookback();
 /* Generated */    #ifndef TA_CDLTAKURI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTAKURI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -654,6 +656,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTAKURI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -662,6 +665,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTAKURI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLTAKURI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyDojiPeriodTotal,sizeof(STATE_P.BodyDojiPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c b/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c
index 3253df0..dad5405 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTASUKIGAP.c
@@ -291,12 +291,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTASUKIGAP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLTASUKIGAP_Lookback();
 /* Generated */    #ifndef TA_CDLTASUKIGAP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTASUKIGAP_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -637,6 +639,7 @@ int i1, i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTASUKIGAP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@ int i1, i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTASUKIGAP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLTASUKIGAP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.NearPeriodTotal,sizeof(STATE_P.NearPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c b/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c
index c545320..53cbc76 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTHRUSTING.c
@@ -290,12 +290,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTHRUSTING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLTHRUSTING_Lookback();
 /* Generated */    #ifndef TA_CDLTHRUSTING_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTHRUSTING_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -637,6 +639,7 @@ int i1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTHRUSTING_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@ int i1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTHRUSTING_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLTHRUSTING_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.EqualPeriodTotal,sizeof(STATE_P.EqualPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c b/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
index 79a23e8..dcfee25 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLTRISTAR.c
@@ -288,12 +288,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTRISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLTRISTAR_Lookback();
 /* Generated */    #ifndef TA_CDLTRISTAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLTRISTAR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -628,6 +630,7 @@ int i1, i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLTRISTAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -636,6 +639,7 @@ int i1, i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLTRISTAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLTRISTAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyPeriodTotal,sizeof(STATE_P.BodyPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c b/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
index 0073ac2..1a5b79b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLUNIQUE3RIVER.c
@@ -288,12 +288,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUNIQUE3RIVER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLUNIQUE3RIVER_Lookback();
 /* Generated */    #ifndef TA_CDLUNIQUE3RIVER_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLUNIQUE3RIVER_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -638,6 +640,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUNIQUE3RIVER_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -646,6 +649,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLUNIQUE3RIVER_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLUNIQUE3RIVER_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c b/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
index 5aee506..cf84dfa 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLUPSIDEGAP2CROWS.c
@@ -291,12 +291,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUPSIDEGAP2CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLUPSIDEGAP2CROWS_Lookback();
 /* Generated */    #ifndef TA_CDLUPSIDEGAP2CROWS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLUPSIDEGAP2CROWS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -641,6 +643,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLUPSIDEGAP2CROWS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -649,6 +652,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLUPSIDEGAP2CROWS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLUPSIDEGAP2CROWS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.BodyLongPeriodTotal,sizeof(STATE_P.BodyLongPeriodTotal),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c b/ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c
index 4ef4bf8..d77d233 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CDLXSIDEGAP3METHODS.c
@@ -272,12 +272,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLXSIDEGAP3METHODS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CDLXSIDEGAP3METHODS_Lookback();
 /* Generated */    #ifndef TA_CDLXSIDEGAP3METHODS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CDLXSIDEGAP3METHODS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -581,6 +583,7 @@ int i1,i2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CDLXSIDEGAP3METHODS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -589,6 +592,7 @@ int i1,i2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CDLXSIDEGAP3METHODS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CDLXSIDEGAP3METHODS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CEIL.c b/ta-lib-rt/c/src/ta_func/ta_CEIL.c
index 26b69a8..f559303 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CEIL.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CEIL.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CEIL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_CEIL_Lookback();
 /* Generated */    #ifndef TA_CEIL_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CEIL_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CEIL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CEIL_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CEIL_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_CMO.c b/ta-lib-rt/c/src/ta_func/ta_CMO.c
index 426b769..26a8acb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CMO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CMO.c
@@ -448,13 +448,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CMO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_CMO_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_CMO_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CMO_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -769,6 +771,7 @@ double tempValue1, tempValue2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CMO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -777,6 +780,7 @@ double tempValue1, tempValue2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CMO_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CMO_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_CORREL.c b/ta-lib-rt/c/src/ta_func/ta_CORREL.c
index daef286..559087d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_CORREL.c
+++ b/ta-lib-rt/c/src/ta_func/ta_CORREL.c
@@ -315,13 +315,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CORREL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_CORREL_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_CORREL_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_CORREL_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -637,6 +639,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_CORREL_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -645,6 +648,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_CORREL_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_CORREL_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_COS.c b/ta-lib-rt/c/src/ta_func/ta_COS.c
index 0449fc0..ad1a418 100644
--- a/ta-lib-rt/c/src/ta_func/ta_COS.c
+++ b/ta-lib-rt/c/src/ta_func/ta_COS.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_COS_Lookback();
 /* Generated */    #ifndef TA_COS_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_COS_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COS_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_COS_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_COS_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_COSH.c b/ta-lib-rt/c/src/ta_func/ta_COSH.c
index a55af67..ad2885b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_COSH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_COSH.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COSH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_COSH_Lookback();
 /* Generated */    #ifndef TA_COSH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_COSH_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -465,6 +467,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_COSH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -473,6 +476,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_COSH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_COSH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_DEMA.c b/ta-lib-rt/c/src/ta_func/ta_DEMA.c
index 2f24847..8e8be4f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_DEMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_DEMA.c
@@ -375,13 +375,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DEMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_DEMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_DEMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_DEMA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -669,6 +671,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DEMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -677,6 +680,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_DEMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_DEMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_DIV.c b/ta-lib-rt/c/src/ta_func/ta_DIV.c
index cc3a702..d8d7695 100644
--- a/ta-lib-rt/c/src/ta_func/ta_DIV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_DIV.c
@@ -213,12 +213,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DIV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_DIV_Lookback();
 /* Generated */    #ifndef TA_DIV_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_DIV_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -479,6 +481,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DIV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -487,6 +490,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_DIV_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_DIV_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_DX.c b/ta-lib-rt/c/src/ta_func/ta_DX.c
index f63be0a..c5a9922 100644
--- a/ta-lib-rt/c/src/ta_func/ta_DX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_DX.c
@@ -522,13 +522,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_DX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_DX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_DX_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -885,6 +887,7 @@ double minusDI, plusDI;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_DX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -893,6 +896,7 @@ double minusDI, plusDI;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_DX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_DX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_EMA.c b/ta-lib-rt/c/src/ta_func/ta_EMA.c
index 381f574..effa76a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_EMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_EMA.c
@@ -395,13 +395,15 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_EMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_EMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_EMA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -441,6 +443,7 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
     STATE = TA_Calloc(1, sizeof(struct TA_EMA_State));
+    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
     STATE_P.optInTimePeriod = optInTimePeriod;
     STATE_P.optInK_1 = optInK_1;
@@ -750,6 +753,7 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -758,6 +762,7 @@ TA_RetCode TA_PREFIX(INT_EMA)( int               startIdx,
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_EMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_EMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_EXP.c b/ta-lib-rt/c/src/ta_func/ta_EXP.c
index bf74448..688e66e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_EXP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_EXP.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EXP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_EXP_Lookback();
 /* Generated */    #ifndef TA_EXP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_EXP_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_EXP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_EXP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_EXP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_FLOOR.c b/ta-lib-rt/c/src/ta_func/ta_FLOOR.c
index 8c2137f..fda4c1a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_FLOOR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_FLOOR.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_FLOOR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_FLOOR_Lookback();
 /* Generated */    #ifndef TA_FLOOR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_FLOOR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_FLOOR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_FLOOR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_FLOOR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c b/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
index 28adde5..31fbc90 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_DCPERIOD.c
@@ -406,12 +406,14 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPERIOD)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPERIOD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_DCPERIOD_Lookback();
 /* Generated */    #ifndef TA_HT_DCPERIOD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_DCPERIOD_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -838,6 +840,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPERIOD)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPERIOD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -846,6 +849,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPERIOD)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_DCPERIOD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_DCPERIOD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c b/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
index 0e937ac..971a8ab 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_DCPHASE.c
@@ -490,12 +490,14 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPHASE)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPHASE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_DCPHASE_Lookback();
 /* Generated */    #ifndef TA_HT_DCPHASE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_DCPHASE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -985,6 +987,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPHASE)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_DCPHASE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -993,6 +996,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_DCPHASE)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_DCPHASE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_DCPHASE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c b/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
index 9adc595..9c30a3f 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_PHASOR.c
@@ -423,12 +423,14 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_PHASOR)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_PHASOR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_PHASOR_Lookback();
 /* Generated */    #ifndef TA_HT_PHASOR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_PHASOR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -877,6 +879,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_PHASOR)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_PHASOR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -885,6 +888,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_PHASOR)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_PHASOR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_PHASOR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c b/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
index 7beac45..c4a8117 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_SINE.c
@@ -498,12 +498,14 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_SINE)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_SINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_SINE_Lookback();
 /* Generated */    #ifndef TA_HT_SINE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_SINE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -1014,6 +1016,7 @@ else {
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_SINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1022,6 +1025,7 @@ else {
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_SINE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_SINE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
index 53f70a4..8878626 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDLINE.c
@@ -471,12 +471,14 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_TRENDLINE)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_TRENDLINE_Lookback();
 /* Generated */    #ifndef TA_HT_TRENDLINE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_TRENDLINE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -947,6 +949,7 @@ else {
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDLINE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -955,6 +958,7 @@ else {
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_TRENDLINE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_TRENDLINE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
index 988b74a..8533890 100644
--- a/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_HT_TRENDMODE.c
@@ -559,12 +559,14 @@ DEFINE_HILBERT_VARIABLES_STRUCT(HT_TRENDMODE)
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDMODE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_HT_TRENDMODE_Lookback();
 /* Generated */    #ifndef TA_HT_TRENDMODE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_HT_TRENDMODE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -1130,6 +1132,7 @@ double sine, leadSine;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_HT_TRENDMODE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1138,6 +1141,7 @@ double sine, leadSine;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_HT_TRENDMODE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_HT_TRENDMODE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    // Warning: STATE_P.detrender must be loaded manually!
diff --git a/ta-lib-rt/c/src/ta_func/ta_IMI.c b/ta-lib-rt/c/src/ta_func/ta_IMI.c
index 8ba755b..117fd9d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_IMI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_IMI.c
@@ -268,13 +268,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_IMI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_IMI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_IMI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_IMI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -573,6 +575,7 @@ int needMoreData;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_IMI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -581,6 +584,7 @@ int needMoreData;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_IMI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_IMI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_KAMA.c b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
index 3032717..530804a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_KAMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
@@ -391,13 +391,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_KAMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_KAMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_KAMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_KAMA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -722,6 +724,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_KAMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -730,6 +733,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_KAMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_KAMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
index 1e72f68..c8bf73e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG.c
@@ -289,13 +289,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_LINEARREG_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_LINEARREG_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -592,6 +594,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -600,6 +603,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LINEARREG_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
index 8d6dbe1..7b9d84c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_ANGLE.c
@@ -290,13 +290,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_ANGLE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_LINEARREG_ANGLE_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_LINEARREG_ANGLE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_ANGLE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -592,6 +594,7 @@ double m, tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_ANGLE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -600,6 +603,7 @@ double m, tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_ANGLE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LINEARREG_ANGLE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
index 4a6a7b5..0505ae4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_INTERCEPT.c
@@ -288,13 +288,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_INTERCEPT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_LINEARREG_INTERCEPT_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_LINEARREG_INTERCEPT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_INTERCEPT_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -591,6 +593,7 @@ double m, tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_INTERCEPT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -599,6 +602,7 @@ double m, tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_INTERCEPT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LINEARREG_INTERCEPT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
index ce885e6..03011bf 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LINEARREG_SLOPE.c
@@ -286,13 +286,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_SLOPE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_LINEARREG_SLOPE_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_LINEARREG_SLOPE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LINEARREG_SLOPE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -587,6 +589,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LINEARREG_SLOPE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -595,6 +598,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LINEARREG_SLOPE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LINEARREG_SLOPE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_LN.c b/ta-lib-rt/c/src/ta_func/ta_LN.c
index c21090f..89bb1d7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LN.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_LN_Lookback();
 /* Generated */    #ifndef TA_LN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LN_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_LOG10.c b/ta-lib-rt/c/src/ta_func/ta_LOG10.c
index 1ce5358..030c6ec 100644
--- a/ta-lib-rt/c/src/ta_func/ta_LOG10.c
+++ b/ta-lib-rt/c/src/ta_func/ta_LOG10.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LOG10_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_LOG10_Lookback();
 /* Generated */    #ifndef TA_LOG10_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_LOG10_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_LOG10_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_LOG10_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_LOG10_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_MA.c b/ta-lib-rt/c/src/ta_func/ta_MA.c
index 022cd97..eaeb390 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MA.c
@@ -388,14 +388,16 @@ ENUM_DECLARATION(RetCode) retValue;
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInMAType = optInMAType;
 /* Generated */    MEM_SIZE_P = TA_MA_Lookback(optInTimePeriod, optInMAType );
 /* Generated */    #ifndef TA_MA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -868,6 +870,7 @@ ENUM_DECLARATION(RetCode) retValue;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -876,6 +879,7 @@ ENUM_DECLARATION(RetCode) retValue;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACD.c b/ta-lib-rt/c/src/ta_func/ta_MACD.c
index b59e5cb..e86c6f7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACD.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACD.c
@@ -586,15 +586,17 @@ ENUM_DECLARATION(RetCode) retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInSlowPeriod = optInSlowPeriod;
 /* Generated */    STATE_P.optInSignalPeriod = optInSignalPeriod;
 /* Generated */    MEM_SIZE_P = TA_MACD_Lookback(optInFastPeriod, optInSlowPeriod, optInSignalPeriod );
 /* Generated */    #ifndef TA_MACD_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MACD_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -695,6 +697,7 @@ k2 = (double)0.15; /* Fix 12 */
        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
     STATE = TA_Calloc(1, sizeof(struct TA_MACD_State));
+    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
     STATE_P.optInFastPeriod = optInFastPeriod;
     STATE_P.optInSlowPeriod = optInSlowPeriod;
@@ -1063,6 +1066,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACD_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1071,6 +1075,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MACD_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MACD_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
index 677adbe..84fe073 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDEXT.c
@@ -545,6 +545,7 @@ ENUM_DECLARATION(RetCode) retCode;
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDEXT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInFastMAType = optInFastMAType;
@@ -554,9 +555,10 @@ ENUM_DECLARATION(RetCode) retCode;
 /* Generated */    STATE_P.optInSignalMAType = optInSignalMAType;
 /* Generated */    MEM_SIZE_P = TA_MACDEXT_Lookback(optInFastPeriod, optInFastMAType, optInSlowPeriod, optInSlowMAType, optInSignalPeriod, optInSignalMAType );
 /* Generated */    #ifndef TA_MACDEXT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MACDEXT_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -947,6 +949,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDEXT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -955,6 +958,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MACDEXT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MACDEXT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c b/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
index 143e361..482ee5a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MACDFIX.c
@@ -260,13 +260,15 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDFIX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInSignalPeriod = optInSignalPeriod;
 /* Generated */    MEM_SIZE_P = TA_MACDFIX_Lookback(optInSignalPeriod );
 /* Generated */    #ifndef TA_MACDFIX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MACDFIX_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -557,6 +559,7 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MACDFIX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -565,6 +568,7 @@ return FUNCTION_CALL_STATE_INIT(INT_MACD)((struct TA_MACD_State**) _state,
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MACDFIX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MACDFIX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInSignalPeriod,sizeof(STATE_P.optInSignalPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAMA.c b/ta-lib-rt/c/src/ta_func/ta_MAMA.c
index e86bec4..8e9ccde 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAMA.c
@@ -535,14 +535,16 @@ DEFINE_HILBERT_VARIABLES_STRUCT(MAMA)
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastLimit = optInFastLimit;
 /* Generated */    STATE_P.optInSlowLimit = optInSlowLimit;
 /* Generated */    MEM_SIZE_P = TA_MAMA_Lookback(optInFastLimit, optInSlowLimit );
 /* Generated */    #ifndef TA_MAMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAMA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -1035,6 +1037,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(MAMA)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1043,6 +1046,7 @@ DEFINE_HILBERT_VARIABLES_STRUCT(MAMA)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MAMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastLimit,sizeof(STATE_P.optInFastLimit),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAVP.c b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
index 5548616..7afc4a6 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAVP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAVP.c
@@ -273,6 +273,17 @@
    ARRAY_ALLOC(localOutputArray,outputSize);
    ARRAY_ALLOC(localResultArray,outputSize);
    ARRAY_INT_ALLOC(localPeriodArray,outputSize);
+   #if !defined( _JAVA )
+      if( !localOutputArray || !localResultArray || !localPeriodArray )
+      {
+         ARRAY_FREE_COND(localOutputArray,localOutputArray);
+         ARRAY_FREE_COND(localResultArray,localResultArray);
+         ARRAY_INT_FREE_COND(localPeriodArray,localPeriodArray);
+         VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+         VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+      }
+   #endif
 
    /* Copy caller array of period into local buffer.
     * At the same time, truncate to min/max.
@@ -394,15 +405,17 @@
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAVP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInMinPeriod = optInMinPeriod;
 /* Generated */    STATE_P.optInMaxPeriod = optInMaxPeriod;
 /* Generated */    STATE_P.optInMAType = optInMAType;
 /* Generated */    MEM_SIZE_P = TA_MAVP_Lookback(optInMinPeriod, optInMaxPeriod, optInMAType );
 /* Generated */    #ifndef TA_MAVP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAVP_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -681,6 +694,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAVP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -689,6 +703,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAVP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MAVP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInMinPeriod,sizeof(STATE_P.optInMinPeriod),1,_file);
@@ -818,6 +833,17 @@ TA_RetCode retCode;
 /* Generated */    ARRAY_ALLOC(localOutputArray,outputSize);
 /* Generated */    ARRAY_ALLOC(localResultArray,outputSize);
 /* Generated */    ARRAY_INT_ALLOC(localPeriodArray,outputSize);
+/* Generated */    #if !defined( _JAVA )
+/* Generated */       if( !localOutputArray || !localResultArray || !localPeriodArray )
+/* Generated */       {
+/* Generated */          ARRAY_FREE_COND(localOutputArray,localOutputArray);
+/* Generated */          ARRAY_FREE_COND(localResultArray,localResultArray);
+/* Generated */          ARRAY_INT_FREE_COND(localPeriodArray,localPeriodArray);
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */       }
+/* Generated */    #endif
 /* Generated */    for( i=0; i < outputSize; i++ )
 /* Generated */    {
 /* Generated */       tempInt = (int)(inPeriods[startIdx+i]);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAX.c b/ta-lib-rt/c/src/ta_func/ta_MAX.c
index dfab3ff..177365b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAX.c
@@ -298,13 +298,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MAX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MAX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAX_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -598,6 +600,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -606,6 +609,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MAX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c b/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
index 8224f8d..3b8f8a7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MAXINDEX.c
@@ -292,13 +292,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAXINDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MAXINDEX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MAXINDEX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MAXINDEX_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -603,6 +605,7 @@ VALUE_HANDLE_DEREF(outInteger) = STATE.maxIdx-1;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MAXINDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -611,6 +614,7 @@ VALUE_HANDLE_DEREF(outInteger) = STATE.maxIdx-1;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MAXINDEX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MAXINDEX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c b/ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c
index bdd4ed2..c07d680 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MEDPRICE.c
@@ -221,12 +221,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MEDPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_MEDPRICE_Lookback();
 /* Generated */    #ifndef TA_MEDPRICE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MEDPRICE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -488,6 +490,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MEDPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -496,6 +499,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MEDPRICE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MEDPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_MFI.c b/ta-lib-rt/c/src/ta_func/ta_MFI.c
index 9d7eb31..f3779cf 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MFI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MFI.c
@@ -419,13 +419,15 @@ DEFINE_CIRCBUF_STRUCT(MFI, MoneyFlow)
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MFI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MFI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MFI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MFI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -764,6 +766,7 @@ DEFINE_CIRCBUF_STRUCT(MFI, MoneyFlow)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MFI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -772,6 +775,7 @@ DEFINE_CIRCBUF_STRUCT(MFI, MoneyFlow)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MFI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MFI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c b/ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c
index 7d548f1..23fd2a2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MIDPOINT.c
@@ -286,13 +286,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPOINT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MIDPOINT_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MIDPOINT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MIDPOINT_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -560,6 +562,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPOINT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -568,6 +571,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MIDPOINT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MIDPOINT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c b/ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c
index 37855d4..7cede5e 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MIDPRICE.c
@@ -292,13 +292,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MIDPRICE_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MIDPRICE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MIDPRICE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -578,6 +580,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIDPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -586,6 +589,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MIDPRICE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MIDPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MIN.c b/ta-lib-rt/c/src/ta_func/ta_MIN.c
index 98df43f..1b9db04 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MIN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MIN.c
@@ -299,13 +299,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MIN_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MIN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MIN_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -599,6 +601,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -607,6 +610,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MIN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MIN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MININDEX.c b/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
index 171ed0a..e35a739 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MININDEX.c
@@ -292,13 +292,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MININDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MININDEX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MININDEX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MININDEX_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -605,6 +607,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MININDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -613,6 +616,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MININDEX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MININDEX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINMAX.c b/ta-lib-rt/c/src/ta_func/ta_MINMAX.c
index 8c9e157..4f0dfe7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINMAX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINMAX.c
@@ -324,13 +324,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MINMAX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MINMAX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINMAX_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -663,6 +665,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -671,6 +674,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINMAX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MINMAX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c b/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
index 8a19912..8c447ca 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINMAXINDEX.c
@@ -324,13 +324,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAXINDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MINMAXINDEX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MINMAXINDEX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINMAXINDEX_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -687,6 +689,7 @@ return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINMAXINDEX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -695,6 +698,7 @@ return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINMAXINDEX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MINMAXINDEX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c b/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c
index 38a5da0..0c06b61 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINUS_DI.c
@@ -529,13 +529,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MINUS_DI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MINUS_DI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINUS_DI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -893,6 +895,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -901,6 +904,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINUS_DI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MINUS_DI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c b/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c
index de16fc5..4e7943b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MINUS_DM.c
@@ -442,13 +442,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MINUS_DM_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MINUS_DM_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MINUS_DM_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -775,6 +777,7 @@ double diffP, diffM;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MINUS_DM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -783,6 +786,7 @@ double diffP, diffM;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MINUS_DM_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MINUS_DM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MOM.c b/ta-lib-rt/c/src/ta_func/ta_MOM.c
index 98e47f1..6babbb0 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MOM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MOM.c
@@ -290,13 +290,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MOM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_MOM_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_MOM_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MOM_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -553,6 +555,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MOM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -561,6 +564,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MOM_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MOM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_MULT.c b/ta-lib-rt/c/src/ta_func/ta_MULT.c
index 03f7be4..b7cfa0c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_MULT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_MULT.c
@@ -213,12 +213,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MULT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_MULT_Lookback();
 /* Generated */    #ifndef TA_MULT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_MULT_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -479,6 +481,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_MULT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -487,6 +490,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_MULT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_MULT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_NATR.c b/ta-lib-rt/c/src/ta_func/ta_NATR.c
index 8a42e8c..b58108a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NATR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NATR.c
@@ -264,6 +264,14 @@
 
    /* Allocate an intermediate buffer for TRANGE. */
    ARRAY_ALLOC(tempBuffer, lookbackTotal+(endIdx-startIdx)+1 );
+   #if !defined( _JAVA )
+      if( !tempBuffer )
+      {
+         VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+         VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+      }
+   #endif
 
    /* Do TRANGE in the intermediate buffer. */
    retCode = FUNCTION_CALL(TRANGE)( (startIdx-lookbackTotal+1), endIdx,
@@ -377,13 +385,15 @@ TA_RetCode retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NATR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_NATR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_NATR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_NATR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -721,6 +731,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NATR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -729,6 +740,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_NATR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_NATR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
@@ -844,6 +856,14 @@ TA_RetCode retCode;
 /* Generated */                                     outBegIdx, outNBElement, outReal );
 /* Generated */    }
 /* Generated */    ARRAY_ALLOC(tempBuffer, lookbackTotal+(endIdx-startIdx)+1 );
+/* Generated */    #if !defined( _JAVA )
+/* Generated */       if( !tempBuffer )
+/* Generated */       {
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */       }
+/* Generated */    #endif
 /* Generated */    retCode = FUNCTION_CALL(TRANGE)( (startIdx-lookbackTotal+1), endIdx,
 /* Generated */                                     inHigh, inLow, inClose,
 /* Generated */                                     VALUE_HANDLE_OUT(outBegIdx1), VALUE_HANDLE_OUT(outNbElement1),
diff --git a/ta-lib-rt/c/src/ta_func/ta_NVI.c b/ta-lib-rt/c/src/ta_func/ta_NVI.c
index d38e01b..8381829 100644
--- a/ta-lib-rt/c/src/ta_func/ta_NVI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_NVI.c
@@ -227,12 +227,14 @@ int outIdx;
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NVI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_NVI_Lookback();
 /* Generated */    #ifndef TA_NVI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_NVI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -505,6 +507,7 @@ int outIdx;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_NVI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -513,6 +516,7 @@ int outIdx;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_NVI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_NVI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.prevNVI,sizeof(STATE_P.prevNVI),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_OBV.c b/ta-lib-rt/c/src/ta_func/ta_OBV.c
index 8ee6a25..ce5fdee 100644
--- a/ta-lib-rt/c/src/ta_func/ta_OBV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_OBV.c
@@ -225,12 +225,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_OBV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_OBV_Lookback();
 /* Generated */    #ifndef TA_OBV_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_OBV_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -511,6 +513,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_OBV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -519,6 +522,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_OBV_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_OBV_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.prevOBV,sizeof(STATE_P.prevOBV),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c b/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c
index 5323dca..aa54875 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PLUS_DI.c
@@ -529,13 +529,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_PLUS_DI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_PLUS_DI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PLUS_DI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -894,6 +896,7 @@ double tempReal, tempReal2, diffP, diffM;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -902,6 +905,7 @@ double tempReal, tempReal2, diffP, diffM;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PLUS_DI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PLUS_DI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c b/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c
index 44c5747..e07a1cb 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PLUS_DM.c
@@ -443,13 +443,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_PLUS_DM_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_PLUS_DM_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PLUS_DM_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -775,6 +777,7 @@ double diffP, diffM;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PLUS_DM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -783,6 +786,7 @@ double diffP, diffM;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PLUS_DM_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PLUS_DM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PPO.c b/ta-lib-rt/c/src/ta_func/ta_PPO.c
index d335e08..2b1ac0a 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PPO.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PPO.c
@@ -306,15 +306,17 @@ return FUNCTION_CALL_STATE_INIT(INT_PO)((struct TA_APO_State**)_state, optInFast
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PPO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastPeriod = optInFastPeriod;
 /* Generated */    STATE_P.optInSlowPeriod = optInSlowPeriod;
 /* Generated */    STATE_P.optInMAType = optInMAType;
 /* Generated */    MEM_SIZE_P = TA_PPO_Lookback(optInFastPeriod, optInSlowPeriod, optInMAType );
 /* Generated */    #ifndef TA_PPO_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PPO_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -577,6 +579,7 @@ return FUNCTION_CALL_STATE_LOAD(APO)((struct TA_APO_State**)_state, _file);
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PPO_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -585,6 +588,7 @@ return FUNCTION_CALL_STATE_LOAD(APO)((struct TA_APO_State**)_state, _file);
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PPO_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PPO_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastPeriod,sizeof(STATE_P.optInFastPeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PVI.c b/ta-lib-rt/c/src/ta_func/ta_PVI.c
index d16edb7..4eb8da8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PVI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PVI.c
@@ -229,12 +229,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_PVI_Lookback();
 /* Generated */    #ifndef TA_PVI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PVI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -506,6 +508,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -514,6 +517,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PVI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PVI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.prevPVI,sizeof(STATE_P.prevPVI),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_PVT.c b/ta-lib-rt/c/src/ta_func/ta_PVT.c
index c727701..428f909 100644
--- a/ta-lib-rt/c/src/ta_func/ta_PVT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_PVT.c
@@ -224,12 +224,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_PVT_Lookback();
 /* Generated */    #ifndef TA_PVT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_PVT_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -498,6 +500,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_PVT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -506,6 +509,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_PVT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_PVT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.prevPVT,sizeof(STATE_P.prevPVT),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ROC.c b/ta-lib-rt/c/src/ta_func/ta_ROC.c
index 20177b1..690cb48 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ROC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ROC.c
@@ -293,13 +293,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ROC_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ROC_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROC_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -557,6 +559,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -565,6 +568,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROC_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ROC_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ROCP.c b/ta-lib-rt/c/src/ta_func/ta_ROCP.c
index 2b0600a..55cee83 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ROCP.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ROCP.c
@@ -294,13 +294,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ROCP_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ROCP_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROCP_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -557,6 +559,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCP_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -565,6 +568,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROCP_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ROCP_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ROCR.c b/ta-lib-rt/c/src/ta_func/ta_ROCR.c
index a409468..2dbb25d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ROCR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ROCR.c
@@ -295,13 +295,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ROCR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ROCR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROCR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -558,6 +560,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -566,6 +569,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROCR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ROCR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_ROCR100.c b/ta-lib-rt/c/src/ta_func/ta_ROCR100.c
index f82d58c..f0b8473 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ROCR100.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ROCR100.c
@@ -294,13 +294,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR100_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_ROCR100_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_ROCR100_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ROCR100_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -557,6 +559,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ROCR100_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -565,6 +568,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ROCR100_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ROCR100_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_RSI.c b/ta-lib-rt/c/src/ta_func/ta_RSI.c
index 09fcaf5..8f58684 100644
--- a/ta-lib-rt/c/src/ta_func/ta_RSI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_RSI.c
@@ -453,13 +453,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_RSI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_RSI_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_RSI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_RSI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -772,6 +774,7 @@ double tempValue1, tempValue2;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_RSI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -780,6 +783,7 @@ double tempValue1, tempValue2;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_RSI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_RSI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SAR.c b/ta-lib-rt/c/src/ta_func/ta_SAR.c
index d7ebbb9..fffc504 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAR.c
@@ -541,14 +541,16 @@ TA_RetCode retCode;
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInAcceleration = optInAcceleration;
 /* Generated */    STATE_P.optInMaximum = optInMaximum;
 /* Generated */    MEM_SIZE_P = TA_SAR_Lookback(optInAcceleration, optInMaximum );
 /* Generated */    #ifndef TA_SAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SAR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -1012,6 +1014,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1020,6 +1023,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInAcceleration,sizeof(STATE_P.optInAcceleration),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
index 72f4224..451a61d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SAREXT.c
@@ -786,6 +786,7 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAREXT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInStartValue = optInStartValue;
 /* Generated */    STATE_P.optInOffsetOnReverse = optInOffsetOnReverse;
@@ -797,9 +798,10 @@
 /* Generated */    STATE_P.optInAccelerationMaxShort = optInAccelerationMaxShort;
 /* Generated */    MEM_SIZE_P = TA_SAREXT_Lookback(optInStartValue, optInOffsetOnReverse, optInAccelerationInitLong, optInAccelerationLong, optInAccelerationMaxLong, optInAccelerationInitShort, optInAccelerationShort, optInAccelerationMaxShort );
 /* Generated */    #ifndef TA_SAREXT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SAREXT_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -1320,6 +1322,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SAREXT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1328,6 +1331,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SAREXT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SAREXT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInStartValue,sizeof(STATE_P.optInStartValue),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SIN.c b/ta-lib-rt/c/src/ta_func/ta_SIN.c
index f58ef85..590a0c4 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SIN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SIN.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_SIN_Lookback();
 /* Generated */    #ifndef TA_SIN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SIN_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SIN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SIN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SIN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_SINH.c b/ta-lib-rt/c/src/ta_func/ta_SINH.c
index eb1dafb..628044b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SINH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SINH.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SINH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_SINH_Lookback();
 /* Generated */    #ifndef TA_SINH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SINH_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SINH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SINH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SINH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_SMA.c b/ta-lib-rt/c/src/ta_func/ta_SMA.c
index 768a6b0..d3c1cd3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SMA.c
@@ -320,13 +320,15 @@ TA_RetCode TA_PREFIX(INT_SMA)( int    startIdx,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_SMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_SMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SMA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -601,6 +603,7 @@ TA_RetCode TA_PREFIX(INT_SMA)( int    startIdx,
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -609,6 +612,7 @@ TA_RetCode TA_PREFIX(INT_SMA)( int    startIdx,
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_SQRT.c b/ta-lib-rt/c/src/ta_func/ta_SQRT.c
index 7059f9d..c4159cd 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SQRT.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SQRT.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SQRT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_SQRT_Lookback();
 /* Generated */    #ifndef TA_SQRT_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SQRT_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SQRT_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SQRT_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SQRT_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_STDDEV.c b/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
index 5214ce5..80a5f62 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STDDEV.c
@@ -387,14 +387,16 @@ void TA_PREFIX(INT_stddev_using_precalc_ma)( const INPUT_TYPE *inReal,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STDDEV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInNbDev = optInNbDev;
 /* Generated */    MEM_SIZE_P = TA_STDDEV_Lookback(optInTimePeriod, optInNbDev );
 /* Generated */    #ifndef TA_STDDEV_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STDDEV_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -686,6 +688,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STDDEV_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -694,6 +697,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STDDEV_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_STDDEV_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCH.c b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
index 06e4dbd..d692f8c 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCH.c
@@ -404,6 +404,14 @@
        * the input.
        */
       ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
+      #if !defined( _JAVA )
+         if( !tempBuffer )
+         {
+            VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+            VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+            return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+         }
+      #endif
    #else
       if( (outSlowK == inHigh) || 
           (outSlowK == inLow)  || 
@@ -423,6 +431,14 @@
             bufferIsAllocated = 1;
          #endif
          ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
+         #if !defined( _JAVA )
+            if( !tempBuffer )
+            {
+               VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+               VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+               return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+            }
+         #endif
       }
    #endif
 
@@ -526,7 +542,8 @@
     *  caller buffer because more input data then the
     *  requested range was needed for doing %D).
     */
-   ARRAY_MEMMOVE( outSlowK, 0, tempBuffer,lookbackDSlow,(int)VALUE_HANDLE_DEREF(outNBElement));
+   if( retCode == ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
+      ARRAY_MEMMOVE( outSlowK, 0, tempBuffer,lookbackDSlow,(int)VALUE_HANDLE_DEREF(outNBElement));
 
    /* Don't need K anymore, free it if it was allocated here. */
    #if defined(USE_SINGLE_PRECISION_INPUT)
@@ -618,6 +635,7 @@
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastK_Period = optInFastK_Period;
 /* Generated */    STATE_P.optInSlowK_Period = optInSlowK_Period;
@@ -626,9 +644,10 @@
 /* Generated */    STATE_P.optInSlowD_MAType = optInSlowD_MAType;
 /* Generated */    MEM_SIZE_P = TA_STOCH_Lookback(optInFastK_Period, optInSlowK_Period, optInSlowK_MAType, optInSlowD_Period, optInSlowD_MAType );
 /* Generated */    #ifndef TA_STOCH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCH_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -637,9 +656,10 @@
 
    /* insert state init code here. */
    MEM_SIZE_P = (optInFastK_Period - 1);
- if (MEM_SIZE_P > 0)
+ if (MEM_SIZE_P > 0) {
      MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCH_Data));
- else MEM_P = NULL;
+     if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+ } else MEM_P = NULL;
 
    retCode = FUNCTION_CALL_STATE_INIT(MA)( (struct TA_MA_State**) &STATE_P.stateMA1, optInSlowK_Period, optInSlowK_MAType );
    if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
@@ -1025,6 +1045,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -1033,6 +1054,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STOCH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_STOCH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastK_Period,sizeof(STATE_P.optInFastK_Period),1,_file);
@@ -1205,6 +1227,14 @@ TA_RetCode retCode;
 /* Generated */    #endif
 /* Generated */    #if defined(USE_SINGLE_PRECISION_INPUT) || defined( USE_SUBARRAY )
 /* Generated */       ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
+/* Generated */       #if !defined( _JAVA )
+/* Generated */          if( !tempBuffer )
+/* Generated */          {
+/* Generated */             VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */             VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */             return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */          }
+/* Generated */       #endif
 /* Generated */    #else
 /* Generated */       if( (outSlowK == inHigh) || 
 /* Generated */           (outSlowK == inLow)  || 
@@ -1224,6 +1254,14 @@ TA_RetCode retCode;
 /* Generated */             bufferIsAllocated = 1;
 /* Generated */          #endif
 /* Generated */          ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
+/* Generated */          #if !defined( _JAVA )
+/* Generated */             if( !tempBuffer )
+/* Generated */             {
+/* Generated */                VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */                VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */                return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */             }
+/* Generated */          #endif
 /* Generated */       }
 /* Generated */    #endif
 /* Generated */    while( today <= endIdx )
@@ -1300,7 +1338,8 @@ TA_RetCode retCode;
 /* Generated */                                        tempBuffer, optInSlowD_Period,
 /* Generated */                                        optInSlowD_MAType,
 /* Generated */                                        outBegIdx, outNBElement, outSlowD );
-/* Generated */    ARRAY_MEMMOVE( outSlowK, 0, tempBuffer,lookbackDSlow,(int)VALUE_HANDLE_DEREF(outNBElement));
+/* Generated */    if( retCode == ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
+/* Generated */       ARRAY_MEMMOVE( outSlowK, 0, tempBuffer,lookbackDSlow,(int)VALUE_HANDLE_DEREF(outNBElement));
 /* Generated */    #if defined(USE_SINGLE_PRECISION_INPUT)
 /* Generated */       ARRAY_FREE( tempBuffer ); 
 /* Generated */    #else
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
index 549ab2c..c8104c3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHF.c
@@ -360,6 +360,14 @@
        * the input.
        */
       ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
+      #if !defined( _JAVA )
+         if( !tempBuffer )
+         {
+            VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+            VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+            return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+         }
+      #endif
    #else
       if( (outFastK == inHigh) || 
           (outFastK == inLow)  || 
@@ -379,6 +387,14 @@
             bufferIsAllocated = 1;
          #endif
          ARRAY_ALLOC(tempBuffer, endIdx-today+1 );
+         #if !defined( _JAVA )
+            if( !tempBuffer )
+            {
+               VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+               VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+               return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+            }
+         #endif
       }
    #endif
 
@@ -472,7 +488,8 @@
     *  caller buffer because more input data then the
     *  requested range was needed for doing %D).
     */
-   ARRAY_MEMMOVE( outFastK, 0, tempBuffer, lookbackFastD, (int)VALUE_HANDLE_DEREF(outNBElement) );
+   if( retCode == ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
+      ARRAY_MEMMOVE( outFastK, 0, tempBuffer, lookbackFastD, (int)VALUE_HANDLE_DEREF(outNBElement) );
 
    /* Don't need K anymore, free it if it was allocated here. */
    #if defined(USE_SINGLE_PRECISION_INPUT)
@@ -547,15 +564,17 @@ TA_RetCode retCode;
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHF_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInFastK_Period = optInFastK_Period;
 /* Generated */    STATE_P.optInFastD_Period = optInFastD_Period;
 /* Generated */    STATE_P.optInFastD_MAType = optInFastD_MAType;
 /* Generated */    MEM_SIZE_P = TA_STOCHF_Lookback(optInFastK_Period, optInFastD_Period, optInFastD_MAType );
 /* Generated */    #ifndef TA_STOCHF_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCHF_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -564,9 +583,10 @@ TA_RetCode retCode;
 
    /* insert state init code here. */
         MEM_SIZE_P = (optInFastK_Period - 1);
-      if (MEM_SIZE_P > 0)
+      if (MEM_SIZE_P > 0) {
           MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCHF_Data));
-      else MEM_P = NULL;
+          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+      } else MEM_P = NULL;
 
         retCode = FUNCTION_CALL_STATE_INIT(MA)( (struct TA_MA_State**) &STATE_P.stateMA1, optInFastD_Period, optInFastD_MAType );
         if (retCode != ENUM_VALUE(RetCode,TA_SUCCESS,Success)) return retCode;
@@ -957,6 +977,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHF_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -965,6 +986,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STOCHF_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_STOCHF_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInFastK_Period,sizeof(STATE_P.optInFastK_Period),1,_file);
@@ -1114,6 +1136,14 @@ TA_RetCode retCode;
 /* Generated */    #endif
 /* Generated */    #if defined(USE_SINGLE_PRECISION_INPUT) || defined( USE_SUBARRAY )
 /* Generated */       ARRAY_ALLOC( tempBuffer, endIdx-today+1 );
+/* Generated */       #if !defined( _JAVA )
+/* Generated */          if( !tempBuffer )
+/* Generated */          {
+/* Generated */             VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */             VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */             return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */          }
+/* Generated */       #endif
 /* Generated */    #else
 /* Generated */       if( (outFastK == inHigh) || 
 /* Generated */           (outFastK == inLow)  || 
@@ -1133,6 +1163,14 @@ TA_RetCode retCode;
 /* Generated */             bufferIsAllocated = 1;
 /* Generated */          #endif
 /* Generated */          ARRAY_ALLOC(tempBuffer, endIdx-today+1 );
+/* Generated */          #if !defined( _JAVA )
+/* Generated */             if( !tempBuffer )
+/* Generated */             {
+/* Generated */                VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */                VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */                return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */             }
+/* Generated */          #endif
 /* Generated */       }
 /* Generated */    #endif
 /* Generated */    while( today <= endIdx )
@@ -1205,7 +1243,8 @@ TA_RetCode retCode;
 /* Generated */       VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
 /* Generated */       return retCode; 
 /* Generated */    }
-/* Generated */    ARRAY_MEMMOVE( outFastK, 0, tempBuffer, lookbackFastD, (int)VALUE_HANDLE_DEREF(outNBElement) );
+/* Generated */    if( retCode == ENUM_VALUE(RetCode,TA_SUCCESS,Success) )
+/* Generated */       ARRAY_MEMMOVE( outFastK, 0, tempBuffer, lookbackFastD, (int)VALUE_HANDLE_DEREF(outNBElement) );
 /* Generated */    #if defined(USE_SINGLE_PRECISION_INPUT)
 /* Generated */       ARRAY_FREE( tempBuffer ); 
 /* Generated */    #else
diff --git a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
index 2f62d5f..afcdd50 100644
--- a/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_STOCHRSI.c
@@ -322,6 +322,14 @@
    tempArraySize = (endIdx - startIdx) + 1 + lookbackSTOCHF;
 
    ARRAY_ALLOC( tempRSIBuffer, tempArraySize );
+   #if !defined( _JAVA )
+      if( !tempRSIBuffer )
+      {
+         VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+         VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+         return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+      }
+   #endif
 
    retCode = FUNCTION_CALL(RSI)(startIdx-lookbackSTOCHF, 
                                 endIdx, 
@@ -423,6 +431,7 @@ TA_RetCode retCode;
 /* Generated */ 
 /* Generated */    #endif /* !defined(_MANAGED) && !defined(_JAVA)*/
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHRSI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInFastK_Period = optInFastK_Period;
@@ -430,9 +439,10 @@ TA_RetCode retCode;
 /* Generated */    STATE_P.optInFastD_MAType = optInFastD_MAType;
 /* Generated */    MEM_SIZE_P = TA_STOCHRSI_Lookback(optInTimePeriod, optInFastK_Period, optInFastD_Period, optInFastD_MAType );
 /* Generated */    #ifndef TA_STOCHRSI_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_STOCHRSI_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -730,6 +740,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_STOCHRSI_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -738,6 +749,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_STOCHRSI_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_STOCHRSI_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
@@ -875,6 +887,14 @@ TA_RetCode retCode;
 /* Generated */    VALUE_HANDLE_DEREF(outBegIdx) = startIdx;
 /* Generated */    tempArraySize = (endIdx - startIdx) + 1 + lookbackSTOCHF;
 /* Generated */    ARRAY_ALLOC( tempRSIBuffer, tempArraySize );
+/* Generated */    #if !defined( _JAVA )
+/* Generated */       if( !tempRSIBuffer )
+/* Generated */       {
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outBegIdx);
+/* Generated */          VALUE_HANDLE_DEREF_TO_ZERO(outNBElement);
+/* Generated */          return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */       }
+/* Generated */    #endif
 /* Generated */    retCode = FUNCTION_CALL(RSI)(startIdx-lookbackSTOCHF, 
 /* Generated */                                 endIdx, 
 /* Generated */                                 inReal, 
diff --git a/ta-lib-rt/c/src/ta_func/ta_SUB.c b/ta-lib-rt/c/src/ta_func/ta_SUB.c
index c2a437b..d6f13d1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SUB.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SUB.c
@@ -214,12 +214,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUB_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_SUB_Lookback();
 /* Generated */    #ifndef TA_SUB_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SUB_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -480,6 +482,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUB_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -488,6 +491,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SUB_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SUB_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_SUM.c b/ta-lib-rt/c/src/ta_func/ta_SUM.c
index d31b31e..35edd73 100644
--- a/ta-lib-rt/c/src/ta_func/ta_SUM.c
+++ b/ta-lib-rt/c/src/ta_func/ta_SUM.c
@@ -278,13 +278,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_SUM_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_SUM_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_SUM_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -561,6 +563,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_SUM_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -569,6 +572,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_SUM_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_SUM_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_T3.c b/ta-lib-rt/c/src/ta_func/ta_T3.c
index 85e49f6..5f24296 100644
--- a/ta-lib-rt/c/src/ta_func/ta_T3.c
+++ b/ta-lib-rt/c/src/ta_func/ta_T3.c
@@ -401,14 +401,16 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_T3_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInVFactor = optInVFactor;
 /* Generated */    MEM_SIZE_P = TA_T3_Lookback(optInTimePeriod, optInVFactor );
 /* Generated */    #ifndef TA_T3_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_T3_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -801,6 +803,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_T3_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -809,6 +812,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_T3_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_T3_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TAN.c b/ta-lib-rt/c/src/ta_func/ta_TAN.c
index e00631f..e3779f3 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TAN.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TAN.c
@@ -207,12 +207,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_TAN_Lookback();
 /* Generated */    #ifndef TA_TAN_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TAN_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -465,6 +467,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TAN_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -473,6 +476,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TAN_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TAN_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_TANH.c b/ta-lib-rt/c/src/ta_func/ta_TANH.c
index a79a452..fe2e7d5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TANH.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TANH.c
@@ -208,12 +208,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TANH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_TANH_Lookback();
 /* Generated */    #ifndef TA_TANH_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TANH_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -466,6 +468,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TANH_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -474,6 +477,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TANH_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TANH_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_TEMA.c b/ta-lib-rt/c/src/ta_func/ta_TEMA.c
index 8820c98..30292d5 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TEMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TEMA.c
@@ -377,13 +377,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TEMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_TEMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_TEMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TEMA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -685,6 +687,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TEMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -693,6 +696,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TEMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TEMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRANGE.c b/ta-lib-rt/c/src/ta_func/ta_TRANGE.c
index 4f54221..eafeb11 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRANGE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRANGE.c
@@ -260,12 +260,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRANGE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_TRANGE_Lookback();
 /* Generated */    #ifndef TA_TRANGE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TRANGE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -551,6 +553,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRANGE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -559,6 +562,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TRANGE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TRANGE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
index dae4385..15db9d8 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIMA.c
@@ -516,13 +516,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_TRIMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_TRIMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TRIMA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -873,6 +875,7 @@ double tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -881,6 +884,7 @@ double tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TRIMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TRIMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TRIX.c b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
index 27fed23..bcfcc8b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TRIX.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TRIX.c
@@ -344,13 +344,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_TRIX_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_TRIX_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TRIX_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -646,6 +648,7 @@ TA_RetCode retCode;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TRIX_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -654,6 +657,7 @@ TA_RetCode retCode;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TRIX_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TRIX_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TSF.c b/ta-lib-rt/c/src/ta_func/ta_TSF.c
index 6dc5798..6112bf7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TSF.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TSF.c
@@ -289,13 +289,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TSF_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_TSF_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_TSF_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TSF_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -592,6 +594,7 @@ double m, b, tempReal;
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TSF_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -600,6 +603,7 @@ double m, b, tempReal;
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TSF_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TSF_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c b/ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c
index 9f89a75..1571da7 100644
--- a/ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_TYPPRICE.c
@@ -223,12 +223,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TYPPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_TYPPRICE_Lookback();
 /* Generated */    #ifndef TA_TYPPRICE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_TYPPRICE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -498,6 +500,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_TYPPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -506,6 +509,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_TYPPRICE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_TYPPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
index 66d6c11..3fc4e1b 100644
--- a/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
+++ b/ta-lib-rt/c/src/ta_func/ta_ULTOSC.c
@@ -454,15 +454,17 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ULTOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod1 = optInTimePeriod1;
 /* Generated */    STATE_P.optInTimePeriod2 = optInTimePeriod2;
 /* Generated */    STATE_P.optInTimePeriod3 = optInTimePeriod3;
 /* Generated */    MEM_SIZE_P = TA_ULTOSC_Lookback(optInTimePeriod1, optInTimePeriod2, optInTimePeriod3 );
 /* Generated */    #ifndef TA_ULTOSC_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_ULTOSC_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -852,6 +854,7 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_ULTOSC_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -860,6 +863,7 @@ DEFINE_CIRCBUF_STRUCT(ULTOSC, double)
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_ULTOSC_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_ULTOSC_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod1,sizeof(STATE_P.optInTimePeriod1),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_VAR.c b/ta-lib-rt/c/src/ta_func/ta_VAR.c
index ccfe33b..883da9d 100644
--- a/ta-lib-rt/c/src/ta_func/ta_VAR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_VAR.c
@@ -375,14 +375,16 @@ TA_RetCode TA_PREFIX(INT_VAR)( int    startIdx,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_VAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    STATE_P.optInNbDev = optInNbDev;
 /* Generated */    MEM_SIZE_P = TA_VAR_Lookback(optInTimePeriod, optInNbDev );
 /* Generated */    #ifndef TA_VAR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_VAR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -672,6 +674,7 @@ TA_RetCode TA_PREFIX(INT_VAR)( int    startIdx,
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_VAR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -680,6 +683,7 @@ TA_RetCode TA_PREFIX(INT_VAR)( int    startIdx,
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_VAR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_VAR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c b/ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c
index 49726a7..c0c6a10 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WCLPRICE.c
@@ -222,12 +222,14 @@
 /* Generated */    if (_state == NULL)
 /* Generated */          return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WCLPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    MEM_SIZE_P = TA_WCLPRICE_Lookback();
 /* Generated */    #ifndef TA_WCLPRICE_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WCLPRICE_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -497,6 +499,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WCLPRICE_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -505,6 +508,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WCLPRICE_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_WCLPRICE_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */ 
diff --git a/ta-lib-rt/c/src/ta_func/ta_WILLR.c b/ta-lib-rt/c/src/ta_func/ta_WILLR.c
index 1f9d893..106d9e2 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WILLR.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WILLR.c
@@ -341,13 +341,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WILLR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_WILLR_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_WILLR_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WILLR_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -696,6 +698,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WILLR_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -704,6 +707,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WILLR_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_WILLR_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_WLMA.c b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
index f683d81..8972614 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WLMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WLMA.c
@@ -392,13 +392,15 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WLMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_WLMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_WLMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WLMA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -438,6 +440,7 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
        return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 
     STATE = TA_Calloc(1, sizeof(struct TA_WLMA_State));
+    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
     STATE_P.mem_index = 0;
     STATE_P.optInTimePeriod = optInTimePeriod;
     STATE_P.optInK_1 = optInK_1;
@@ -747,6 +750,7 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WLMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -755,6 +759,7 @@ TA_RetCode TA_PREFIX(INT_WLMA)( int               startIdx,
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WLMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_WLMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/ta_func/ta_WMA.c b/ta-lib-rt/c/src/ta_func/ta_WMA.c
index 0ca5143..adca5b1 100644
--- a/ta-lib-rt/c/src/ta_func/ta_WMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_WMA.c
@@ -344,13 +344,15 @@
 /* Generated */       return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */ 
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    STATE_P.mem_index = 0;
 /* Generated */    STATE_P.optInTimePeriod = optInTimePeriod;
 /* Generated */    MEM_SIZE_P = TA_WMA_Lookback(optInTimePeriod );
 /* Generated */    #ifndef TA_WMA_SUPPRESS_MEMORY_ALLOCATION
-/* Generated */    if (MEM_SIZE_P > 0)
+/* Generated */    if (MEM_SIZE_P > 0) {
 /* Generated */          MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_WMA_Data));
-/* Generated */    else
+/* Generated */          if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
+/* Generated */    } else
 /* Generated */    #endif
 /* Generated */          MEM_P = NULL;/* Generated */ 
 /* Generated */ #endif /* TA_FUNC_NO_RANGE_CHECK */
@@ -640,6 +642,7 @@
 /* Generated */    if (state_is_null) return ENUM_VALUE(RetCode,TA_SUCCESS,Success);
 /* Generated */    if (STATE != NULL) return ENUM_VALUE(RetCode,TA_BAD_PARAM,BadParam);
 /* Generated */    STATE = TA_Calloc(1, sizeof(struct TA_WMA_State));
+/* Generated */    if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    io_res = fread(&STATE_P.mem_size,sizeof(STATE_P.mem_size),1,_file);
@@ -648,6 +651,7 @@
 /* Generated */    io_res = fread(&memory_allocated,sizeof(memory_allocated),1,_file);
 /* Generated */    if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);
 /* Generated */    if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_WMA_Data));
+/* Generated */    if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);
 /* Generated */    io_res = fread(STATE_P.memory,sizeof(struct TA_WMA_Data),STATE_P.mem_size,_file);
 /* Generated */    if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } 
 /* Generated */    io_res = fread(&STATE_P.optInTimePeriod,sizeof(STATE_P.optInTimePeriod),1,_file);
diff --git a/ta-lib-rt/c/src/tools/gen_code/gen_code.c b/ta-lib-rt/c/src/tools/gen_code/gen_code.c
index 5d74e62..0396485 100644
--- a/ta-lib-rt/c/src/tools/gen_code/gen_code.c
+++ b/ta-lib-rt/c/src/tools/gen_code/gen_code.c
@@ -1839,6 +1839,8 @@ void printFunc( FILE *out,
                    printIndent( out, indent );
                    fprintf( out, "STATE = TA_Calloc(1, sizeof(struct TA_%s_State));\n", funcName);
                    printIndent( out, indent );
+                   fprintf( out, "if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);\n");
+                   printIndent( out, indent );
                    fprintf( out, "io_res = fread(&STATE_P.mem_index,sizeof(STATE_P.mem_index),1,_file);\n");
                    printIndent( out, indent );
                    fprintf( out, "if (io_res < 1) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed);\n");
@@ -1855,6 +1857,8 @@ void printFunc( FILE *out,
                    printIndent( out, indent );
                    fprintf( out, "if (STATE_P.mem_size > 0 && memory_allocated) { STATE_P.memory = TA_Calloc(STATE_P.mem_size, sizeof(struct TA_%s_Data));\n", funcName);
                    printIndent( out, indent );
+                   fprintf( out, "if (STATE_P.memory == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);\n");
+                   printIndent( out, indent );
                    fprintf( out, "io_res = fread(STATE_P.memory,sizeof(struct TA_%s_Data),STATE_P.mem_size,_file);\n", funcName);
                    printIndent( out, indent );
                    fprintf( out, "if (io_res < (int) STATE_P.mem_size) return ENUM_VALUE(RetCode,TA_IO_FAILED,IOFailed); } \n");
@@ -2543,6 +2547,8 @@ void printFunc( FILE *out,
        printIndent( out, indent);
        fprintf( out, "STATE = TA_Calloc(1, sizeof(struct TA_%s_State));\n", funcName);
        printIndent( out, indent);
+       fprintf( out, "if (STATE == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);\n");
+       printIndent( out, indent);
        fprintf( out, "STATE_P.mem_index = 0;\n");
 
        int word_idx = 0;
@@ -2572,11 +2578,13 @@ void printFunc( FILE *out,
        printIndent( out, indent );
        fprintf( out, "#ifndef TA_%s_SUPPRESS_MEMORY_ALLOCATION\n", funcName);
        printIndent( out, indent);
-       fprintf( out, "if (MEM_SIZE_P > 0)\n");
+       fprintf( out, "if (MEM_SIZE_P > 0) {\n");
        printIndent( out, indent+6 );
        fprintf( out, "MEM_P = TA_Calloc(MEM_SIZE_P, sizeof(struct TA_%s_Data));\n", funcName);
+       printIndent( out, indent+6 );
+       fprintf( out, "if (MEM_P == NULL) return ENUM_VALUE(RetCode,TA_ALLOC_ERR,AllocErr);\n");
        printIndent( out, indent );
-       fprintf( out, "else\n");
+       fprintf( out, "} else\n");
        printIndent( out, indent );
        fprintf( out, "#endif\n");
        printIndent( out, indent+6 );
-- 
2.43.0


From d7b8b894b217a0d796d44a35598fdf5939f4bffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 39/40] fix: TA_IMI_State kept a rounding residue where the
 window has no body (batch: not-a-number, stream: arbitrary)

---
 ta-lib-rt/c/src/ta_func/ta_IMI.c | 40 ++++++++++++++++----------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_IMI.c b/ta-lib-rt/c/src/ta_func/ta_IMI.c
index 117fd9d..209f470 100644
--- a/ta-lib-rt/c/src/ta_func/ta_IMI.c
+++ b/ta-lib-rt/c/src/ta_func/ta_IMI.c
@@ -313,7 +313,7 @@
 #define TA_IMI_SUPPRESS_EXIT_ON_NOT_ENOUGH_DATA
 double tempClose, tempOpen;
 size_t trailingIdx;
-int needMoreData;
+int needMoreData, i;
 /**** START GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 /* Generated */ 
 /* Generated */ #ifndef TA_FUNC_NO_RANGE_CHECK
@@ -341,27 +341,27 @@ int needMoreData;
 /**** END GENCODE SECTION 8 - DO NOT DELETE THIS LINE ****/
 
    /* insert state based TA func code here. */
-        if (inClose > inOpen) {
-            STATE.upsum += (inClose - inOpen);
-        } else {
-            STATE.downsum += (inOpen - inClose);
-        }
-
         needMoreData = NEED_MORE_DATA;
-        if (!needMoreData)
-            VALUE_HANDLE_DEREF(outReal) = 100.0*(STATE.upsum/(STATE.upsum + STATE.downsum));
-
-        /* Remove the bar that leaves the window (the memory also covers the unstable period). */
-        if (STATE.mem_index >= (size_t)STATE.optInTimePeriod) {
-            trailingIdx = (_cur_idx + MEM_SIZE - (STATE.optInTimePeriod-1)) % MEM_SIZE;
-            tempClose = MEM_IDX_NS(inClose,trailingIdx);
-            tempOpen = MEM_IDX_NS(inOpen,trailingIdx);
-
-            if (tempClose > tempOpen) {
-                STATE.upsum -= (tempClose - tempOpen);
-            } else {
-                STATE.downsum -= (tempOpen - tempClose);
+        if (!needMoreData) {
+            /* Sum over the window afresh (oldest bar first, as the batch does): sums that only add the new and
+             * subtract the old bar keep a rounding residue, which is all there is when no bar has a body. */
+            STATE.upsum = STATE.downsum = 0.0;
+            for (i = STATE.optInTimePeriod-1; i >= 0; i--) {
+                tempClose = inClose;
+                tempOpen = inOpen;
+                if (i > 0) {
+                    trailingIdx = (_cur_idx + MEM_SIZE - i) % MEM_SIZE;
+                    tempClose = MEM_IDX_NS(inClose,trailingIdx);
+                    tempOpen = MEM_IDX_NS(inOpen,trailingIdx);
+                }
+
+                if (tempClose > tempOpen) {
+                    STATE.upsum += (tempClose - tempOpen);
+                } else {
+                    STATE.downsum += (tempOpen - tempClose);
+                }
             }
+            VALUE_HANDLE_DEREF(outReal) = 100.0*(STATE.upsum/(STATE.upsum + STATE.downsum));
         }
 
         PUSH_TO_MEM(inOpen,inOpen);
-- 
2.43.0


From 9f3bc4d6654504333a9555de85c032618aa689e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 40/40] fix: the efficiency ratio of TA_KAMA could exceed one
 by rounding when prices fall, and its average leave their range

---
 ta-lib-rt/c/src/ta_func/ta_KAMA.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ta-lib-rt/c/src/ta_func/ta_KAMA.c b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
index 530804a..f5a9264 100644
--- a/ta-lib-rt/c/src/ta_func/ta_KAMA.c
+++ b/ta-lib-rt/c/src/ta_func/ta_KAMA.c
@@ -257,7 +257,7 @@
    trailingValue = tempReal2;
 
    /* Calculate the efficiency ratio */
-   if( (sumROC1 <= periodROC) || TA_IS_ZERO(sumROC1))
+   if( (sumROC1 <= std_fabs(periodROC)) || TA_IS_ZERO(sumROC1))
       tempReal = 1.0;
    else
       tempReal = std_fabs(periodROC/sumROC1);
@@ -297,7 +297,7 @@
       trailingValue = tempReal2;
 
       /* Calculate the efficiency ratio */
-      if( (sumROC1 <= periodROC) || TA_IS_ZERO(sumROC1) )
+      if( (sumROC1 <= std_fabs(periodROC)) || TA_IS_ZERO(sumROC1) )
          tempReal = 1.0;
       else
          tempReal = std_fabs(periodROC/sumROC1);
@@ -337,7 +337,7 @@
       trailingValue = tempReal2;
 
       /* Calculate the efficiency ratio */
-      if( (sumROC1 <= periodROC) || TA_IS_ZERO(sumROC1) )
+      if( (sumROC1 <= std_fabs(periodROC)) || TA_IS_ZERO(sumROC1) )
          tempReal = 1.0;
       else
          tempReal = std_fabs(periodROC / sumROC1);
@@ -496,7 +496,7 @@
     periodROC = inReal - STATE.trailingValue;
 
 
-    if( (STATE.sumROC1 <= periodROC) || TA_IS_ZERO(STATE.sumROC1))
+    if( (STATE.sumROC1 <= std_fabs(periodROC)) || TA_IS_ZERO(STATE.sumROC1))
         tempReal = 1.0;
     else
         tempReal = std_fabs(periodROC/STATE.sumROC1);
@@ -850,7 +850,7 @@
 /* Generated */    tempReal2 = inReal[trailingIdx++];
 /* Generated */    periodROC = tempReal-tempReal2;
 /* Generated */    trailingValue = tempReal2;
-/* Generated */    if( (sumROC1 <= periodROC) || TA_IS_ZERO(sumROC1))
+/* Generated */    if( (sumROC1 <= std_fabs(periodROC)) || TA_IS_ZERO(sumROC1))
 /* Generated */       tempReal = 1.0;
 /* Generated */    else
 /* Generated */       tempReal = std_fabs(periodROC/sumROC1);
@@ -865,7 +865,7 @@
 /* Generated */       sumROC1 -= std_fabs(trailingValue-tempReal2);
 /* Generated */       sumROC1 += std_fabs(tempReal-inReal[today-1]);
 /* Generated */       trailingValue = tempReal2;
-/* Generated */       if( (sumROC1 <= periodROC) || TA_IS_ZERO(sumROC1) )
+/* Generated */       if( (sumROC1 <= std_fabs(periodROC)) || TA_IS_ZERO(sumROC1) )
 /* Generated */          tempReal = 1.0;
 /* Generated */       else
 /* Generated */          tempReal = std_fabs(periodROC/sumROC1);
@@ -884,7 +884,7 @@
 /* Generated */       sumROC1 -= std_fabs(trailingValue-tempReal2);
 /* Generated */       sumROC1 += std_fabs(tempReal-inReal[today-1]);
 /* Generated */       trailingValue = tempReal2;
-/* Generated */       if( (sumROC1 <= periodROC) || TA_IS_ZERO(sumROC1) )
+/* Generated */       if( (sumROC1 <= std_fabs(periodROC)) || TA_IS_ZERO(sumROC1) )
 /* Generated */          tempReal = 1.0;
 /* Generated */       else
 /* Generated */          tempReal = std_fabs(periodROC / sumROC1);
-- 
2.43.0

