From 1b91e3bdae53c8164b6510a1981c31e51049edd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 001/102] fix: export operator== and operator<= for (double,
 adouble)

Both were declared in the public header but defined inline in adouble.cpp, so
that any user of 'double == adouble' or 'double <= adouble' failed to link.
---
 ADOL-C/src/adouble.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/adouble.cpp b/ADOL-C/src/adouble.cpp
index cd5d856..92f68e1 100644
--- a/ADOL-C/src/adouble.cpp
+++ b/ADOL-C/src/adouble.cpp
@@ -1332,7 +1332,7 @@ bool operator==(const adouble &a, const double coval) {
   }
 }
 
-inline bool operator==(const double coval, const adouble &a) {
+bool operator==(const double coval, const adouble &a) {
   if (coval != 0.0)
     return (-coval + a == 0);
   else
@@ -1359,7 +1359,7 @@ bool operator<=(const adouble &a, const double coval) {
   }
 }
 
-inline bool operator<=(const double coval, const adouble &a) {
+bool operator<=(const double coval, const adouble &a) {
   if (coval != 0.0)
     return (-coval + a >= 0);
   else
-- 
2.43.0


From 4c492ebaa89505d1b4ec0bcc64dc4238a70a7e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 002/102] fix: fmin(const adouble&, const adouble&) returned
 the location number as value

When the first argument was the smaller one, the recorded variable was given
the numerical value of its storage location instead of its value.
---
 ADOL-C/src/adouble.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/adouble.cpp b/ADOL-C/src/adouble.cpp
index 92f68e1..210138f 100644
--- a/ADOL-C/src/adouble.cpp
+++ b/ADOL-C/src/adouble.cpp
@@ -4704,7 +4704,7 @@ adouble fmin(const adouble &a, const adouble &b) {
   adouble ret_adouble;
 
   const double coval = b.value() < a.value() ? 0.0 : 1.0;
-  const double tmp = b.value() < a.value() ? b.value() : to_double(a.loc());
+  const double tmp = b.value() < a.value() ? b.value() : a.value();
 
   if (tape.workMode() == TapeInfos::WRITE_ACCESS) {
 
-- 
2.43.0


From 59fcc8efbc330a3c4b4f99f4c469e9744eb0345a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 003/102] fix: vector operations counted their products as
 dependent variables

---
 ADOL-C/include/adolc/valuetape/valuetape.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index d3f45f4..3d70d30 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -248,7 +248,7 @@ public:
   size_t num_eq_prod() const { return tapeInfos_.num_eq_prod; }
   void num_eq_prod(size_t num) { tapeInfos_.num_eq_prod = num; }
   void increment_num_eq_prod() { ++(tapeInfos_.num_eq_prod); }
-  void add_num_eq_prod(size_t val) { tapeInfos_.numDeps += val; }
+  void add_num_eq_prod(size_t val) { tapeInfos_.num_eq_prod += val; }
 
   void increment_numInds() { ++tapeInfos_.numInds; }
   size_t numInds() const { return tapeInfos_.numInds; }
-- 
2.43.0


From d2951546fdd6c05df89adf69bbe272e1c7e62e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 004/102] fix: keep the overwritten values when recording
 vector copy and axpy with keep

While recording with keep, vec_copy saved the first destination element for
every element and vec_axpy saved the elements of the first argument instead of
those overwritten, so that a reverse sweep after recording restored wrong
values.
---
 ADOL-C/src/adouble.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/adouble.cpp b/ADOL-C/src/adouble.cpp
index 210138f..810f25c 100644
--- a/ADOL-C/src/adouble.cpp
+++ b/ADOL-C/src/adouble.cpp
@@ -5573,7 +5573,7 @@ void adolc_vec_copy(adouble *const dest, const adouble *const src,
       tape.increment_numTays_Tape();
 
       if (tape.keepTaylors())
-        tape.write_scaylor(dest[0].value());
+        tape.write_scaylor(tape.get_ad_value(dest[0].loc() + i));
     }
   }
   for (size_t i = 0; i < size; ++i)
@@ -5638,7 +5638,7 @@ void adolc_vec_axpy(adouble *const res, const adouble &a,
       tape.increment_numTays_Tape();
 
       if (tape.keepTaylors())
-        tape.write_scaylor(tape.get_ad_value(vec_a[0].loc() + i));
+        tape.write_scaylor(tape.get_ad_value(res[0].loc() + i));
     }
   }
   for (size_t i = 0; i < size; ++i)
-- 
2.43.0


From ea1aef3d046e4172c027883936a44d4e32a7b367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 005/102] fix: clear every adjoint in the vector reverse of an
 active subscript

The reverse of 'x = a[i]' cleared only the first of the p adjoints of x (p
times) and did not advance, so fov_reverse with several weights was wrong.
---
 ADOL-C/src/fo_rev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index e67ffc1..d966eab 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -2027,7 +2027,7 @@ int int_reverse_safe(
         ARES_INC = 0;
 #else
         AARG1_INC += *Ares;
-        *Ares = 0.0;
+        ARES_INC = 0.0;
 #endif
       }
       rp_T[res] = tape.get_taylor();
-- 
2.43.0


From 6cf95f20d2f766389d0249c29fcb3578319eb403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 006/102] fix: reverse of vector copy, dot product and axpy

The overwritten elements were restored in the wrong order, and the adjoints of
the overwritten result of dot product and axpy were not cleared, so earlier
uses of the same locations received wrong adjoints.
---
 ADOL-C/src/fo_rev.cpp | 59 ++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index d966eab..9c33279 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -2323,20 +2323,22 @@ int int_reverse_safe(
       res = tape.get_locint_r();
       size = tape.get_locint_r();
       arg = tape.get_locint_r();
-      for (locint qq = 0; qq < size; qq++) {
+      // undo the element assignments in reversed order
+      for (locint qq = size; qq-- > 0;) {
 
         ASSIGN_A(Aarg, ADJOINT_BUFFER[arg + qq])
         ASSIGN_A(Ares, ADJOINT_BUFFER[res + qq])
 
-        FOR_0_LE_l_LT_p {
+        if (res != arg)
+          FOR_0_LE_l_LT_p {
 #if defined(_INT_REV_)
-          AARG_INC |= *Ares;
-          ARES_INC = 0;
+            AARG_INC |= *Ares;
+            ARES_INC = 0;
 #else
-          AARG_INC += *Ares;
-          ARES_INC = 0.0;
+            AARG_INC += *Ares;
+            ARES_INC = 0.0;
 #endif
-        }
+          }
 
 #if !defined(_NTIGHT_)
         rp_T[res + qq] = tape.get_taylor();
@@ -2350,6 +2352,9 @@ int int_reverse_safe(
       size = tape.get_locint_r();
       arg2 = tape.get_locint_r();
       arg1 = tape.get_locint_r();
+#if !defined(_NTIGHT_)
+      rp_T[res] = tape.get_taylor();
+#endif /* !_NTIGHT_ */
       for (locint qq = 0; qq < size; qq++) {
         ASSIGN_A(Ares, ADJOINT_BUFFER[res])
         ASSIGN_A(Aarg2, ADJOINT_BUFFER[arg2])
@@ -2366,9 +2371,9 @@ int int_reverse_safe(
         arg2++;
         arg1++;
       }
-#if !defined(_NTIGHT_)
-      rp_T[res] = tape.get_taylor();
-#endif /* !_NTIGHT_ */
+      // the previous content of the result was overwritten
+      ASSIGN_A(Ares, ADJOINT_BUFFER[res])
+      FOR_0_LE_l_LT_p ARES_INC = 0;
       break;
 
     case vec_axpy:
@@ -2377,28 +2382,30 @@ int int_reverse_safe(
       arg2 = tape.get_locint_r();
       arg1 = tape.get_locint_r();
       arg = tape.get_locint_r();
-      for (locint qq = 0; qq < size; qq++) {
-        ASSIGN_A(Ares, ADJOINT_BUFFER[res])
+      // undo the element assignments in reversed order
+      for (locint qq = size; qq-- > 0;) {
+        ASSIGN_A(Ares, ADJOINT_BUFFER[res + qq])
         ASSIGN_A(Aarg, ADJOINT_BUFFER[arg])
-        ASSIGN_A(Aarg2, ADJOINT_BUFFER[arg2])
-        ASSIGN_A(Aarg1, ADJOINT_BUFFER[arg1])
+        ASSIGN_A(Aarg2, ADJOINT_BUFFER[arg2 + qq])
+        ASSIGN_A(Aarg1, ADJOINT_BUFFER[arg1 + qq])
+#if !defined(_NTIGHT_)
+        rp_T[res + qq] = tape.get_taylor();
+#endif /* !_NTIGHT_ */
         FOR_0_LE_l_LT_p {
 #if defined(_INT_REV_)
-          AARG_INC |= *Ares;
-          AARG2_INC |= *Ares;
-          AARG1_INC |= ARES_INC;
+          const size_t aRes = *Ares;
+          ARES_INC = 0;
+          AARG_INC |= aRes;
+          AARG2_INC |= aRes;
+          AARG1_INC |= aRes;
 #else
-          AARG2_INC += *Ares;
-          AARG1_INC += (*Ares) * TARG;
-          AARG_INC += ARES_INC * TARG1;
+          const double aRes = *Ares;
+          ARES_INC = 0.0;
+          AARG2_INC += aRes;
+          AARG1_INC += aRes * TARG;
+          AARG_INC += aRes * rp_T[arg1 + qq];
 #endif
         }
-#if !defined(_NTIGHT_)
-        rp_T[res] = tape.get_taylor();
-#endif /* !_NTIGHT_ */
-        arg2++;
-        arg1++;
-        res++;
       }
       break;
 
-- 
2.43.0


From 4555300428504fde651186e94586102bf0121f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 007/102] fix: reverse derivative of pow(x, 1) at x = 0

---
 ADOL-C/src/fo_rev.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 9c33279..4a4f7da 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1394,7 +1394,7 @@ int int_reverse_safe(
       if (arg == res)
         rp_T[arg] = tape.get_taylor();
       if (TARG == 0.0)
-        r0 = 0.0;
+        r0 = (coval == 1.0) ? 1.0 : 0.0;
       else
         r0 *= coval / TARG; // r0 = r0 * n / x
 #endif                      /* !_NTIGHT_ */
-- 
2.43.0


From a30ce265baa9a758615cd6b8c2ab0fcf8a6408ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 008/102] fix: return codes of conditional assignments, floor
 and fabs

---
 ADOL-C/src/fo_rev.cpp   | 44 ++++++++++++++++++++++++-------------
 ADOL-C/src/ho_rev.cpp   | 44 ++++++++++++++++++++++++++-----------
 ADOL-C/src/uni5_for.cpp | 48 ++++++++++++++++++++++++++++++-----------
 3 files changed, 97 insertions(+), 39 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 4a4f7da..e4a5ca5 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1733,7 +1733,7 @@ int int_reverse_safe(
       ASSIGN_A(Aarg, ADJOINT_BUFFER[arg])
 
 #if !defined(_NTIGHT_)
-      coval = (coval != floor(TARG1));
+      coval = (coval != floor(TARG));
 #endif /* !_NTIGHT_ */
 
       FOR_0_LE_l_LT_p {
@@ -1790,7 +1790,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval <= 0.0) && (*Ares != 0))
+            if ((coval > 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -1801,7 +1801,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval <= 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval > 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
@@ -1854,7 +1854,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval < 0.0) && (*Ares != 0))
+            if ((coval >= 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -1865,7 +1865,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval < 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval >= 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
@@ -1914,8 +1914,13 @@ int int_reverse_safe(
         else
           FOR_0_LE_l_LT_p if ((coval <= 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
-      } else if (TARG == 0.0) /* we are at the tie */
-        FOR_0_LE_l_LT_p if (ARES_INC != 0) MINDEC(ret_c, 0);
+      } else
+        FOR_0_LE_l_LT_p if (ARES_INC != 0) {
+          if (coval > 0.0)
+            MINDEC(ret_c, 2);
+          if (TARG == 0.0) /* we are at the tie */
+            MINDEC(ret_c, 0);
+        }
 #else
       if (res != arg1)
         FOR_0_LE_l_LT_p {
@@ -1956,7 +1961,9 @@ int int_reverse_safe(
         else
           FOR_0_LE_l_LT_p if ((coval < 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
-      }
+      } else
+        FOR_0_LE_l_LT_p if ((coval >= 0.0) && (ARES_INC != 0))
+            MINDEC(ret_c, 2);
 #else
       if (res != arg1)
         FOR_0_LE_l_LT_p {
@@ -2448,7 +2455,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval <= 0.0) && (*Ares != 0))
+            if ((coval > 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -2459,7 +2466,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval <= 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval > 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
@@ -2506,7 +2513,7 @@ int int_reverse_safe(
       } else {
         if (res != arg2)
           FOR_0_LE_l_LT_p {
-            if ((coval < 0.0) && (*Ares != 0))
+            if ((coval >= 0.0) && (*Ares != 0))
               MINDEC(ret_c, 2);
 #if defined(_INT_REV_)
             AARG2_INC |= *Ares;
@@ -2517,7 +2524,7 @@ int int_reverse_safe(
 #endif
           }
         else
-          FOR_0_LE_l_LT_p if ((coval < 0.0) && (ARES_INC != 0))
+          FOR_0_LE_l_LT_p if ((coval >= 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
       }
 #else
@@ -2554,8 +2561,13 @@ int int_reverse_safe(
         else
           FOR_0_LE_l_LT_p if ((coval <= 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
-      } else if (TARG == 0.0) /* we are at the tie */
-        FOR_0_LE_l_LT_p if (ARES_INC != 0) MINDEC(ret_c, 0);
+      } else
+        FOR_0_LE_l_LT_p if (ARES_INC != 0) {
+          if (coval > 0.0)
+            MINDEC(ret_c, 2);
+          if (TARG == 0.0) /* we are at the tie */
+            MINDEC(ret_c, 0);
+        }
 #else
       ADOLCError::fail(ADOLCError::ErrorType::ADUBREF_VE_REF, CURRENT_LOCATION);
 #endif /* !_NTIGHT_ */
@@ -2590,7 +2602,9 @@ int int_reverse_safe(
         else
           FOR_0_LE_l_LT_p if ((coval < 0.0) && (ARES_INC != 0))
               MINDEC(ret_c, 2);
-      }
+      } else
+        FOR_0_LE_l_LT_p if ((coval >= 0.0) && (ARES_INC != 0))
+            MINDEC(ret_c, 2);
 #else
       ADOLCError::fail(ADOLCError::ErrorType::ADUBREF_VE_REF, CURRENT_LOCATION);
 #endif /* !_NTIGHT_ */
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 079180b..e167933 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -1925,7 +1925,7 @@ int hov_ti_reverse(
                 AARG1 = 5.0;
                 AARG2_INC = 5.0;
               } else {
-                if (coval <= 0.0)
+                if (coval > 0.0)
                   MINDEC(ret_c, 2);
                 MAXDEC(AARG2, ARES);
                 AARG2_INC_O;
@@ -1947,7 +1947,7 @@ int hov_ti_reverse(
                 MINDEC(ret_c, 0);
                 AARG1 = 5.0;
                 AARG2 = 5.0;
-              } else if (coval <= 0.0)
+              } else if (coval > 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
@@ -2004,7 +2004,7 @@ int hov_ti_reverse(
               HOV_INC(Ares, k1)
               HOV_INC(Aarg2, k1)
             } else {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
               MAXDEC(AARG2, ARES);
               AARG2_INC_O;
@@ -2020,7 +2020,7 @@ int hov_ti_reverse(
         else
           for (int l = 0; l < p; l++) {
             if (ARES != 0.0) {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
@@ -2077,7 +2077,12 @@ int hov_ti_reverse(
               MINDEC(ret_c, 2);
             HOV_INC(Ares, k1)
           }
-      }
+      } else
+        for (int l = 0; l < p; l++) {
+          if ((coval > 0.0) && (ARES != 0.0))
+            MINDEC(ret_c, 2);
+          HOV_INC(Ares, k1)
+        }
       break;
     case cond_eq_assign_s: /* cond_eq_assign_s */
       res = tape.get_locint_r();
@@ -2116,7 +2121,12 @@ int hov_ti_reverse(
               MINDEC(ret_c, 2);
             HOV_INC(Ares, k1)
           }
-      }
+      } else
+        for (int l = 0; l < p; l++) {
+          if ((coval >= 0.0) && (ARES != 0.0))
+            MINDEC(ret_c, 2);
+          HOV_INC(Ares, k1)
+        }
       break;
       /*--------------------------------------------------------------------------*/
       /* NEW CONDITIONALS */
@@ -2605,7 +2615,7 @@ int hov_ti_reverse(
                 AARG1 = 5.0;
                 AARG2_INC = 5.0;
               } else {
-                if (coval <= 0.0)
+                if (coval > 0.0)
                   MINDEC(ret_c, 2);
                 MAXDEC(AARG2, ARES);
                 AARG2_INC_O;
@@ -2627,7 +2637,7 @@ int hov_ti_reverse(
                 MINDEC(ret_c, 0);
                 AARG1 = 5.0;
                 AARG2 = 5.0;
-              } else if (coval <= 0.0)
+              } else if (coval > 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
@@ -2688,7 +2698,7 @@ int hov_ti_reverse(
               HOV_INC(Ares, k1)
               HOV_INC(Aarg2, k1)
             } else {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
               MAXDEC(AARG2, ARES);
               AARG2_INC_O;
@@ -2704,7 +2714,7 @@ int hov_ti_reverse(
         else
           for (int l = 0; l < p; l++) {
             if (ARES != 0.0) {
-              if (coval < 0.0)
+              if (coval >= 0.0)
                 MINDEC(ret_c, 2);
             }
             HOV_INC(Ares, k1)
@@ -2763,7 +2773,12 @@ int hov_ti_reverse(
               MINDEC(ret_c, 2);
             HOV_INC(Ares, k1)
           }
-      }
+      } else
+        for (int l = 0; l < p; l++) {
+          if ((coval > 0.0) && (ARES != 0.0))
+            MINDEC(ret_c, 2);
+          HOV_INC(Ares, k1)
+        }
       break;
 
     case ref_cond_eq_assign_s: /* cond_eq_assign_s */
@@ -2806,7 +2821,12 @@ int hov_ti_reverse(
               MINDEC(ret_c, 2);
             HOV_INC(Ares, k1)
           }
-      }
+      } else
+        for (int l = 0; l < p; l++) {
+          if ((coval >= 0.0) && (ARES != 0.0))
+            MINDEC(ret_c, 2);
+          HOV_INC(Ares, k1)
+        }
       break;
 
       /****************************************************************************/
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index d5b5313..8fd28e9 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -3890,6 +3890,10 @@ int hov_forward(
         if (coval == 0.0)
           MINDEC(ret_c, 2);
       }
+#if defined(_ZOS_)
+      else if (dp_T0[arg] == 0.0)
+        MINDEC(ret_c, 1);
+#endif
 #if defined(_ABS_NORM_) || defined(_ABS_NORM_SIG_)
       tape.signature()[switchnum] = dp_T0[arg];
       swargs[switchnum] = dp_T0[arg];
@@ -4331,8 +4335,12 @@ int hov_forward(
         if (coval <= 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      } else if (dp_T0[arg] == 0)
-        MINDEC(ret_c, 0);
+      } else {
+        if (coval > 0.0)
+          MINDEC(ret_c, 2);
+        if (dp_T0[arg] == 0)
+          MINDEC(ret_c, 0);
+      }
 #endif /* _TIGHT_ */
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
@@ -4343,8 +4351,12 @@ int hov_forward(
         if (coval <= 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      } else if (dp_T0[arg] == 0)
-        MINDEC(ret_c, 0);
+      } else {
+        if (coval > 0.0)
+          MINDEC(ret_c, 2);
+        if (dp_T0[arg] == 0)
+          MINDEC(ret_c, 0);
+      }
 #endif
 #endif /* ALL_TOGETHER_AGAIN */
       break;
@@ -4392,7 +4404,8 @@ int hov_forward(
         if (coval < 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      }
+      } else if (coval >= 0.0)
+        MINDEC(ret_c, 2);
 #endif /* _TIGHT_ */
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
@@ -4403,7 +4416,8 @@ int hov_forward(
         if (coval < 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      }
+      } else if (coval >= 0.0)
+        MINDEC(ret_c, 2);
 #endif
 #endif /* ALL_TOGETHER_AGAIN */
       break;
@@ -5381,8 +5395,12 @@ int hov_forward(
         if (coval <= 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      } else if (dp_T0[arg] == 0)
-        MINDEC(ret_c, 0);
+      } else {
+        if (coval > 0.0)
+          MINDEC(ret_c, 2);
+        if (dp_T0[arg] == 0)
+          MINDEC(ret_c, 0);
+      }
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
       if (dp_T0[arg] > 0)
@@ -5392,8 +5410,12 @@ int hov_forward(
         if (coval <= 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      } else if (dp_T0[arg] == 0)
-        MINDEC(ret_c, 0);
+      } else {
+        if (coval > 0.0)
+          MINDEC(ret_c, 2);
+        if (dp_T0[arg] == 0)
+          MINDEC(ret_c, 0);
+      }
 #endif
 #endif
 #else
@@ -5441,7 +5463,8 @@ int hov_forward(
         if (coval < 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      }
+      } else if (coval >= 0.0)
+        MINDEC(ret_c, 2);
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
       if (dp_T0[arg] >= 0)
@@ -5451,7 +5474,8 @@ int hov_forward(
         if (coval < 0.0)
           MINDEC(ret_c, 2);
         dp_T0[res] = dp_T0[arg1];
-      }
+      } else if (coval >= 0.0)
+        MINDEC(ret_c, 2);
 #endif
 #endif
 #else
-- 
2.43.0


From 02c4cdd8137fd2416c9150ee14af692ba88581b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 009/102] fix: higher-order reverse of ceil and floor wrote to
 the wrong adjoints

---
 ADOL-C/src/ho_rev.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index e167933..2e2de27 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -1821,6 +1821,7 @@ int hov_ti_reverse(
       coval = (coval != ceil(*rpp_T[arg]));
 
       ASSIGN_A(Ares, rpp_A[res])
+      ASSIGN_A(Aarg, rpp_A[arg])
 
       for (int l = 0; l < p; l++)
         if (0 == ARES) {
@@ -1856,7 +1857,7 @@ int hov_ti_reverse(
           HOV_INC(Aarg, k1)
           HOV_INC(Ares, k1)
         } else {
-          ARES = 0.0;
+          ARES_INC = 0.0;
           AARG_INC = 5.0;
           for (int i = 0; i < k; i++) {
             if ((coval != 0.0) && (ARES != 0.0))
-- 
2.43.0


From 32d44bd01febd5ccce82e1bb04d54d8618d0eefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 010/102] fix: Taylor coefficients of pow(x, n) at x = 0

---
 ADOL-C/src/uni5_for.cpp | 49 ++++++++++++-----------------------------
 1 file changed, 14 insertions(+), 35 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 8fd28e9..4912fab 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -3401,7 +3401,7 @@ int hov_forward(
           FOR_0_LE_l_LT_pk TRES_INC = tape.make_nan();
         else {
           /* coval not a whole number */
-          if (coval - floor(coval != 0.0) != 0) {
+          if (coval - floor(coval) != 0) {
             FOR_0_LE_l_LT_p {
               FOR_0_LE_i_LT_k {
                 if (coval - i > 1)
@@ -3420,43 +3420,22 @@ int hov_forward(
             /* the following is not efficient but at least it works */
             /* it reformulates x^n into x* ... *x n times */
             {
-              INC_pk_1(Targ) INC_pk_1(Tres)
-
-                  FOR_p_GT_l_GE_0 {
-                FOR_k_GT_i_GE_0 {
-                  *Tres = 0;
-                  DEC_TRES_FO
+              FOR_0_LE_l_LT_p {
 #if defined(_HIGHER_ORDER_)
-                  if (i == k - 1) {
-                    zOP = dp_z + k - 1;
-                    for (int j = k - 1; j >= 0; j--) {
-                      (*zOP--) = (*Targ--);
-                    }
-                  }
-                  for (int j = 0; j < i; j++) {
-                    *Tres += dp_z[j] * dp_z[i - j - 1];
-                  }
-                  Tres--;
-#endif /* _HIGHER_ORDER_ */
-                }
-              }
-              for (int ii = 3; ii <= coval; ii++) {
-                ASSIGN_T(Tres, TAYLOR_BUFFER[res])
-                ASSIGN_T(Targ, TAYLOR_BUFFER[arg])
-                INC_pk_1(Targ) INC_pk_1(Tres)
-
-                    FOR_p_GT_l_GE_0 {
-                  FOR_k_GT_i_GE_0 {
-                    *Tres = 0;
-                    DEC_TRES_FO
-#if defined(_HIGHER_ORDER_)
-                    TresOP = Tres - i;
+                for (int i = 0; i < k; i++)
+                  dp_z[i] = Tres[i] = Targ[i];
+                for (int ii = 2; ii <= coval; ii++)
+                  for (int i = k - 1; i >= 0; i--) {
+                    double sum = 0.0;
                     for (int j = 0; j < i; j++)
-                      *Tres += TresOP[j] * dp_z[i - j - 1];
-                    Tres--;
-#endif /* _HIGHER_ORDER_ */
+                      sum += Tres[j] * dp_z[i - j - 1];
+                    Tres[i] = sum;
                   }
-                }
+                Tres += k;
+                Targ += k;
+#else
+                TRES_FOINC = 0.0;
+#endif /* _HIGHER_ORDER_ */
               }
             }
           }
-- 
2.43.0


From c928f1fdd3239069eb0bc664d2c460f996f4bde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 011/102] fix: higher-order reverse of vector operations, pow
 at 0 and vector fabs

vec_copy/vec_dot/vec_axpy restored overwritten elements in the wrong order, did
not clear the adjoint of the overwritten result and vec_axpy handled only one
direction; pow(x, n) at x = 0 was right only for n = 2 and overwrote adjoints;
hov_reverse of fabs read its per-direction data out of bounds.
---
 ADOL-C/src/ho_rev.cpp | 142 ++++++++++++++++++++----------------------
 1 file changed, 67 insertions(+), 75 deletions(-)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 2e2de27..ae4c94e 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -1490,39 +1490,21 @@ int hov_ti_reverse(
               /* coval not a whole number */
               if (coval - floor(coval) != 0) {
                 for (int i = 0; i < k; i++) {
-                  if (coval - i > 1) {
-                    Aarg[i] = 0;
-                    Ares[i] = 0;
-                  }
-                  if ((coval - i < 1) && (coval - i > 0)) {
+                  Ares[i] = 0;
+                  if ((coval - i < 1) && (coval - i > 0))
                     Aarg[i] = tape.make_inf();
-                    Ares[i] = 0;
-                  }
-                  if (coval - i < 0) {
+                  if (coval - i < 0)
                     Aarg[i] = tape.make_nan();
-                    Ares[i] = 0;
-                  }
                 }
               } else {
-                if (coval == 1) {
-                  for (int i = 0; i < k; i++) { /* ! no temporary */
-                    Aarg[i] += Ares[i];
-                    Ares[i] = 0.0;
-                  }
-                } else {
-                  /* coval is an int > 1 */
-                  /* the following is not efficient but at least it works */
-                  /* it reformulates x^n into x* ... *x n times */
-
-                  copyAndZeroset(k, Ares, rp_Atemp);
-                  inconv(k, rp_Atemp, Targ, Aarg);
-                  inconv(k, rp_Atemp, Targ, Aarg);
-                  if (coval == 3) {
-                    conv(k, Aarg, Targ, rp_Atemp);
-                    for (int i = 0; i < k; i++)
-                      Aarg[i] = 2.0 * rp_Atemp[i];
-                  }
-                }
+                /* coval is an int >= 1: the derivative is coval * x^(coval-1);
+                   not efficient, but it needs no division by x */
+                rp_Ttemp[0] = coval;
+                for (int i = 1; i < k; i++)
+                  rp_Ttemp[i] = 0.0;
+                for (int ii = 1; ii < coval; ii++)
+                  conv(k, rp_Ttemp, Targ, rp_Ttemp);
+                inconv0(k, Ares, rp_Ttemp, Aarg);
               }
             }
           }
@@ -1778,6 +1760,7 @@ int hov_ti_reverse(
       }
       Targ = rpp_T[arg];
       for (int l = 0; l < p; l++) {
+        const int lt = (q > 1) ? l : 0; // number of the Taylor polynomial
         if (0 == ARES) {
           HOV_INC(Aarg, k1)
           HOV_INC(Ares, k1)
@@ -1793,17 +1776,17 @@ int hov_ti_reverse(
           }
           if (Targ[0] == 0.0)
             MINDEC(ret_c, 1);
-          for (size_t i = 0; i < jj[l]; i++)
+          for (size_t i = 0; i < jj[lt]; i++)
             ARES_INC = 0.0;
-          Aarg += jj[l];
-          for (size_t i = jj[l]; i < to_size_t(k); i++) {
+          Aarg += jj[lt];
+          for (size_t i = jj[lt]; i < to_size_t(k); i++) {
             double aTmp = ARES;
             ARES_INC = 0.0;
-            if ((coval != 0.0) && (x[l] < 0) && (aTmp != 0.0))
+            if ((coval != 0.0) && (x[lt] < 0) && (aTmp != 0.0))
               MINDEC(ret_c, 2);
-            if ((coval == 0.0) && (x[l] > 0) && (aTmp != 0.0))
+            if ((coval == 0.0) && (x[lt] > 0) && (aTmp != 0.0))
               MINDEC(ret_c, 2);
-            AARG_INC += x[l] * aTmp;
+            AARG_INC += x[lt] * aTmp;
           }
         }
         HOS_OV_INC(Targ, k)
@@ -2452,24 +2435,27 @@ int hov_ti_reverse(
       size = tape.get_locint_r();
       arg = tape.get_locint_r();
 
-      for (locint qq = 0; qq < size; qq++) {
+      // undo the element assignments in reversed order
+      for (locint qq = size; qq-- > 0;) {
 
         ASSIGN_A(Aarg, rpp_A[arg + qq])
         ASSIGN_A(Ares, rpp_A[res + qq])
 
-        for (int l = 0; l < p; l++)
-          if (0 == ARES) {
-            HOV_INC(Aarg, k1)
-            HOV_INC(Ares, k1)
-          } else {
-            MAXDEC(AARG, ARES);
-            AARG_INC_O;
-            ARES_INC = 0.0;
-            for (int i = 0; i < k; i++) { /* ! no temporary */
-              AARG_INC += ARES;
+        if (res != arg) {
+          for (int l = 0; l < p; l++)
+            if (0 == ARES) {
+              HOV_INC(Aarg, k1)
+              HOV_INC(Ares, k1)
+            } else {
+              MAXDEC(AARG, ARES);
+              AARG_INC_O;
               ARES_INC = 0.0;
+              for (int i = 0; i < k; i++) { /* ! no temporary */
+                AARG_INC += ARES;
+                ARES_INC = 0.0;
+              }
             }
-          }
+        }
 
         GET_TAYL(res + qq, k, p)
       }
@@ -2481,6 +2467,7 @@ int hov_ti_reverse(
       size = tape.get_locint_r();
       arg2 = tape.get_locint_r();
       arg1 = tape.get_locint_r();
+      GET_TAYL(res, k, p)
       for (locint qq = 0; qq < size; qq++) {
         ASSIGN_A(Ares, rpp_A[res])
         ASSIGN_A(Aarg2, rpp_A[arg2 + qq])
@@ -2506,13 +2493,14 @@ int hov_ti_reverse(
             HOV_INC(Ares, k)
             HOV_INC(Aarg1, k)
             HOV_INC(Aarg2, k)
-            HOS_OV_INC(Targ1, k)
-            HOS_OV_INC(Targ2, k)
-            HOS_OV_INC(Tres, k)
           }
+          HOS_OV_INC(Targ1, k)
+          HOS_OV_INC(Targ2, k)
         }
       }
-      GET_TAYL(res, k, p)
+      // the previous content of the result was overwritten
+      ASSIGN_A(Ares, rpp_A[res])
+      FOR_0_LE_l_LT_pk1 ARES_INC = 0.0;
       break;
 
     case vec_axpy:
@@ -2521,40 +2509,44 @@ int hov_ti_reverse(
       arg2 = tape.get_locint_r();
       arg1 = tape.get_locint_r();
       arg = tape.get_locint_r();
-      for (locint qq = 0; qq < size; qq++) {
+      // undo the element assignments in reversed order
+      for (locint qq = size; qq-- > 0;) {
         ASSIGN_A(Ares, rpp_A[res + qq])
         ASSIGN_A(Aarg, rpp_A[arg])
         ASSIGN_A(Aarg2, rpp_A[arg2 + qq])
         ASSIGN_A(Aarg1, rpp_A[arg1 + qq])
         Targ = rpp_T[arg];
         Targ1 = rpp_T[arg1 + qq];
-        if (0 == ARES) {
-          HOV_INC(Aarg, k1)
-          HOV_INC(Aarg1, k1)
-          HOV_INC(Aarg2, k1)
-          HOV_INC(Ares, k1)
-        } else {
-          comp = (ARES > 2.0) ? ARES : 2.0;
-          MAXDEC(AARG2, ARES);
-          ARES_INC = 0.0;
-          MAXDEC(AARG, comp);
-          MAXDEC(AARG1, comp);
-          AARG_INC_O;
-          AARG1_INC_O;
-          AARG2_INC_O;
-          copyAndZeroset(k, Ares, rp_Atemp);
-          inconv(k, rp_Atemp, Targ1, Aarg);
-          inconv(k, rp_Atemp, Targ, Aarg1);
-          for (int i = 0; i < k; i++)
-            AARG2_INC += rp_Atemp[i];
+        GET_TAYL(res + qq, k, p)
+        for (int l = 0; l < p; l++) {
+          if (0 == ARES) {
+            HOV_INC(Aarg, k1)
+            HOV_INC(Aarg1, k1)
+            HOV_INC(Aarg2, k1)
+            HOV_INC(Ares, k1)
+          } else {
+            const double aTmp = ARES;
+            comp = (aTmp > 2.0) ? aTmp : 2.0;
+            ARES_INC = 0.0;
+            MAXDEC(AARG2, aTmp);
+            MAXDEC(AARG, comp);
+            MAXDEC(AARG1, comp);
+            AARG_INC_O;
+            AARG1_INC_O;
+            AARG2_INC_O;
+            copyAndZeroset(k, Ares, rp_Atemp);
+            inconv(k, rp_Atemp, Targ1, Aarg);
+            inconv(k, rp_Atemp, Targ, Aarg1);
+            for (int i = 0; i < k; i++)
+              AARG2_INC += rp_Atemp[i];
 
-          HOV_INC(Ares, k)
-          HOV_INC(Aarg, k)
-          HOV_INC(Aarg1, k)
+            HOV_INC(Ares, k)
+            HOV_INC(Aarg, k)
+            HOV_INC(Aarg1, k)
+          }
           HOS_OV_INC(Targ, k)
           HOS_OV_INC(Targ1, k)
         }
-        GET_TAYL(res + qq, k, p)
       }
       break;
 
-- 
2.43.0


From a43206b87d9bc8afce5f53006e3747887628b2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 012/102] fix: Taylor coefficients that straddle a block of the
 value stack

---
 ADOL-C/src/valuetape/tapeinfos.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ADOL-C/src/valuetape/tapeinfos.cpp b/ADOL-C/src/valuetape/tapeinfos.cpp
index 7324e78..86b934a 100644
--- a/ADOL-C/src/valuetape/tapeinfos.cpp
+++ b/ADOL-C/src/valuetape/tapeinfos.cpp
@@ -83,12 +83,12 @@ void TapeInfos::freeTapeResources() {
 /****************************************************************************/
 void TapeInfos::write_taylor(double *taylorCoefficientPos, std::ptrdiff_t keep,
                              const char *tay_fileName) {
-  while (tayBuffer_.position() > tayBuffer_.capacity() - keep) {
+  while (static_cast<size_t>(keep) > tayBuffer_.remainingCapacity()) {
+    keep -= static_cast<std::ptrdiff_t>(tayBuffer_.remainingCapacity());
     for (auto i = tayBuffer_.position(); i < tayBuffer_.capacity(); ++i) {
       tayBuffer_[i] = *taylorCoefficientPos;
       ++taylorCoefficientPos;
     }
-    keep -= tayBuffer_.remainingCapacity();
     put_block<TayInfo<TapeInfos, ErrorType>>(tay_fileName,
                                              tayBuffer_.capacity());
   }
@@ -120,19 +120,19 @@ void TapeInfos::write_taylors(double *taylorCoefficientPos, int keep,
 void TapeInfos::write_scaylors(const double *taylorCoefficientPos,
                                std::ptrdiff_t size, const char *tay_fileName) {
   size_t pos = 0;
-  while (tayBuffer_.position() > tayBuffer_.capacity() - size) {
-    std::span<double> taySpan(tayBuffer_.current(),
+  while (static_cast<size_t>(size) > tayBuffer_.remainingCapacity()) {
+    std::span<double> taySpan(tayBuffer_.begin() + tayBuffer_.position(),
                               tayBuffer_.begin() + tayBuffer_.capacity());
     for (double &tay : taySpan) {
       tay = taylorCoefficientPos[pos++];
     }
-    size -= tayBuffer_.remainingCapacity();
+    size -= static_cast<std::ptrdiff_t>(tayBuffer_.remainingCapacity());
     put_block<TayInfo<TapeInfos, ErrorType>>(tay_fileName,
                                              tayBuffer_.capacity());
   }
 
-  std::span<double> tayBufferSpan(tayBuffer_.current(),
-                                  tayBuffer_.current() + size);
+  std::span<double> tayBufferSpan(tayBuffer_.begin() + tayBuffer_.position(),
+                                  static_cast<size_t>(size));
   for (double &tay : tayBufferSpan) {
     tay = taylorCoefficientPos[pos++];
   }
@@ -142,11 +142,11 @@ void TapeInfos::write_scaylors(const double *taylorCoefficientPos,
 void TapeInfos::get_taylors(double *taylorCoefficients, std::ptrdiff_t degree) {
   double *T = taylorCoefficients + degree;
   while (tayBuffer_.position() < static_cast<size_t>(degree)) {
-    std::span<double> taySpan(tayBuffer_.begin(), tayBuffer_.current());
+    std::span<double> taySpan(tayBuffer_.begin(), tayBuffer_.position());
     for (auto tay = taySpan.rbegin(); tay != taySpan.rend(); tay++) {
-      *(T--) = *tay;
+      *(--T) = *tay;
     }
-    degree -= tayBuffer_.position();
+    degree -= static_cast<std::ptrdiff_t>(tayBuffer_.position());
     get_tay_block_r();
   }
 
-- 
2.43.0


From 14760708101cc51a813c7dce3fe9a8c2ce9d401d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 013/102] fix: closing an old trace file twice before
 overwriting it

---
 ADOL-C/include/adolc/valuetape/tapeinfos.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/include/adolc/valuetape/tapeinfos.h b/ADOL-C/include/adolc/valuetape/tapeinfos.h
index 64ce268..86c2efe 100644
--- a/ADOL-C/include/adolc/valuetape/tapeinfos.h
+++ b/ADOL-C/include/adolc/valuetape/tapeinfos.h
@@ -194,9 +194,8 @@ struct TapeInfos {
     using ADOLCError::ErrorType::CANNOT_REMOVE_FILE;
     if (Info::file(*this) == nullptr) {
       if constexpr (!std::is_same_v<Info, TayInfo<TapeInfos, ErrorType>>) {
-        Info::openFile(*this, fileName);
-        if (Info::file(*this) != nullptr) {
-          fclose(Info::file(*this));
+        if (FILE *oldFile = fopen(fileName, "rb")) {
+          fclose(oldFile);
           if (Info::removeFile(fileName)) {
             fail(CANNOT_REMOVE_FILE, CURRENT_LOCATION);
           }
-- 
2.43.0


From e53b7843a28c63bc79025d1504f24ecd412772fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 014/102] fix: trace_on with buffer sizes never started the
 recording

---
 ADOL-C/src/tape_interface.cpp | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/ADOL-C/src/tape_interface.cpp b/ADOL-C/src/tape_interface.cpp
index e680731..a4fe036 100644
--- a/ADOL-C/src/tape_interface.cpp
+++ b/ADOL-C/src/tape_interface.cpp
@@ -67,27 +67,24 @@ int trace_on(short tapeId, int keepTaylors, size_t obs, size_t lbs, size_t vbs,
   currentTapeStack().push(currentTapePtr());
   setCurrentTape(tapeId);
 
-  int retval = tape.initNewTape();
-  if (retval) {
+  tape.initNewTape();
 #ifdef ADOLC_MEDIPACK_SUPPORT
-    tape.mediInitTape(tapeId);
+  tape.mediInitTape(tapeId);
 #endif
-    // reset the tape buffers
-    tape.freeTapeResources();
-    tape.tapestats(TapeInfos::OP_BUFFER_SIZE, obs);
-    tape.tapestats(TapeInfos::LOC_BUFFER_SIZE, lbs);
-    tape.tapestats(TapeInfos::VAL_BUFFER_SIZE, vbs);
-    tape.tapestats(TapeInfos::TAY_BUFFER_SIZE, tbs);
-    tape.keepTaylors(keepTaylors);
-    tape.tapestats(TapeInfos::NO_MIN_MAX, tape.nominmaxFlag());
-    tape.skipFileCleanup(skipFileCleanup);
-    if (keepTaylors != 0)
-      tape.deg_save(1);
-    tape.start_trace();
-    tape.take_stock(); /* record all existing adoubles on the tape */
-    return retval;
-  } else
-    return -1;
+  // reset the tape buffers
+  tape.freeTapeResources();
+  tape.tapestats(TapeInfos::OP_BUFFER_SIZE, obs);
+  tape.tapestats(TapeInfos::LOC_BUFFER_SIZE, lbs);
+  tape.tapestats(TapeInfos::VAL_BUFFER_SIZE, vbs);
+  tape.tapestats(TapeInfos::TAY_BUFFER_SIZE, tbs);
+  tape.keepTaylors(keepTaylors);
+  tape.tapestats(TapeInfos::NO_MIN_MAX, tape.nominmaxFlag());
+  tape.skipFileCleanup(skipFileCleanup);
+  if (keepTaylors != 0)
+    tape.deg_save(1);
+  tape.start_trace();
+  tape.take_stock(); /* record all existing adoubles on the tape */
+  return 1;
 }
 
 void trace_off(int flag) {
-- 
2.43.0


From 5c040bf55b29a06c030f07ee80f81f830e9e80e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 015/102] fix: parameters of spilled traces and file flags of
 re-recorded traces

---
 ADOL-C/src/valuetape/valuetape.cpp | 48 ++++++++++++++----------------
 1 file changed, 23 insertions(+), 25 deletions(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index c9ea082..e7a1d9e 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -75,6 +75,10 @@ int ValueTape::initNewTape() {
 #ifdef ADOLC_SPARSE
   initSparse();
 #endif
+  // nothing of the new recording is on disk yet
+  tapestats(TapeInfos::OP_FILE_ACCESS, 0);
+  tapestats(TapeInfos::LOC_FILE_ACCESS, 0);
+  tapestats(TapeInfos::VAL_FILE_ACCESS, 0);
   // those are the old values from the globaltapevars
   // require to init the tape-buffers with correct size
   // or set the last location pointers.
@@ -335,23 +339,16 @@ void ValueTape::save_params() {
            tapestats(TapeInfos::NUM_PARAM) * sizeof(double));
 
   free_all_taping_params();
-  if (tapeInfos_.valBuffer_.position() <
-      tapeInfos_.valBuffer_.capacity() - tapestats(TapeInfos::NUM_PARAM))
-    put_vals_notWriteBlock(paramstore(), tapestats(TapeInfos::NUM_PARAM));
-  else {
-    size_t np = tapestats(TapeInfos::NUM_PARAM);
-    size_t ip = 0;
-    size_t remain = tapestats(TapeInfos::NUM_PARAM);
-    while (tapestats(TapeInfos::NUM_PARAM) > ip) {
-      remain = tapestats(TapeInfos::NUM_PARAM) - ip;
-      const size_t avail = tapeInfos_.valBuffer_.remainingCapacity();
-      const size_t chunk = (avail < remain) ? avail : remain;
-      put_vals_notWriteBlock(paramstore() + ip, chunk);
-      ip += chunk;
-      if (ip < np)
-        tapeInfos_.put_block<ValInfo<TapeInfos, ErrorType>>(
-            perTapeInfos_.val_fileName, tapeInfos_.valBuffer_.capacity());
-    }
+  const size_t np = tapestats(TapeInfos::NUM_PARAM);
+  size_t ip = 0;
+  while (ip < np) {
+    if (tapeInfos_.valBuffer_.remainingCapacity() == 0)
+      tapeInfos_.put_block<ValInfo<TapeInfos, ErrorType>>(
+          perTapeInfos_.val_fileName, tapeInfos_.valBuffer_.capacity());
+    const size_t avail = tapeInfos_.valBuffer_.remainingCapacity();
+    const size_t chunk = (avail < np - ip) ? avail : np - ip;
+    put_vals_notWriteBlock(paramstore() + ip, chunk);
+    ip += chunk;
   }
 }
 
@@ -606,7 +603,8 @@ void ValueTape::read_tape_stats() {
 
   compare_adolc_ids(get_adolc_id(), tape_ADOLC_ID);
   fclose(loc_file);
-  if (tapestats(TapeInfos::NUM_PARAM) > 0)
+  // parameters already in memory may have been changed by set_param_vec
+  if (tapestats(TapeInfos::NUM_PARAM) > 0 && !paramstore())
     read_params();
 }
 
@@ -634,30 +632,30 @@ void ValueTape::discard_params_r(void) {
     ip -= rsize;
     tapeInfos_.valBuffer_.position(tapeInfos_.valBuffer_.position() - rsize);
     if (ip > 0) {
+      const size_t number = tapestats(TapeInfos::VAL_BUFFER_SIZE);
       fseek(tapeInfos_.valBuffer_.file(),
             static_cast<long>(sizeof(double) *
-                              (tapeInfos_.valBuffer_.numOnTape() -
-                               TapeInfos::VAL_BUFFER_SIZE)),
+                              (tapeInfos_.valBuffer_.numOnTape() - number)),
             SEEK_SET);
 
-      for (size_t i = 0; i < to_size_t(TapeInfos::VAL_BUFFER_SIZE / chunkSize);
-           ++i)
+      const size_t chunks = number / chunkSize;
+      for (size_t i = 0; i < chunks; ++i)
         if (fread(tapeInfos_.valBuffer_.begin() + i * chunkSize,
                   chunkSize * sizeof(double), 1,
                   tapeInfos_.valBuffer_.file()) != 1)
           ADOLCError::fail(ADOLCError::ErrorType::EVAL_VAL_TAPE_READ_FAILED,
                            CURRENT_LOCATION);
 
-      remain = TapeInfos::VAL_BUFFER_SIZE % chunkSize;
+      remain = number % chunkSize;
       if (remain != 0)
-        if (fread(tapeInfos_.valBuffer_.begin() + TapeInfos::VAL_BUFFER_SIZE,
+        if (fread(tapeInfos_.valBuffer_.begin() + chunks * chunkSize,
                   remain * sizeof(double), 1,
                   tapeInfos_.valBuffer_.file()) != 1)
           ADOLCError::fail(ADOLCError::ErrorType::EVAL_VAL_TAPE_READ_FAILED,
                            CURRENT_LOCATION);
 
       tapeInfos_.valBuffer_.numOnTape(tapeInfos_.valBuffer_.numOnTape() -
-                                      TapeInfos::VAL_BUFFER_SIZE);
+                                      number);
       tapeInfos_.valBuffer_.position(tapeInfos_.valBuffer_.capacity());
     }
   }
-- 
2.43.0


From 1a6d3e907ca96bb2dde8fa2b1ae7e3fa4d909806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:07 +0000
Subject: [PATCH 016/102] fix: advector built from a vector or assigned lost
 contiguous locations

---
 ADOL-C/include/adolc/advector.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/advector.h b/ADOL-C/include/adolc/advector.h
index 11d1956..e7f4044 100644
--- a/ADOL-C/include/adolc/advector.h
+++ b/ADOL-C/include/adolc/advector.h
@@ -125,7 +125,24 @@ public:
   }
 
   // given adouble vector might not have contiguous locations
-  advector(const std::vector<adouble> &v) : data_(v) {};
+  advector(const std::vector<adouble> &v)
+      : data_(currentTape().ensureContiguousLocations_(v.size())) {
+    for (size_t i = 0; i < v.size(); ++i)
+      data_[i] = v[i];
+  }
+
+  // a reallocation of the elements has to keep the locations contiguous
+  advector &operator=(const advector &ad_vec) {
+    if (this == &ad_vec)
+      return *this;
+    if (size() == ad_vec.size()) {
+      data_ = ad_vec.data_;
+    } else {
+      advector tmp(ad_vec.data_);
+      data_.swap(tmp.data_);
+    }
+    return *this;
+  }
 
   ~advector() {}
 
-- 
2.43.0


From 93707859e20b6078458c9621f98052db61937045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:32 +0000
Subject: [PATCH 017/102] fix: a refused or failed evaluation left the trace in
 use forever

---
 ADOL-C/include/adolc/valuetape/valuetape.h | 9 +++++++++
 ADOL-C/src/fo_rev.cpp                      | 1 +
 ADOL-C/src/ho_rev.cpp                      | 1 +
 ADOL-C/src/tapedoc/tapedoc.cpp             | 1 +
 ADOL-C/src/uni5_for.cpp                    | 1 +
 ADOL-C/src/valuetape/valuetape.cpp         | 4 +++-
 6 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index 3d70d30..ee600a9 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -815,6 +815,15 @@ public:
   }
   // finish a forward or reverse sweep
   void end_sweep();
+
+  /// Releases the tape if a sweep is left by an exception.
+  struct SweepGuard {
+    ValueTape &tape;
+    ~SweepGuard() {
+      if (tape.workMode() == TapeInfos::READ_ACCESS)
+        tape.end_sweep();
+    }
+  };
   // initialization for the taping process -> buffer allocation, sets files
   // names, and calls appropriate setup routines
   void start_trace();
diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index e4a5ca5..f17f582 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -446,6 +446,7 @@ int int_reverse_safe(
   /*------------------------------------------------------------------------*/
   /* Set up stuff for the tape */
   /* Initialize the Reverse Sweep */
+  ValueTape::SweepGuard sweepGuard{tape};
   tape.init_sweep<ValueTape::Reverse>();
 
   if ((to_size_t(depen) != tape.tapestats(TapeInfos::NUM_DEPENDENTS)) ||
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index ae4c94e..c1c8263 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -402,6 +402,7 @@ int hov_ti_reverse(
   /* Set up stuff for the tape */
 
   /* Initialize the Reverse Sweep */
+  ValueTape::SweepGuard sweepGuard{tape};
   tape.init_sweep<ValueTape::Reverse>();
 
   if ((to_size_t(depen) != tape.tapestats(TapeInfos::NUM_DEPENDENTS)) ||
diff --git a/ADOL-C/src/tapedoc/tapedoc.cpp b/ADOL-C/src/tapedoc/tapedoc.cpp
index 50b4bd6..196dfaf 100644
--- a/ADOL-C/src/tapedoc/tapedoc.cpp
+++ b/ADOL-C/src/tapedoc/tapedoc.cpp
@@ -266,6 +266,7 @@ void tape_doc(short tnum,     /* tape id */
   int i;
   double aDouble;
 #endif
+  ValueTape::SweepGuard sweepGuard{tape};
   tape.init_sweep<ValueTape::Forward>();
   tag = tnum;
 
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 4912fab..4ab9bce 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -1093,6 +1093,7 @@ int hov_forward(
   /* Set up stuff for the tape */
 
   /* Initialize the Forward Sweep */
+  ValueTape::SweepGuard sweepGuard{tape};
   tape.init_sweep<ValueTape::Forward>();
 
   if ((to_size_t(depcheck) != tape.tapestats(TapeInfos::NUM_DEPENDENTS)) ||
diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index e7a1d9e..124c38f 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -532,11 +532,13 @@ void ValueTape::set_param_vec(short tag, size_t numparam,
    * stack information */
   openTape();
   workMode(TapeInfos::WRITE_ACCESS);
-  if (tapestats(TapeInfos::NUM_PARAM) != numparam)
+  if (tapestats(TapeInfos::NUM_PARAM) != numparam) {
+    workMode(TapeInfos::NO_MODE);
     fail(PARAM_COUNTS_MISMATCH, CURRENT_LOCATION,
          FailInfo{.info1 = tag,
                   .info5 = numparam,
                   .info6 = tapeInfos_.stats[TapeInfos::NUM_PARAM]});
+  }
 
   if (!paramstore())
     paramstore(new double[tapestats(TapeInfos::NUM_PARAM)]);
-- 
2.43.0


From 45ca17357768d31ef89e8963633c5c81ac7db411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:21 +0000
Subject: [PATCH 018/102] fix: reverse sweeps accepted Taylor stacks of another
 degree, number of directions or recording

---
 ADOL-C/include/adolc/valuetape/tapeinfos.h | 7 +++++--
 ADOL-C/include/adolc/valuetape/valuetape.h | 3 ++-
 ADOL-C/src/fo_rev.cpp                      | 2 +-
 ADOL-C/src/ho_rev.cpp                      | 9 +++++++++
 ADOL-C/src/uni5_for.cpp                    | 2 +-
 ADOL-C/src/valuetape/tapeinfos.cpp         | 5 ++++-
 ADOL-C/src/valuetape/valuetape.cpp         | 8 ++++++--
 7 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/ADOL-C/include/adolc/valuetape/tapeinfos.h b/ADOL-C/include/adolc/valuetape/tapeinfos.h
index 86c2efe..0e4a5f7 100644
--- a/ADOL-C/include/adolc/valuetape/tapeinfos.h
+++ b/ADOL-C/include/adolc/valuetape/tapeinfos.h
@@ -66,8 +66,11 @@ struct TapeInfos {
   // == 1 if last taylor buffer is still in
   // in core(first call of reverse)
   char lastTayBlockInCore{0};
-  // degree to save and saved respectively
-  int deg_save{0};
+  // degree to save and saved respectively, -1 if nothing is kept
+  int deg_keep{-1};
+  int deg_save{-1};
+  // # of directions on the taylor stack
+  int tay_numDirs{1};
   // # of independents for the taylor stack
   size_t tay_numInds{0};
   // # of dependents for the taylor stack
diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index ee600a9..7fc1215 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -222,6 +222,7 @@ public:
 
   void deg_save(int val) { tapeInfos_.deg_save = val; }
   int deg_save() const { return tapeInfos_.deg_save; }
+  int tay_numDirs() const { return tapeInfos_.tay_numDirs; }
 
   int keepTaylors() const { return tapeInfos_.keepTaylors; }
   void keepTaylors(int val) { tapeInfos_.keepTaylors = val; }
@@ -510,7 +511,7 @@ public:
   /* tries to read a local config file containing, e.g., buffer sizes */
   std::array<std::string, 4> readConfigFile();
   // ------------------------ set up statics for writing taylor data
-  void taylor_begin(size_t bufferSize, int degreeSave);
+  void taylor_begin(size_t bufferSize, int degreeSave, int numDirs = 1);
 
   // close taylor file if necessary and refill buffer if possible
   void finish_tay_file();
diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index f17f582..b47f9ba 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -532,7 +532,7 @@ int int_reverse_safe(
 #if !defined(_NTIGHT_)
   tape.taylor_back();
 
-  if (tape.deg_save() < 0)
+  if (tape.deg_save() != 0)
     ADOLCError::fail(ADOLCError::ErrorType::REVERSE_NO_FOWARD, CURRENT_LOCATION,
                      ADOLCError::FailInfo{.info3 = 0, .info4 = 1});
 
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index c1c8263..182d673 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -459,6 +459,15 @@ int hov_ti_reverse(
     ADOLCError::fail(ADOLCError::ErrorType::REVERSE_NO_FOWARD, CURRENT_LOCATION,
                      ADOLCError::FailInfo{.info3 = degre, .info4 = degre + 1});
 
+#ifdef _HOS_OV_
+  const int numDirs = p;
+#else
+  const int numDirs = 1;
+#endif
+  if (degre > 0 && tape.tay_numDirs() != numDirs)
+    ADOLCError::fail(ADOLCError::ErrorType::REVERSE_NO_FOWARD, CURRENT_LOCATION,
+                     ADOLCError::FailInfo{.info3 = degre, .info4 = degre + 1});
+
   if ((tape.tay_numDeps() != to_size_t(depen)) ||
       (tape.tay_numInds() != to_size_t(indep)))
     ADOLCError::fail(ADOLCError::ErrorType::REVERSE_TAYLOR_COUNTS_MISMATCH,
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 4ab9bce..3acf4b7 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -1249,7 +1249,7 @@ int hov_forward(
 #if defined(_KEEP_)
   if (keep) {
     const size_t taylbuf = tape.tapestats(TapeInfos::TAY_BUFFER_SIZE);
-    tape.taylor_begin(taylbuf, keep - 1);
+    tape.taylor_begin(taylbuf, keep - 1, p);
   }
 #endif
 #endif
diff --git a/ADOL-C/src/valuetape/tapeinfos.cpp b/ADOL-C/src/valuetape/tapeinfos.cpp
index 86b934a..aee8fcc 100644
--- a/ADOL-C/src/valuetape/tapeinfos.cpp
+++ b/ADOL-C/src/valuetape/tapeinfos.cpp
@@ -20,7 +20,8 @@ TapeInfos::TapeInfos(TapeInfos &&other) noexcept
       tapeId_(other.tapeId_), numInds(other.numInds), numDeps(other.numDeps),
       keepTaylors(other.keepTaylors), num_eq_prod(other.num_eq_prod),
       nextBufferNumber(other.nextBufferNumber),
-      lastTayBlockInCore(other.lastTayBlockInCore), deg_save(other.deg_save),
+      lastTayBlockInCore(other.lastTayBlockInCore), deg_keep(other.deg_keep),
+      deg_save(other.deg_save), tay_numDirs(other.tay_numDirs),
       tay_numInds(other.tay_numInds), tay_numDeps(other.tay_numDeps),
       workMode(other.workMode), ext_diff_fct_index(other.ext_diff_fct_index),
       nestedReverseEval(other.nestedReverseEval),
@@ -49,7 +50,9 @@ TapeInfos &TapeInfos::operator=(TapeInfos &&other) noexcept {
     nextBufferNumber = other.nextBufferNumber;
     lastTayBlockInCore = other.lastTayBlockInCore;
 
+    deg_keep = other.deg_keep;
     deg_save = other.deg_save;
+    tay_numDirs = other.tay_numDirs;
     tay_numInds = other.tay_numInds;
     tay_numDeps = other.tay_numDeps;
 
diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 124c38f..ede9eb7 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -179,7 +179,7 @@ size_t ValueTape::keep_stock() {
 /****************************************************************************/
 /* Set up statics for writing taylor data                                   */
 /****************************************************************************/
-void ValueTape::taylor_begin(size_t bufferSize, int degreeSave) {
+void ValueTape::taylor_begin(size_t bufferSize, int degreeSave, int numDirs) {
   using ADOLCError::fail;
   using ADOLCError::FailInfo;
   using ADOLCError::ErrorType::TAPING_TBUFFER_ALLOCATION_FAILED;
@@ -198,7 +198,10 @@ void ValueTape::taylor_begin(size_t bufferSize, int degreeSave) {
     tapeInfos_.tayBuffer_.allocIfNull(bufferSize);
   }
 
-  deg_save(degreeSave);
+  // nothing can be used by a reverse sweep before taylor_close
+  deg_save(-1);
+  tapeInfos_.deg_keep = degreeSave;
+  tapeInfos_.tay_numDirs = numDirs;
   if (degreeSave >= 0)
     keepTaylors(1);
   tapeInfos_.tayBuffer_.position(0);
@@ -227,6 +230,7 @@ void ValueTape::taylor_close() {
     tapeInfos_.tayBuffer_.numOnTape(tapeInfos_.tayBuffer_.position());
   }
   lastTayBlockInCore(1);
+  deg_save(tapeInfos_.deg_keep);
   tapestats(TapeInfos::NUM_TAYS, tapeInfos_.tayBuffer_.numOnTape());
   tay_numInds(tapestats(TapeInfos::NUM_INDEPENDENTS));
   tay_numDeps(tapestats(TapeInfos::NUM_DEPENDENTS));
-- 
2.43.0


From 1eaff1633dcd59e7845988584dcfec20732e741a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 019/102] fix: reverse through a fixed-point iteration used
 uninitialised adjoints, a stale linearisation and the wrong iteration

---
 ADOL-C/src/fixpoint.cpp | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/ADOL-C/src/fixpoint.cpp b/ADOL-C/src/fixpoint.cpp
index 003438b..b9b7c19 100644
--- a/ADOL-C/src/fixpoint.cpp
+++ b/ADOL-C/src/fixpoint.cpp
@@ -28,6 +28,7 @@
 /* F(x,u,y,dim_x,dim_u) */
 /* norm(x,dim_x)        */
 struct fpi_data {
+  short tape_id;
   size_t edf_index;
   short sub_tape_num;
   double_F double_func;
@@ -40,7 +41,8 @@ struct fpi_data {
   size_t N_max_deriv;
 };
 
-static std::vector<fpi_data> fpi_stack;
+// trace ids are per thread, hence also the registered iterations
+static thread_local std::vector<fpi_data> fpi_stack;
 
 static int iteration(short, int dim_x, int dim_xu, double *xu, double *x_fix) {
   double err;
@@ -78,7 +80,9 @@ static int fp_zos_forward(short tapeId, int dim_x, int dim_xu, int, double *xu,
   // Find fpi_stack element with index 'edf_index'.
   auto current =
       std::find_if(fpi_stack.begin(), fpi_stack.end(),
-                   [&](auto &&v) { return v.edf_index == edf_index; });
+                   [&](auto &&v) {
+                     return v.tape_id == tapeId && v.edf_index == edf_index;
+                   });
 
   if (current == fpi_stack.end())
     ADOLCError::fail(ADOLCError::ErrorType::FP_NO_EDF, CURRENT_LOCATION);
@@ -117,7 +121,9 @@ static int fp_fos_forward(short tapeId, int dim_x, int dim_xu, int keep,
   // Find fpi_stack element with index 'edf_index'.
   auto current =
       std::find_if(fpi_stack.begin(), fpi_stack.end(),
-                   [&](auto &&v) { return v.edf_index == edf_index; });
+                   [&](auto &&v) {
+                     return v.tape_id == tapeId && v.edf_index == edf_index;
+                   });
 
   if (current == fpi_stack.end())
     ADOLCError::fail(ADOLCError::ErrorType::FP_NO_EDF, CURRENT_LOCATION);
@@ -153,8 +159,8 @@ static int fp_fos_forward(short tapeId, int dim_x, int dim_xu, int keep,
 }
 
 static int fp_fos_reverse(short tapeId, int dim_x, int dim_xu,
-                          double *x_fix_bar, double *xu_bar, double *,
-                          double *) {
+                          double *x_fix_bar, double *xu_bar, double *xu,
+                          double *x_fix) {
   // (d x_fix) / (d x_0) = 0 (!)
 
   double err = 0.0;
@@ -164,14 +170,22 @@ static int fp_fos_reverse(short tapeId, int dim_x, int dim_xu,
   // Find fpi_stack element with index 'edf_index'.
   auto current =
       std::find_if(fpi_stack.begin(), fpi_stack.end(),
-                   [&](auto &&v) { return v.edf_index == edf_index; });
+                   [&](auto &&v) {
+                     return v.tape_id == tapeId && v.edf_index == edf_index;
+                   });
 
   if (current == fpi_stack.end())
     ADOLCError::fail(ADOLCError::ErrorType::FP_NO_EDF, CURRENT_LOCATION);
 
-  double *U = new double[dim_xu];
+  double *U = new double[dim_xu]();
   double *xi = new double[dim_x];
 
+  // linearize the iteration at the fixed point of the current evaluation, which
+  // need not be the one reached while recording
+  std::vector<double> xu_lin(x_fix, x_fix + dim_x);
+  xu_lin.insert(xu_lin.end(), xu + dim_x, xu + dim_xu);
+  zos_forward(current->sub_tape_num, dim_x, dim_xu, 1, xu_lin.data(), xi);
+
   for (size_t k = 1; k < current->N_max_deriv; ++k) {
     for (int i = 0; i < dim_x; ++i)
       xi[i] = U[i];
@@ -223,6 +237,7 @@ int fp_iteration(short tapeId, short sub_tape_num, double_F double_func,
 
   // add new fp information
   fpi_stack.emplace_back(fpi_data{
+      tapeId,
       edf_iteration->index,
       sub_tape_num,
       double_func,
-- 
2.43.0


From 4b8adf44fb119691539a32175e9f46def05f7f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 020/102] fix: pending checkpointing sequences shared one
 revolve schedule

---
 ADOL-C/include/adolc/checkpointing.h |  6 ++++++
 ADOL-C/include/adolc/revolve.h       |  2 +-
 ADOL-C/src/checkpointing.cpp         | 17 ++++++++++++-----
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/ADOL-C/include/adolc/checkpointing.h b/ADOL-C/include/adolc/checkpointing.h
index 00c0631..c55f8a0 100644
--- a/ADOL-C/include/adolc/checkpointing.h
+++ b/ADOL-C/include/adolc/checkpointing.h
@@ -17,6 +17,7 @@
 
 #include <adolc/adolcexport.h>
 #include <adolc/internal/common.h>
+#include <adolc/revolve.h>
 #include <array>
 #include <stack>
 
@@ -93,6 +94,8 @@ struct Infos {
   int fine{0};
   int info{0};
   int currentCP{0};
+  // schedule of this sequence of steps; several sequences can be pending
+  revolve_nums revolveNumbers;
   double *dp_internal_for{nullptr};
   size_t index{0};
   // unsued but required to be stored in our custom buffer type
@@ -114,6 +117,9 @@ struct Infos {
   /** @brief Tape one time step at the current internal state. */
   void tapeStep(int keep) const;
 
+  /** @brief Ask revolve for the next action of this sequence of steps. */
+  revolve_action nextAction();
+
   /** @brief Run the forward checkpoint schedule for the current state. */
   void revolveForward(int keep);
 
diff --git a/ADOL-C/include/adolc/revolve.h b/ADOL-C/include/adolc/revolve.h
index 7295d87..59de893 100644
--- a/ADOL-C/include/adolc/revolve.h
+++ b/ADOL-C/include/adolc/revolve.h
@@ -29,7 +29,7 @@ struct revolve_nums {
   int oldfine{0};
 };
 
-inline revolve_nums revolve_numbers;
+inline thread_local revolve_nums revolve_numbers;
 
 inline revolve_nums &get_revolve_numbers() { return revolve_numbers; }
 
diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index bcddb6b..9de5e9e 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -119,6 +119,15 @@ void detail::Infos::revolveError() {
   }
 }
 
+revolve_action detail::Infos::nextAction() {
+  revolve_nums &current = get_revolve_numbers();
+  current = revolveNumbers;
+  const revolve_action action =
+      revolve(&check, &capo, &fine, checkpoints, &info);
+  revolveNumbers = current;
+  return action;
+}
+
 void detail::Infos::revolveForward(int keep) {
   /* init revolve */
   check = -1;
@@ -129,7 +138,7 @@ void detail::Infos::revolveForward(int keep) {
   /* execute all time steps */
   enum revolve_action whattodo;
   do {
-    whattodo = revolve(&check, &capo, &fine, checkpoints, &info);
+    whattodo = nextAction();
 
     switch (whattodo) {
     case revolve_takeshot:
@@ -350,8 +359,7 @@ int fos_reverse(size_t cpIndex, short tapeId, int m, int n, double *u,
   // checkpointing
   enum revolve_action whattodo;
   do {
-    whattodo = revolve(&cpInfos->check, &cpInfos->capo, &cpInfos->fine,
-                       cpInfos->checkpoints, &cpInfos->info);
+    whattodo = cpInfos->nextAction();
     switch (whattodo) {
     case revolve_terminate:
       break;
@@ -439,8 +447,7 @@ int fov_reverse(size_t cpIndex, short tapeId, int m, int n, int q, double **Uq,
   // checkpointing
   enum revolve_action whattodo;
   do {
-    whattodo = revolve(&cpInfos->check, &cpInfos->capo, &cpInfos->fine,
-                       cpInfos->checkpoints, &cpInfos->info);
+    whattodo = cpInfos->nextAction();
     switch (whattodo) {
     case revolve_terminate:
       break;
-- 
2.43.0


From 58025a316328d88716f7312208ac5981ae903179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 021/102] fix: drivers kept scratch state in statics shared by
 all threads

---
 ADOL-C/src/drivers/taylor.cpp  | 30 +++++++++++++++---------------
 ADOL-C/src/interfaces.cpp      |  8 ++++----
 ADOL-C/src/lie/adolc_lie_c.cpp | 16 ++++++++--------
 ADOL-C/src/tapedoc/tapedoc.cpp | 10 +++++-----
 4 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index 8f95566..55fad19 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -52,7 +52,7 @@ void freecoefflist(size_t dim, struct item *coeff_list) {
 
 /****************************************************************************/
 /*                                            ALLOCATE/DEALLOCATE COEFFLIST */
-double *tensoriglob;
+static thread_local double *tensoriglob;
 
 /*--------------------------------------------------------------------------*/
 /* Allocate space for symmetric derivative tensors
@@ -496,17 +496,17 @@ int jac_solv(unsigned short tag, int n, const double *x, double *b,
 /****************************************************************************/
 int inverse_Taylor_prop(short tag, int n, int d, double **Y, double **X) {
   int i, j, l, q;
-  static double **I;
+  static thread_local double **I;
   double bi;
-  static double **Xhelp;
-  static double **W;
-  static double *xold;
-  static double ***A;
-  static double *w;
-  static int *dd;
-  static double *b;
-  static int nax, dax, bd, cgd;
-  static short **nonzero;
+  static thread_local double **Xhelp;
+  static thread_local double **W;
+  static thread_local double *xold;
+  static thread_local double ***A;
+  static thread_local double *w;
+  static thread_local int *dd;
+  static thread_local double *b;
+  static thread_local int nax, dax, bd, cgd;
+  static thread_local short **nonzero;
   short *nz;
   double *Aij;
   double *Xj;
@@ -625,8 +625,8 @@ int inverse_Taylor_prop(short tag, int n, int d, double **Y, double **X) {
 /****************************************************************************/
 int inverse_tensor_eval(short tag, int n, int d, int p, double *x,
                         double **tensor, double **S) {
-  static int dold, pold;
-  static struct item *coeff_list;
+  static thread_local int dold, pold;
+  static thread_local struct item *coeff_list;
   int *it = (int *)malloc(d * sizeof(int));
   double **X;
   double **Y;
@@ -724,8 +724,8 @@ int inverse_tensor_eval(short tag, int n, int d, int p, double *x,
 /****************************************************************************/
 int tensor_eval(short tag, int m, int n, int d, int p, double *x,
                 double **tensor, double **S) {
-  static int dold, pold;
-  static struct item *coeff_list;
+  static thread_local int dold, pold;
+  static thread_local struct item *coeff_list;
   int **jm;
   int *it = (int *)malloc(d * sizeof(int));
   double *y = (double *)malloc(m * sizeof(double));
diff --git a/ADOL-C/src/interfaces.cpp b/ADOL-C/src/interfaces.cpp
index 45873d7..71765c5 100644
--- a/ADOL-C/src/interfaces.cpp
+++ b/ADOL-C/src/interfaces.cpp
@@ -92,8 +92,8 @@ int forward(short tag, int m, int n, int d, int keep, double **X, double **Y)
 int forward(short tag, int m, int n, int d, int keep, double **X, double *Y)
 /* forward(tag, 1, n, d, keep, X[n][d+1], Y[d+1]), m=1                      */
 { /* olvo 980729 general ec */
-  static double *x, *xp;
-  static int maxn;
+  static thread_local double *x, *xp;
+  static thread_local int maxn;
   double y;
   int rc = -1, i, k;
 
@@ -349,8 +349,8 @@ int reverse(short tag, int m, int n, int d, double ***Z, short **nz)
 /* reverse(tag, m, n, d, Z[p][n][d+1], nz[p][n]),
            If p and U are omitted they default to m and I                   */
 {
-  static int depax;
-  static double **I;
+  static thread_local int depax;
+  static thread_local double **I;
   if (m adolc_compsize depax) {
     if (depax)
       myfreeI2(depax, I);
diff --git a/ADOL-C/src/lie/adolc_lie_c.cpp b/ADOL-C/src/lie/adolc_lie_c.cpp
index 42e81ba..6ba5d5c 100644
--- a/ADOL-C/src/lie/adolc_lie_c.cpp
+++ b/ADOL-C/src/lie/adolc_lie_c.cpp
@@ -275,9 +275,9 @@ int lie_gradientcv(short Tape_F, short Tape_H, short n, short m, double *x0,
   double *xp = myalloc1(n);
   double *yp = myalloc1(m);
 
-  static int depax_m, depax_n;
-  static double **In;
-  static double **Im;
+  static thread_local int depax_m, depax_n;
+  static thread_local double **In;
+  static thread_local double **Im;
 
   int i = 0, j = 0, l = 0, k = 0, rc = -1;
   double Fak = 1.0;
@@ -399,9 +399,9 @@ int lie_covector(short int Tape_F, short int Tape_W, short int n, double *x0,
 
   int i = 0, k = 0;
 
-  static int depax_m, depax_n;
-  static double **In;
-  static double **Im;
+  static thread_local int depax_m, depax_n;
+  static thread_local double **In;
+  static thread_local double **Im;
 
   for (i = 0; i < n; i++)
     X[i][0] = x0[i];
@@ -482,8 +482,8 @@ int lie_bracket(short int Tape_F, short int Tape_G, short int n, double *x0,
   int i, k;
 
   /* static identity matrix for hov_reverse  */
-  static int depax_n = 0;
-  static double **In = NULL;
+  static thread_local int depax_n = 0;
+  static thread_local double **In = NULL;
 
   for (i = 0; i < n; i++) {
     X[i][0] = x0[i];
diff --git a/ADOL-C/src/tapedoc/tapedoc.cpp b/ADOL-C/src/tapedoc/tapedoc.cpp
index 196dfaf..0b18e3d 100644
--- a/ADOL-C/src/tapedoc/tapedoc.cpp
+++ b/ADOL-C/src/tapedoc/tapedoc.cpp
@@ -36,12 +36,12 @@ BEGIN_C_DECLS
 /*                                                         STATIC VARIABLES */
 
 /*--------------------------------------------------------------------------*/
-static short tag;
+static thread_local short tag;
 
-static int op_cnt;
-static size_t rev_op_cnt;
-static int pagelength;
-static FILE *fp;
+static thread_local int op_cnt;
+static thread_local size_t rev_op_cnt;
+static thread_local int pagelength;
+static thread_local FILE *fp;
 
 static constexpr std::string_view baseName{"tape_"};
 static constexpr std::string_view extension{".tex"};
-- 
2.43.0


From 61a440046b6183c93d4b46ddf1e10fd6824c4e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 022/102] fix: v2 external functions overran their work memory
 and objects were looked up through the wrong trace

---
 ADOL-C/src/externfcts2.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/ADOL-C/src/externfcts2.cpp b/ADOL-C/src/externfcts2.cpp
index 3e1db36..4e7f5df 100644
--- a/ADOL-C/src/externfcts2.cpp
+++ b/ADOL-C/src/externfcts2.cpp
@@ -42,21 +42,22 @@ static void update_ext_fct_memory(ext_diff_fct_v2 *edfct, size_t nin,
     m_isz = (m_isz < insz[i]) ? insz[i] : m_isz;
   for (size_t i = 0; i < nout; i++)
     m_osz = (m_osz < outsz[i]) ? outsz[i] : m_osz;
+  // the memory serves all calls of this function
+  m_isz = (m_isz < edfct->max_insz) ? edfct->max_insz : m_isz;
+  m_osz = (m_osz < edfct->max_outsz) ? edfct->max_outsz : m_osz;
+  nin = (nin < edfct->max_nin) ? edfct->max_nin : nin;
+  nout = (nout < edfct->max_nout) ? edfct->max_nout : nout;
   if (edfct->x == nullptr || edfct->y == nullptr || edfct->xp == nullptr ||
       edfct->yp == nullptr || edfct->up == nullptr || edfct->zp == nullptr ||
       edfct->Xp == nullptr || edfct->Yp == nullptr || edfct->Up == nullptr ||
       edfct->Zp == nullptr || edfct->max_nin < nin || edfct->max_nout < nout ||
       edfct->max_insz < m_isz || edfct->max_outsz < m_osz) {
     char *tmp;
-    size_t q = nout * m_osz;
-    size_t totalmem =
-        (3 * nin * m_isz + 3 * nout * m_osz
-         // + nin*m_isz*p + nout*m_osz*p
-         // + q*nout*m_osz + q*nin*m_isz
-         ) * sizeof(double) +
-        (3 * nin + 3 * nout + nin * m_isz + nout * m_osz + q * nout + q * nin) *
-            sizeof(double *) +
-        (nin + nout + 2 * q) * sizeof(double **);
+    // x, xp, zp and y, yp, up with their values; Xp, Zp and Yp, Up without
+    size_t totalmem = 3 * (nin * m_isz + nout * m_osz) * sizeof(double) +
+                      (3 * (nin + nout) + 2 * (nin * m_isz + nout * m_osz)) *
+                          sizeof(double *) +
+                      2 * (nin + nout) * sizeof(double **);
     if (edfct->allmem != NULL)
       free(edfct->allmem);
     edfct->allmem = (char *)malloc(totalmem);
@@ -145,7 +146,9 @@ int call_ext_fct(ext_diff_fct_v2 *edfct, size_t iArrLen, size_t *iArr,
         edfct->y[i][j] = y[i][j].value();
 
   tape.ext_diff_fct_index(edfct->index);
-  ret = edfct->function(edfct->extTapeId, iArrLen, iArr, nin, nout, insz,
+  // the wrappers of EDFobjects find their object through the calling trace
+  const short callbackTapeId = edfct->obj ? edfct->tapeId : edfct->extTapeId;
+  ret = edfct->function(callbackTapeId, iArrLen, iArr, nin, nout, insz,
                         edfct->x, outsz, edfct->y, edfct->context);
 
   if (edfct->nestedAdolc) {
-- 
2.43.0


From b01de2f69ff7810c7fa08fd5706d2dd182e79b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 023/102] fix: calls of one external function shared the
 argument positions of the last recorded call

---
 ADOL-C/src/checkpointing.cpp   |  2 ++
 ADOL-C/src/externfcts.cpp      | 41 +++++++++++++++++-----------
 ADOL-C/src/fo_rev.cpp          | 50 ++++++++++++++--------------------
 ADOL-C/src/ho_rev.cpp          |  4 +++
 ADOL-C/src/tapedoc/tapedoc.cpp |  2 --
 ADOL-C/src/uni5_for.cpp        |  4 +++
 6 files changed, 55 insertions(+), 48 deletions(-)

diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index 9de5e9e..211922f 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -664,6 +664,8 @@ int Context::checkpointing(short tapeId) {
   tape.put_loc(cpInfos->dim);
   edf->firstIndLocation = cpInfos->adp_x[0].loc();
   edf->firstDepLocation = cpInfos->adp_y[0].loc();
+  tape.put_loc(edf->firstIndLocation);
+  tape.put_loc(edf->firstDepLocation);
 
   std::vector<double> vals(tape.store(), tape.store() + tape.storeSize());
 
diff --git a/ADOL-C/src/externfcts.cpp b/ADOL-C/src/externfcts.cpp
index 4461b88..abc2e96 100644
--- a/ADOL-C/src/externfcts.cpp
+++ b/ADOL-C/src/externfcts.cpp
@@ -21,6 +21,7 @@
 #include <adolc/tape_interface.h>
 #include <adolc/valuetape/valuetape.h>
 #include <cstring>
+#include <vector>
 
 /****************************************************************************/
 /*                                    extern differentiated functions stuff */
@@ -57,7 +58,7 @@ void check_input(ext_diff_fct *edfct, int n, adouble *xa, int m, adouble *ya) {
 }
 
 void call_ext_fct_commonPrior(ext_diff_fct *edfct, int n, adouble *xa, int m,
-                              adouble *ya, double *&vals) {
+                              adouble *ya, std::vector<double> &vals) {
 
   check_input(edfct, n, xa, m, ya);
 
@@ -72,13 +73,14 @@ void call_ext_fct_commonPrior(ext_diff_fct *edfct, int n, adouble *xa, int m,
 
   // store the index of the first location of input and output variables to
   // later find the right position to read (write) from (to) the taylor
-  // coefficient buffers
+  // coefficient buffers. These belong to the call as well.
   edfct->firstDepLocation = ya->loc();
   edfct->firstIndLocation = xa->loc();
+  tape.put_loc(edfct->firstIndLocation);
+  tape.put_loc(edfct->firstDepLocation);
 
   if (edfct->nestedAdolc) {
-    vals = new double[tape.storeSize()];
-    std::copy(tape.store(), tape.store() + tape.storeSize(), vals);
+    vals.assign(tape.store(), tape.store() + tape.storeSize());
   }
 
   /* update taylor buffer if keep != 0 ; possible double counting as in
@@ -103,18 +105,22 @@ void call_ext_fct_commonPrior(ext_diff_fct *edfct, int n, adouble *xa, int m,
   tape.ext_diff_fct_index(edfct->index);
 }
 
-void call_ext_fct_commonPost(ext_diff_fct *edfct, double *&vals) {
+void call_ext_fct_commonPost(ext_diff_fct *edfct,
+                             const std::vector<double> &vals) {
   ValueTape &tape = findTape(edfct->tapeId);
   if (edfct->nestedAdolc) {
-    std::copy(vals, vals + tape.storeSize(), tape.store());
-    delete[] vals;
-    vals = nullptr;
+    std::copy(vals.begin(), vals.end(), tape.store());
   }
 }
 
+// the wrappers of EDFobjects find their object through the calling trace
+static short callbackTapeId(const ext_diff_fct *edfct) {
+  return edfct->obj ? edfct->tapeId : edfct->extTapeId;
+}
+
 int call_ext_fct(ext_diff_fct *edfct, int n, adouble *xa, int m, adouble *ya) {
   int ret;
-  double *vals = nullptr;
+  std::vector<double> vals;
   double *x = nullptr;
   double *y = nullptr;
   assert(n >= 0);
@@ -131,7 +137,7 @@ int call_ext_fct(ext_diff_fct *edfct, int n, adouble *xa, int m, adouble *ya) {
     x[i] = xa[i].value();
   for (int i = 0; i < m; ++i)
     y[i] = ya[i].value();
-  ret = edfct->function(edfct->extTapeId, m, n, x, y);
+  ret = edfct->function(callbackTapeId(edfct), m, n, x, y);
   call_ext_fct_commonPost(edfct, vals);
   if (edfct->dp_x_changes)
     for (int i = 0; i < n; ++i)
@@ -146,7 +152,7 @@ int call_ext_fct(ext_diff_fct *edfct, int n, adouble *xa, int m, adouble *ya) {
 int call_ext_fct(ext_diff_fct *edfct, size_t iArrLength, size_t *iArr, int n,
                  adouble *xa, int m, adouble *ya) {
   int ret;
-  double *vals = nullptr;
+  std::vector<double> vals;
   double *x = nullptr;
   double *y = nullptr;
   assert(n >= 0);
@@ -168,7 +174,8 @@ int call_ext_fct(ext_diff_fct *edfct, size_t iArrLength, size_t *iArr, int n,
     x[i] = xa[i].value();
   for (int i = 0; i < m; ++i)
     y[i] = ya[i].value();
-  ret = edfct->function_iArr(edfct->extTapeId, iArrLength, iArr, m, n, x, y);
+  ret = edfct->function_iArr(callbackTapeId(edfct), iArrLength, iArr, m, n, x,
+                             y);
   call_ext_fct_commonPost(edfct, vals);
   if (edfct->dp_x_changes)
     for (int i = 0; i < n; ++i)
@@ -279,9 +286,9 @@ void EDFobject::init_edf(EDFobject *ebase, short outerTapeId, short extTapeId) {
   edf->fov_reverse = edfoo_wrapper_fov_reverse;
 }
 
-[[maybe_unused]] static int
-edfoo_iarr_wrapper_function(short tapeId, size_t iArrLength, size_t *iArr,
-                            int m, int n, double *x, double *y) {
+static int edfoo_iarr_wrapper_function(short tapeId, size_t iArrLength,
+                                       size_t *iArr, int m, int n, double *x,
+                                       double *y) {
   ext_diff_fct *edf;
   EDFobject_iArr *ebase;
 
@@ -361,8 +368,10 @@ static int edfoo_iarr_wrapper_fov_reverse(short tapeId, size_t iArrLength,
 void EDFobject_iArr::init_edf(EDFobject_iArr *ebase) {
   ValueTape &tape = currentTape();
   edf = tape.ext_diff_append();
+  edf->tapeId = tape.tapeId();
+  edf->extTapeId = tape.tapeId();
   edf->obj = reinterpret_cast<void *>(ebase);
-  edf->function = edfoo_wrapper_function;
+  edf->function_iArr = edfoo_iarr_wrapper_function;
   edf->zos_forward_iArr = edfoo_iarr_wrapper_zos_forward;
   edf->fos_forward_iArr = edfoo_iarr_wrapper_fos_forward;
   edf->fov_forward_iArr = edfoo_iarr_wrapper_fov_forward;
diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index b47f9ba..c60f176 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -2652,22 +2652,26 @@ int int_reverse_safe(
 #if !defined(_INT_REV_)
       /*--------------------------------------------------------------------------*/
     case ext_diff: { /* extern differntiated function */
+      res = tape.get_locint_r();
+      arg = tape.get_locint_r();
       m = static_cast<int>(tape.get_locint_r());
       n = static_cast<int>(tape.get_locint_r());
       tape.ext_diff_fct_index(tape.get_locint_r());
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstDepLocation = res;
+      edfct->firstIndLocation = arg;
       edfct->q = nrows;
 
       if (edfct->ADOLC_EXT_FCT_POINTER == NULL)
         ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_NULLPOINTER_FUNCTION,
                          CURRENT_LOCATION);
+      // Checkpointing can use the same memory for input and output. The results
+      // are overwritten by this operation: take their adjoints out before the
+      // adjoints of the arguments are read.
 #ifdef _FOS_
-      // Checkpointing can use the same memory for input and output.
-      // Keep z in a temp so clearing u does not wipe it.
+      std::vector<double> ext_u_buffer(to_size_t(m));
       std::vector<double> ext_z_buffer(to_size_t(n));
-      ext_u = rp_A + edfct->firstDepLocation;
-      std::copy(rp_A + edfct->firstIndLocation,
-                rp_A + edfct->firstIndLocation + n, ext_z_buffer.begin());
+      ext_u = ext_u_buffer.data();
       ext_z = ext_z_buffer.data();
 #elif defined _FOV_
       ext_Uq = myalloc2(edfct->q, m);
@@ -2675,43 +2679,25 @@ int int_reverse_safe(
 #endif
       ext_x = rp_T + edfct->firstIndLocation;
       ext_y = rp_T + edfct->firstDepLocation;
-      arg = edfct->firstDepLocation;
-#if defined _FOV_
-      for (int loop = 0; loop < m; ++loop, ++arg) {
-        for (int l = 0; l < edfct->q; l++) {
-          ext_Uq[l][loop] = rpp_A[arg][l];
+      res = edfct->firstDepLocation;
+      for (int loop = 0; loop < m; ++loop, ++res) {
+        FOR_0_LE_l_LT_p {
+          ADOLC_EXT_FCT_U_L_LOOP = ADJOINT_BUFFER_RES_L;
+          ADJOINT_BUFFER_RES_L = 0.;
         }
       }
-#endif
 
       arg = edfct->firstIndLocation;
-#if defined _FOV_
       for (int loop = 0; loop < n; ++loop, ++arg) {
-        for (int l = 0; l < edfct->q; l++) {
-          ext_Zq[l][loop] = rpp_A[arg][l];
-        }
+        FOR_0_LE_l_LT_p { ADOLC_EXT_FCT_Z_L_LOOP = ADJOINT_BUFFER_ARG_L; }
       }
-#endif
       ext_retc = edfct->ADOLC_EXT_FCT_COMPLETE;
       MINDEC(ret_c, ext_retc);
 
-      // Set u to zero
-      res = edfct->firstDepLocation;
-      for (int loop = 0; loop < m; ++loop) {
-        FOR_0_LE_l_LT_p { ADJOINT_BUFFER_RES_L = 0.; }
-        ++res;
-      }
       res = edfct->firstIndLocation;
-#ifdef _FOS_
-      std::copy(ext_z_buffer.begin(), ext_z_buffer.end(), rp_A + res);
-#endif
-#if defined _FOV_
       for (int loop = 0; loop < n; ++loop, ++res) {
-        for (int l = 0; l < edfct->q; l++) {
-          rpp_A[res][l] = ext_Zq[l][loop];
-        }
+        FOR_0_LE_l_LT_p { ADJOINT_BUFFER_RES_L = ADOLC_EXT_FCT_Z_L_LOOP; }
       }
-#endif
       if (edfct->dp_y_priorRequired) {
         arg = edfct->firstDepLocation + m - 1;
         for (int loop = 0; loop < m; ++loop, --arg) {
@@ -2731,6 +2717,8 @@ int int_reverse_safe(
       break;
     }
     case ext_diff_iArr: /* extern differntiated function */
+      res = tape.get_locint_r();
+      arg = tape.get_locint_r();
       m = static_cast<int>(tape.get_locint_r());
       n = static_cast<int>(tape.get_locint_r());
       tape.ext_diff_fct_index(tape.get_locint_r());
@@ -2740,6 +2728,8 @@ int int_reverse_safe(
         iArr[loop - 1] = tape.get_locint_r();
       tape.get_locint_r(); /* get it again */
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstDepLocation = res;
+      edfct->firstIndLocation = arg;
       edfct->q = nrows;
 
       if (edfct->ADOLC_EXT_FCT_IARR_POINTER == NULL)
diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 182d673..46dcfd7 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -2880,10 +2880,14 @@ int hov_ti_reverse(
              "TODO: add nestedReverseEval accumulation semantics to ho_rev.cpp "
              "before supporting nested higher-order reverse passes.");
 
+      const size_t firstDep = tape.get_locint_r();
+      const size_t firstInd = tape.get_locint_r();
       m = static_cast<int>(tape.get_locint_r());
       n = static_cast<int>(tape.get_locint_r());
       tape.ext_diff_fct_index(tape.get_locint_r());
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstDepLocation = firstDep;
+      edfct->firstIndLocation = firstInd;
       edfct->q = nrows;
       /* degree is not known when registering external functions,
          so do memory allocation here (at least for now) */
diff --git a/ADOL-C/src/tapedoc/tapedoc.cpp b/ADOL-C/src/tapedoc/tapedoc.cpp
index 0b18e3d..567ec40 100644
--- a/ADOL-C/src/tapedoc/tapedoc.cpp
+++ b/ADOL-C/src/tapedoc/tapedoc.cpp
@@ -1281,7 +1281,6 @@ void tape_doc(short tnum,     /* tape id */
       loc_a[2] = tape.get_locint_f();     /* m */
       loc_a[3] = tape.get_locint_f();     /* xa[0].loc */
       loc_a[3] = tape.get_locint_f();     /* ya[0].loc */
-      loc_a[3] = tape.get_locint_f();     /* dummy */
       filewrite(operation, "extern diff", 3, loc_a, 0, cst_d);
       break;
 
@@ -1295,7 +1294,6 @@ void tape_doc(short tnum,     /* tape id */
       loc_a[2] = tape.get_locint_f();     /* m */
       loc_a[3] = tape.get_locint_f();     /* xa[0].loc */
       loc_a[3] = tape.get_locint_f();     /* ya[0].loc */
-      loc_a[3] = tape.get_locint_f();     /* dummy */
       filewrite(operation, "extern diff iArr", 3, loc_a, 0, cst_d);
       break;
     case ext_diff_v2:
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 3acf4b7..1f8178b 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -5517,6 +5517,8 @@ int hov_forward(
       n = static_cast<int>(tape.get_locint_f());
       m = static_cast<int>(tape.get_locint_f());
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstIndLocation = tape.get_locint_f();
+      edfct->firstDepLocation = tape.get_locint_f();
       edfct->p = p;
       if (edfct->ADOLC_EXT_FCT_POINTER == nullptr)
         ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_NULLPOINTER_DIFFFUNC,
@@ -5563,6 +5565,8 @@ int hov_forward(
       n = static_cast<int>(tape.get_locint_f());
       m = static_cast<int>(tape.get_locint_f());
       edfct = get_ext_diff_fct(tape.tapeId(), tape.ext_diff_fct_index());
+      edfct->firstIndLocation = tape.get_locint_f();
+      edfct->firstDepLocation = tape.get_locint_f();
       edfct->p = p;
       if (edfct->ADOLC_EXT_FCT_IARR_POINTER == nullptr)
         ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_NULLPOINTER_DIFFFUNC,
-- 
2.43.0


From 5b20e593db306defc36854f62770e1e79e48d69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:55 +0000
Subject: [PATCH 024/102] fix: checkpointed loops lost adjoints and could be
 reversed only once, directly after their forward sweep

---
 ADOL-C/include/adolc/checkpointing.h |  26 +++++-
 ADOL-C/src/checkpointing.cpp         | 121 +++++++++++++++++++++------
 2 files changed, 119 insertions(+), 28 deletions(-)

diff --git a/ADOL-C/include/adolc/checkpointing.h b/ADOL-C/include/adolc/checkpointing.h
index c55f8a0..18c23fa 100644
--- a/ADOL-C/include/adolc/checkpointing.h
+++ b/ADOL-C/include/adolc/checkpointing.h
@@ -68,7 +68,10 @@ using StackElement = std::array<double *, 2>;
  * this struct directly.
  */
 struct Infos {
-  ~Infos() { clearStack(); }
+  ~Infos() {
+    clearStack();
+    clearStart();
+  }
   // id of the outer tape, used to get checkpoint in the cp_fos_forward... and
   // reverse methods later
   short tapeId{0};
@@ -101,6 +104,10 @@ struct Infos {
   // unsued but required to be stored in our custom buffer type
   char *allmem{nullptr};
   std::stack<StackElement> cpStack;
+  // where the sequence kept last starts from and whether its forward part is
+  // stored on the checkpoint stack
+  StackElement start{nullptr, nullptr};
+  bool pending{false};
 
   /** @brief Save the current checkpoint state on the internal stack. */
   void takeSnapshot();
@@ -114,6 +121,15 @@ struct Infos {
   /** @brief Free all stored checkpoint snapshots. */
   void clearStack();
 
+  /** @brief Remember the current internal state as start of the sequence. */
+  void saveStart();
+
+  /** @brief Restore the start of the sequence as current internal state. */
+  void restoreStart();
+
+  /** @brief Forget the start of the sequence. */
+  void clearStart();
+
   /** @brief Tape one time step at the current internal state. */
   void tapeStep(int keep) const;
 
@@ -121,7 +137,13 @@ struct Infos {
   revolve_action nextAction();
 
   /** @brief Run the forward checkpoint schedule for the current state. */
-  void revolveForward(int keep);
+  void revolveForward();
+
+  /** @brief Perform all time steps without storing anything. */
+  void advanceAll();
+
+  /** @brief Make the last time step ready for its reverse sweep. */
+  void beginReverse();
 
   /** @brief Raise an ADOL-C error for the current revolve status code. */
   void revolveError();
diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index 211922f..2421588 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -128,7 +128,16 @@ revolve_action detail::Infos::nextAction() {
   return action;
 }
 
-void detail::Infos::revolveForward(int keep) {
+void detail::Infos::advanceAll() {
+  for (int i = 0; i < steps; ++i)
+    function_double(dim, dp_internal_for);
+}
+
+void detail::Infos::revolveForward() {
+  // drop what is left of a sequence that has not been reversed
+  clearStack();
+  pending = false;
+
   /* init revolve */
   check = -1;
   capo = 0;
@@ -153,7 +162,10 @@ void detail::Infos::revolveForward(int keep) {
       break;
 
     case revolve_firsturn:
-      tapeStep(keep);
+      // the reverse sweep tapes the last step, since the step tape may be used
+      // for other purposes until then
+      takeSnapshot();
+      function_double(dim, dp_internal_for);
       break;
 
     case revolve_error:
@@ -166,6 +178,21 @@ void detail::Infos::revolveForward(int keep) {
           CURRENT_LOCATION);
     }
   } while (whattodo == revolve_takeshot || whattodo == revolve_advance);
+  pending = true;
+}
+
+void detail::Infos::beginReverse() {
+  // the sequence may be reversed several times
+  if (!pending) {
+    restoreStart();
+    revolveForward();
+  }
+  pending = false;
+
+  // execute revolve_firstturn left from forward sweep
+  restore();
+  release();
+  tapeStep(1);
 }
 
 /* register one time step function (uses buffer template) */
@@ -226,14 +253,18 @@ int zos_forward(size_t cpIndex, short tapeId, [[maybe_unused]] int m, int n,
   std::vector<double> state(x, x + n);
   InternalForwardBuffer guard(cpInfos, state.data());
 
-  cpInfos->revolveForward(keep);
+  if (keep) {
+    cpInfos->saveStart();
+    cpInfos->revolveForward();
+  } else
+    cpInfos->advanceAll();
 
   // write back
   std::copy(state.begin(), state.end(), y);
   return 0;
 }
 
-int fos_forward(size_t cpIndex, short tapeId, int m, int n, int,
+int fos_forward(size_t cpIndex, short tapeId, int m, int n, int keep,
                 const double *x, const double *X, double *y, double *Y) {
   ValueTape &tape = findTape(tapeId);
   detail::Infos *cpInfos = checkpointingInfos(tape, cpIndex);
@@ -246,6 +277,15 @@ int fos_forward(size_t cpIndex, short tapeId, int m, int n, int,
   std::vector<double> nextState(m);
   std::vector<double> nextTangent(m);
 
+  if (keep) {
+    // prepare the reverse sweep
+    std::vector<double> keptState(state);
+    InternalForwardBuffer guard(cpInfos, keptState.data());
+    cpInfos->saveStart();
+    cpInfos->revolveForward();
+    cpInfos->restoreStart();
+  }
+
   int ret_c = 3;
   for (int step = 0; step < cpInfos->steps; ++step) {
     if (step == 0 || cpInfos->retaping != 0)
@@ -350,7 +390,7 @@ int fos_reverse(size_t cpIndex, short tapeId, int m, int n, double *u,
   std::vector<double> adjoint(u, u + m);
   InternalForwardBuffer guard(cpInfos, state.data());
 
-  // execute second part of revolve_firstturn left from forward sweep
+  cpInfos->beginReverse();
   ::fos_reverse(cpInfos->cpTapeId, m, n, adjoint.data(), adjoint.data());
 
   const char old_bsw = tape.branchSwitchWarning();
@@ -413,7 +453,8 @@ int fos_reverse(size_t cpIndex, short tapeId, int m, int n, double *u,
   tape.branchSwitchWarning(old_bsw);
 
   // save results
-  std::copy(adjoint.begin(), adjoint.end(), z);
+  for (int i = 0; i < n; ++i)
+    z[i] += adjoint[i];
 
   return 0;
 }
@@ -438,7 +479,7 @@ int fov_reverse(size_t cpIndex, short tapeId, int m, int n, int q, double **Uq,
               adjoint.data() + static_cast<size_t>(row) * m);
   setFovRows(adjoint, q, m, adjointRows);
 
-  // execute second part of revolve_firstturn left from forward sweep
+  cpInfos->beginReverse();
   ::fov_reverse(cpInfos->cpTapeId, m, n, q, adjointRows.data(),
                 adjointRows.data());
 
@@ -504,7 +545,8 @@ int fov_reverse(size_t cpIndex, short tapeId, int m, int n, int q, double **Uq,
 
   // save results
   for (int row = 0; row < q; ++row)
-    std::copy(adjointRows[row], adjointRows[row] + n, Zq[row]);
+    for (int i = 0; i < n; ++i)
+      Zq[row][i] += adjointRows[row][i];
   return 0;
 }
 
@@ -537,16 +579,48 @@ void detail::Infos::clearStack() {
   }
 }
 
-void detail::Infos::takeSnapshot() {
+namespace {
+detail::StackElement makeSnapshot(const detail::Infos &infos) {
   detail::StackElement shot;
-  shot[0] = new double[dim];
-  for (int i = 0; i < dim; ++i)
-    shot[0][i] = dp_internal_for[i];
-  if (saveNonAdoubles != nullptr)
-    shot[1] = static_cast<double *>(saveNonAdoubles());
+  shot[0] = new double[infos.dim];
+  for (int i = 0; i < infos.dim; ++i)
+    shot[0][i] = infos.dp_internal_for[i];
+  if (infos.saveNonAdoubles != nullptr)
+    shot[1] = static_cast<double *>(infos.saveNonAdoubles());
   else
     shot[1] = nullptr;
-  cpStack.push(shot);
+  return shot;
+}
+
+void restoreSnapshot(const detail::Infos &infos,
+                     const detail::StackElement &shot) {
+  for (int i = 0; i < infos.dim; ++i)
+    infos.dp_internal_for[i] = shot[0][i];
+
+  if (shot[1] != nullptr)
+    infos.restoreNonAdoubles(static_cast<void *>(shot[1]));
+}
+} // namespace
+
+void detail::Infos::takeSnapshot() { cpStack.push(makeSnapshot(*this)); }
+
+void detail::Infos::saveStart() {
+  clearStart();
+  start = makeSnapshot(*this);
+}
+
+void detail::Infos::restoreStart() {
+  using ADOLCError::ErrorType::CP_EMPTY_STACK;
+  if (start[0] == nullptr)
+    ADOLCError::fail(CP_EMPTY_STACK, CURRENT_LOCATION,
+                     ADOLCError::FailInfo{.info2 = index});
+  restoreSnapshot(*this, start);
+}
+
+void detail::Infos::clearStart() {
+  delete[] start[0];
+  delete[] start[1];
+  start = {nullptr, nullptr};
 }
 
 void detail::Infos::restore() {
@@ -556,12 +630,7 @@ void detail::Infos::restore() {
   if (cpStack.empty())
     fail(CP_EMPTY_STACK, CURRENT_LOCATION, FailInfo{.info2 = index});
 
-  detail::StackElement shot = cpStack.top();
-  for (int i = 0; i < dim; ++i)
-    dp_internal_for[i] = shot[0][i];
-
-  if (shot[1] != nullptr)
-    restoreNonAdoubles(static_cast<void *>(shot[1]));
+  restoreSnapshot(*this, cpStack.top());
 }
 
 void detail::Infos::release() {
@@ -653,7 +722,7 @@ int Context::checkpointing(short tapeId) {
   initExternalDiffFunction(edf);
   edf->cp_index = cpInfos->index;
   edf->dp_x_changes = 0;
-  edf->dp_y_priorRequired = 0;
+  edf->dp_y_priorRequired = 1;
   ValueTape &tape = findTape(cpInfos->tapeId);
   // but we do not call it
   // we use direct taping to avoid unnecessary argument copying
@@ -677,12 +746,12 @@ int Context::checkpointing(short tapeId) {
     state[i] = cpInfos->adp_x[i].value();
 
   if (tape.keepTaylors()) {
-    // perform all time steps, tape the last, take checkpoints
-    cpInfos->revolveForward(1);
+    // perform all time steps, take checkpoints
+    cpInfos->saveStart();
+    cpInfos->revolveForward();
   } else
     // perform all time steps without taping
-    for (int i = 0; i < cpInfos->steps; ++i)
-      cpInfos->function_double(cpInfos->dim, state.data());
+    cpInfos->advanceAll();
 
   std::copy(vals.begin(), vals.end(), tape.store());
 
-- 
2.43.0


From b8dcf0d8f1b3acbcd2e4e6a8c70d2fe79283b0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:31 +0000
Subject: [PATCH 025/102] fix: index domains lost dependencies when the result
 takes the place of the second argument

---
 ADOL-C/src/uni5_for.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 1f8178b..adfac00 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -5958,7 +5958,7 @@ short ext_firstsign2(double sigbase, int p, double *u, double *du) {
 #if defined(_TIGHT_)
 void copy_index_domain(size_t res, size_t arg, uint **ind_dom) {
   if (ind_dom[arg][0] > ind_dom[res][1]) {
-    delete ind_dom[res];
+    delete[] ind_dom[res];
     ind_dom[res] = new uint[2 * (ind_dom[arg][0] + 1)];
     ind_dom[res][1] = 2 * ind_dom[arg][0];
   }
@@ -6026,6 +6026,10 @@ void merge_2_index_domains(size_t res, size_t arg, uint **ind_dom) {
 void combine_2_index_domains(size_t res, size_t arg1, size_t arg2,
                              uint **ind_dom) {
 
+  if (res == arg2) { // do not overwrite the second argument
+    merge_2_index_domains(res, arg1, ind_dom);
+    return;
+  }
   if (res != arg1)
     copy_index_domain(res, arg1, ind_dom);
 
@@ -6155,7 +6159,7 @@ void extend_nonlinearity_domain_binary_step(size_t arg1, size_t arg2,
     if (index_nonl_dom[0] == 0) /* empty list */
     {
       if (index_nonl_dom[1] < num) {
-        delete index_nonl_dom;
+        delete[] index_nonl_dom;
         index_nonl_dom = new uint[2 * (num + 1)];
         index_nonl_dom[1] = 2 * num;
       }
-- 
2.43.0


From 814808001470ba7b6941b8731b350fec580981b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:31 +0000
Subject: [PATCH 026/102] fix: safe sparsity patterns of fmin crashed or missed
 columns beyond the first word

---
 ADOL-C/src/uni5_for.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index adfac00..050a4b0 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -3757,7 +3757,6 @@ int hov_forward(
       fod[opind].left = &fod[arg_index[arg1]];
       fod[opind].right = &fod[arg_index[arg2]];
       arg_index[res] = opind++;
-      arg_index[res] = opind++;
 #endif
 #endif
 #else
@@ -3799,7 +3798,7 @@ int hov_forward(
       dp_T0[res] = MIN_ADOLC(dp_T0[arg1], dp_T0[arg2]);
 #endif /* _TIGHT_ */
 #ifdef _NTIGHT_
-      TRES_INC = TARG1_INC | TARG2_INC;
+      FOR_0_LE_l_LT_p TRES_INC = TARG1_INC | TARG2_INC;
 #endif /* _NTIGHT_ */
 #else
       Tqo = nullptr;
-- 
2.43.0


From f9b0223ac87afa1ce9c02df27ae80153b167552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:31 +0000
Subject: [PATCH 027/102] fix: sparsity patterns of conditional assignments
 missed dependencies

---
 ADOL-C/src/fo_rev.cpp   | 14 ++----
 ADOL-C/src/uni5_for.cpp | 94 +++++++++++++++++++++++++++--------------
 2 files changed, 67 insertions(+), 41 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index c60f176..97f0641 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1923,11 +1923,8 @@ int int_reverse_safe(
             MINDEC(ret_c, 0);
         }
 #else
-      if (res != arg1)
-        FOR_0_LE_l_LT_p {
-          AARG1 |= *Ares;
-          ARES_INC = 0;
-        }
+      if (res != arg1) /* res may also keep its old value */
+        FOR_0_LE_l_LT_p AARG1_INC |= ARES_INC;
 #endif /* !_NTIGHT_ */
       break;
 
@@ -1966,11 +1963,8 @@ int int_reverse_safe(
         FOR_0_LE_l_LT_p if ((coval >= 0.0) && (ARES_INC != 0))
             MINDEC(ret_c, 2);
 #else
-      if (res != arg1)
-        FOR_0_LE_l_LT_p {
-          AARG1 |= *Ares;
-          ARES_INC = 0;
-        }
+      if (res != arg1) /* res may also keep its old value */
+        FOR_0_LE_l_LT_p AARG1_INC |= ARES_INC;
 #endif /* !_NTIGHT_ */
       break;
 
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 050a4b0..53177a5 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -4110,6 +4110,9 @@ int hov_forward(
       }
 
 #else
+      fod[opind].entry = maxopind + 2;
+      fod[opind].left = &fod[arg_index[arg1]];
+      fod[opind].right = &fod[arg_index[arg2]];
       arg_index[res] = opind++;
 #endif
 #endif
@@ -4122,8 +4125,6 @@ int hov_forward(
 
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] > 0)
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
       else
@@ -4217,6 +4218,9 @@ int hov_forward(
       }
 
 #else
+      fod[opind].entry = maxopind + 2;
+      fod[opind].left = &fod[arg_index[arg1]];
+      fod[opind].right = &fod[arg_index[arg2]];
       arg_index[res] = opind++;
 #endif
 #endif
@@ -4229,8 +4233,6 @@ int hov_forward(
 
 #ifdef _INT_FOR_
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] >= 0)
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
       else
@@ -4284,16 +4286,33 @@ int hov_forward(
 
       /* olvo 980924 changed order to allow reflexive ops */
 #if defined(_INDO_)
-#if defined(_INDOPRO_)
 #ifdef _TIGHT_
-      if (dp_T0[arg] > 0)
+      if (dp_T0[arg] > 0) {
+        if (coval <= 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
+#if defined(_INDOPRO_)
         copy_index_domain(res, arg1, ind_dom);
+#endif
+#if defined(_NONLIND_)
+        arg_index[res] = arg_index[arg1];
+#endif
+      } else {
+        if (coval > 0.0)
+          MINDEC(ret_c, 2);
+        if (dp_T0[arg] == 0)
+          MINDEC(ret_c, 0);
+      }
 #else
+#if defined(_INDOPRO_)
       merge_2_index_domains(res, arg1, ind_dom);
 #endif
-#endif
 #if defined(_NONLIND_)
-      arg_index[res] = arg_index[arg1];
+      fod[opind].entry = maxopind + 2;
+      fod[opind].left = &fod[arg_index[res]];
+      fod[opind].right = &fod[arg_index[arg1]];
+      arg_index[res] = opind++;
+#endif
 #endif
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
@@ -4302,14 +4321,13 @@ int hov_forward(
 #endif              /* ALL_TOGETHER_AGAIN */
 
 #ifdef _INT_FOR_
+#ifdef _NTIGHT_
+      FOR_0_LE_l_LT_pk TRES_INC |= TARG1_INC;
+#endif /* _NTIGHT_ */
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] > 0)
-#endif /* _TIGHT_ */
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
 
-#ifdef _TIGHT_
       if (dp_T0[arg] > 0) {
         if (coval <= 0.0)
           MINDEC(ret_c, 2);
@@ -4353,16 +4371,29 @@ int hov_forward(
 
       /* olvo 980924 changed order to allow reflexive ops */
 #if defined(_INDO_)
-#if defined(_INDOPRO_)
 #ifdef _TIGHT_
-      if (dp_T0[arg] >= 0)
+      if (dp_T0[arg] >= 0) {
+        if (coval < 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
+#if defined(_INDOPRO_)
         copy_index_domain(res, arg1, ind_dom);
+#endif
+#if defined(_NONLIND_)
+        arg_index[res] = arg_index[arg1];
+#endif
+      } else if (coval >= 0.0)
+        MINDEC(ret_c, 2);
 #else
+#if defined(_INDOPRO_)
       merge_2_index_domains(res, arg1, ind_dom);
 #endif
-#endif
 #if defined(_NONLIND_)
-      arg_index[res] = arg_index[arg1];
+      fod[opind].entry = maxopind + 2;
+      fod[opind].left = &fod[arg_index[res]];
+      fod[opind].right = &fod[arg_index[arg1]];
+      arg_index[res] = opind++;
+#endif
 #endif
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
@@ -4371,14 +4402,13 @@ int hov_forward(
 #endif              /* ALL_TOGETHER_AGAIN */
 
 #ifdef _INT_FOR_
+#ifdef _NTIGHT_
+      FOR_0_LE_l_LT_pk TRES_INC |= TARG1_INC;
+#endif /* _NTIGHT_ */
 #ifdef _TIGHT_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] >= 0)
-#endif /* _TIGHT_ */
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
 
-#ifdef _TIGHT_
       if (dp_T0[arg] >= 0) {
         if (coval < 0.0)
           MINDEC(ret_c, 2);
@@ -5192,8 +5222,6 @@ int hov_forward(
 #endif              /* ALL_TOGETHER_AGAIN */
 
 #ifdef _INT_FOR_
-        coval = tape.get_val_f();
-
         if (dp_T0[arg] > 0)
           FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
         else
@@ -5210,7 +5238,6 @@ int hov_forward(
             MINDEC(ret_c, 0);
           dp_T0[res] = dp_T0[arg2];
         }
-        FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC | TARG2_INC;
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
         if (dp_T0[arg] > 0)
@@ -5291,8 +5318,6 @@ int hov_forward(
 #endif              /* ALL_TOGETHER_AGAIN */
 
 #ifdef _INT_FOR_
-        coval = tape.get_val_f();
-
         if (dp_T0[arg] >= 0)
           FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
         else
@@ -5307,7 +5332,6 @@ int hov_forward(
             MINDEC(ret_c, 2);
           dp_T0[res] = dp_T0[arg2];
         }
-        FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC | TARG2_INC;
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
         if (dp_T0[arg] >= 0)
@@ -5351,12 +5375,20 @@ int hov_forward(
       /* olvo 980924 changed order to allow reflexive ops */
 #if defined(_INDO_)
       if (dp_T0[arg] > 0) {
+        if (coval <= 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
 #if defined(_INDOPRO_)
         copy_index_domain(res, arg1, ind_dom);
 #endif
 #if defined(_NONLIND_)
         arg_index[res] = arg_index[arg1];
 #endif
+      } else {
+        if (coval > 0.0)
+          MINDEC(ret_c, 2);
+        if (dp_T0[arg] == 0)
+          MINDEC(ret_c, 0);
       }
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
@@ -5365,8 +5397,6 @@ int hov_forward(
 #endif              /* ALL_TOGETHER_AGAIN */
 
 #ifdef _INT_FOR_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] > 0)
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
 
@@ -5419,13 +5449,17 @@ int hov_forward(
       /* olvo 980924 changed order to allow reflexive ops */
 #if defined(_INDO_)
       if (dp_T0[arg] >= 0) {
+        if (coval < 0.0)
+          MINDEC(ret_c, 2);
+        dp_T0[res] = dp_T0[arg1];
 #if defined(_INDOPRO_)
         copy_index_domain(res, arg1, ind_dom);
 #endif
 #if defined(_NONLIND_)
         arg_index[res] = arg_index[arg1];
 #endif
-      }
+      } else if (coval >= 0.0)
+        MINDEC(ret_c, 2);
 #else
 #if !defined(_ZOS_) /* BREAK_ZOS */
       ASSIGN_T(Tres, TAYLOR_BUFFER[res])
@@ -5433,8 +5467,6 @@ int hov_forward(
 #endif              /* ALL_TOGETHER_AGAIN */
 
 #ifdef _INT_FOR_
-      coval = tape.get_val_f();
-
       if (dp_T0[arg] >= 0)
         FOR_0_LE_l_LT_pk TRES_INC = TARG1_INC;
 
-- 
2.43.0


From 085888b9649fbfa90ad48e3a33d158b9fc51ac1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:31 +0000
Subject: [PATCH 028/102] fix: tight reverse bit patterns restored wrong values
 behind divisions and powers

---
 ADOL-C/src/fo_rev.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 97f0641..816a823 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1114,11 +1114,15 @@ int int_reverse_safe(
       ASSIGN_A(Aarg1, ADJOINT_BUFFER[arg1])
 
       /* olvo 980922 changed order to allow x=y/x */
-#if !defined(_NTIGHT_) && !defined(_INT_REV_)
+#if !defined(_NTIGHT_)
+#if !defined(_INT_REV_)
       double r_0 = -TRES;
+#endif /* !_INT_REV_ */
       rp_T[res] = tape.get_taylor();
+#if !defined(_INT_REV_)
       double r0 = 1.0 / TARG2;
       r_0 *= r0;
+#endif /* !_INT_REV_ */
 #endif /* !_NTIGHT_ */
 
       FOR_0_LE_l_LT_p {
@@ -1149,12 +1153,16 @@ int int_reverse_safe(
       ASSIGN_A(Ares, ADJOINT_BUFFER[res])
       ASSIGN_A(Aarg, ADJOINT_BUFFER[arg])
 
-#if !defined(_NTIGHT_) && !defined(_INT_REV_)
+#if !defined(_NTIGHT_)
       /* olvo 980922 changed order to allow x=d/x */
+#if !defined(_INT_REV_)
       double r0 = -TRES;
+#endif /* !_INT_REV_ */
       if (arg == res)
         rp_T[arg] = tape.get_taylor();
+#if !defined(_INT_REV_)
       r0 /= TARG;
+#endif /* !_INT_REV_ */
 #endif /* !_NTIGHT_ */
 
       FOR_0_LE_l_LT_p {
@@ -1389,15 +1397,19 @@ int int_reverse_safe(
       ASSIGN_A(Ares, ADJOINT_BUFFER[res])
       ASSIGN_A(Aarg, ADJOINT_BUFFER[arg])
 
-#if !defined(_NTIGHT_) && !defined(_INT_REV_)
+#if !defined(_NTIGHT_)
       /* olvo 980921 changed order to allow x=pow(x,n) */
+#if !defined(_INT_REV_)
       double r0 = TRES; // r0 = pow(x, n)
+#endif /* !_INT_REV_ */
       if (arg == res)
         rp_T[arg] = tape.get_taylor();
+#if !defined(_INT_REV_)
       if (TARG == 0.0)
         r0 = (coval == 1.0) ? 1.0 : 0.0;
       else
         r0 *= coval / TARG; // r0 = r0 * n / x
+#endif /* !_INT_REV_ */
 #endif                      /* !_NTIGHT_ */
 
       FOR_0_LE_l_LT_p {
-- 
2.43.0


From 05c86718504d8f2c5b9446c275fc6bba9cd4e997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:31 +0000
Subject: [PATCH 029/102] fix: Jacobian bit patterns with empty rows or
 negative return codes

---
 ADOL-C/include/adolc/sparse/sparsedrivers.h |  8 +++++-
 ADOL-C/src/sparse/sparsedrivers.cpp         | 31 +++++++++------------
 2 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/ADOL-C/include/adolc/sparse/sparsedrivers.h b/ADOL-C/include/adolc/sparse/sparsedrivers.h
index aebf718..18a54cd 100644
--- a/ADOL-C/include/adolc/sparse/sparsedrivers.h
+++ b/ADOL-C/include/adolc/sparse/sparsedrivers.h
@@ -355,9 +355,11 @@ template <BitPatternPropagationDirection BPPD, ControlFlowMode CFM>
 void prepareADCalls(short tapeId, const double *basepoint,
                     BvpData<BPPD> &data) {
   if constexpr (BPPD == BitPatternPropagationDirection::Reverse &&
-                CFM == ControlFlowMode::Tight)
+                CFM == ControlFlowMode::Tight) {
+    data.valuepoint_.resize(data.depen_);
     data.rc_ = zos_forward(tapeId, data.depen_, data.indep_, 1, basepoint,
                            data.valuepoint_.data());
+  }
 }
 
 /**
@@ -420,9 +422,13 @@ int bitVectorPropagation(short tapeId, int depen, int indep,
   checkBVPInput<CFM>(basepoint);
   BvpData<BPPD> data{depen, indep};
   prepareADCalls<BPPD, CFM>(tapeId, basepoint, data);
+  if (data.rc_ < 0)
+    return data.rc_;
   for (int stripIdx = 0; stripIdx < data.numStripmineBatches_; stripIdx++) {
     prepareSeedMatrix(stripIdx, data);
     ADCalls<BPPD, CFM>(tapeId, basepoint, data);
+    if (data.rc_ < 0)
+      return data.rc_;
     extractCompressedRowStorage(stripIdx, compressedRowStorage, data);
   }
   return data.rc_;
diff --git a/ADOL-C/src/sparse/sparsedrivers.cpp b/ADOL-C/src/sparse/sparsedrivers.cpp
index 20d775f..b803a78 100644
--- a/ADOL-C/src/sparse/sparsedrivers.cpp
+++ b/ADOL-C/src/sparse/sparsedrivers.cpp
@@ -41,30 +41,25 @@ void extract(size_t wordIdx, size_t stripIdx, size_t currentStripWordIdx,
              BvpData<BitPatternPropagationDirection::Forward> &data,
              std::span<uint *> &compressedRowStorage) {
 
-  size_t numNonzeros = std::accumulate(data.indepWordHasNonzero_.begin(),
-                                       data.indepWordHasNonzero_.end(), 0UL);
-
-  if (numNonzeros > 0) {
-    uint *row = nullptr;
-    if (stripIdx == 0) {
-      row = new uint[numNonzeros + 1];
-      row[0] = 0;
-    } else {
-      row = new uint[compressedRowStorage[wordIdx][0] + numNonzeros + 1];
-      std::copy(compressedRowStorage[wordIdx],
-                compressedRowStorage[wordIdx] +
-                    compressedRowStorage[wordIdx][0] + 1,
-                row);
-    }
-
-    uint idx = row[0] + 1;
+  const size_t numNonzeros = std::accumulate(
+      data.indepWordHasNonzero_.begin(), data.indepWordHasNonzero_.end(), 0UL);
+
+  // every row exists, even if it has no nonzeros (in the first strips)
+  if (numNonzeros > 0 || stripIdx == 0) {
+    const size_t numPrevious =
+        (stripIdx == 0) ? 0 : compressedRowStorage[wordIdx][0];
+    uint *row = new uint[numPrevious + numNonzeros + 1];
+    row[0] = static_cast<uint>(numPrevious + numNonzeros);
+    if (numPrevious > 0)
+      std::copy_n(compressedRowStorage[wordIdx] + 1, numPrevious, row + 1);
+
+    size_t idx = numPrevious + 1;
     for (size_t i = 0; i < data.indepWordHasNonzero_.size(); i++) {
       if (data.indepWordHasNonzero_[i]) {
         row[idx++] = static_cast<uint>(currentStripWordIdx + i);
         data.indepWordHasNonzero_[i] = 0;
       }
     }
-    row[0] = idx - 1;
     delete[] compressedRowStorage[wordIdx];
     compressedRowStorage[wordIdx] = row;
   }
-- 
2.43.0


From d217ef14aeac6c9cf545139a0e180cf615113e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:29 +0000
Subject: [PATCH 030/102] fix: generate_seed_jac did nothing

---
 ADOL-C/include/adolc/valuetape/sparseinfos.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/valuetape/sparseinfos.h b/ADOL-C/include/adolc/valuetape/sparseinfos.h
index c0b6899..d16527d 100644
--- a/ADOL-C/include/adolc/valuetape/sparseinfos.h
+++ b/ADOL-C/include/adolc/valuetape/sparseinfos.h
@@ -10,7 +10,18 @@
 
 namespace ADOLC::Sparse {
 template <CompressionMode CM>
-void generateSeedJac(int, int, const std::span<uint *>, double ***, int *) {};
+void generateSeedJac(int dimOut, int dimIn, const std::span<uint *> JP,
+                     double ***Seed, int *p);
+template <>
+ADOLC_API void
+generateSeedJac<CompressionMode::Column>(int dimOut, int dimIn,
+                                         const std::span<uint *> JP,
+                                         double ***Seed, int *p);
+template <>
+ADOLC_API void
+generateSeedJac<CompressionMode::Row>(int dimOut, int dimIn,
+                                      const std::span<uint *> JP,
+                                      double ***Seed, int *p);
 /**
  * @brief Cached sparse Jacobian recovery data stored on a tape.
  *
-- 
2.43.0


From 64d01a9bc5667d8f3b0d7b34519733922775c5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:43 +0000
Subject: [PATCH 031/102] fix: sparse drivers crashed when a pattern was reused
 after a failed call

---
 ADOL-C/include/adolc/sparse/sparsedrivers.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ADOL-C/include/adolc/sparse/sparsedrivers.h b/ADOL-C/include/adolc/sparse/sparsedrivers.h
index 18a54cd..007b758 100644
--- a/ADOL-C/include/adolc/sparse/sparsedrivers.h
+++ b/ADOL-C/include/adolc/sparse/sparsedrivers.h
@@ -696,6 +696,8 @@ int buildJacPatternAndSeed(short tag, int depen, int indep,
 
   if (ret_val < 0) {
     printf(" ADOL-C error in sparse_jac() \n");
+    // the cached seed does not belong to this pattern
+    tape.sJInfos().Seed_ = nullptr;
     return ret_val;
   }
 
@@ -741,6 +743,8 @@ int buildJacPatternAndSeed(short tag, int depen, int indep, int numSwitches,
                                            basepoint, JPSpan);
   if (ret_val < 0) {
     printf(" ADOL-C error in sparse_jac() \n");
+    // the cached seed does not belong to this pattern
+    tape.sJInfos().Seed_ = nullptr;
     return ret_val;
   }
 
@@ -1243,6 +1247,9 @@ int buildHessPatternAndSeed(short tag, int indep, const double *basepoint,
 
   if (ret_val < 0) {
     printf(" ADOL-C error in sparse_hess() \n");
+    // the cached seed does not belong to this pattern
+    myfree2(tape.sHInfos().Upp_);
+    tape.sHInfos().Upp_ = nullptr;
     return ret_val;
   }
 
-- 
2.43.0


From 01a554ad4ea95f25912e8a538b6b0f45ad3f4bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:54 +0000
Subject: [PATCH 032/102] fix: fos_pl_sig_reverse lost all contributions
 through absolute values

---
 ADOL-C/src/fo_rev.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/src/fo_rev.cpp b/ADOL-C/src/fo_rev.cpp
index 816a823..0a4ceb9 100644
--- a/ADOL-C/src/fo_rev.cpp
+++ b/ADOL-C/src/fo_rev.cpp
@@ -1642,8 +1642,11 @@ int int_reverse_safe(
       switchnum--;
 
 #elif defined(_ABS_NORM_SIG_)
-      ARES_INC = 0.0;
-      AARG_INC += siggrad[switchnum] * (*Ares);
+      {
+        const revreal aTmp = *Ares;
+        ARES_INC = 0.0;
+        AARG_INC += siggrad[switchnum] * aTmp;
+      }
       switchnum--;
 #else
 #if !defined(_NTIGHT_)
-- 
2.43.0


From 97f39a4147ff65e507e1abdc9e93c136b1cf222b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:54 +0000
Subject: [PATCH 033/102] fix: signature driven forward modes did not advance
 to the next switch

---
 ADOL-C/src/uni5_for.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 53177a5..c109d74 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -3970,7 +3970,7 @@ int hov_forward(
 #if !defined(_NTIGHT_)
       dp_T0[res] = fabs(dp_T0[arg]);
 #endif /* !_NTIGHT_ */
-#if defined(_ABS_NORM_) || defined(_ABS_NORN_SIG_)
+#if defined(_ABS_NORM_) || defined(_ABS_NORM_SIG_)
       ++switchnum;
 #endif
       break;
-- 
2.43.0


From 3f29bc0aac5753342af30f17daa16306b3f79cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:54 +0000
Subject: [PATCH 034/102] fix: directional_active_gradient chose the piece by
 full steps and overran its directions

---
 ADOL-C/src/drivers/psdrivers.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/src/drivers/psdrivers.cpp b/ADOL-C/src/drivers/psdrivers.cpp
index 454f550..98fb867 100644
--- a/ADOL-C/src/drivers/psdrivers.cpp
+++ b/ADOL-C/src/drivers/psdrivers.cpp
@@ -127,8 +127,18 @@ int directional_active_gradient(short tag,       /* trace identifier */
   bool done = 0;
   int j = 0;
 
-  while ((k < 6) && (done == 0)) {
-    fov_pl_forward(tag, 1, n, k, x, E, &y, grad, z, gradu, sigma_g);
+  // The signs of the vanishing switching variables are those of their
+  // directional derivatives. (The increments of the piecewise linearization
+  // for a full step may lie beyond other kinks.)
+  zos_pl_forward(tag, 1, n, 0, x, &y, z);
+  std::vector<short> sigma_base(s);
+  for (size_t i = 0; i < s; i++)
+    sigma_base[i] = static_cast<short>((z[i] > 0.0) - (z[i] < 0.0));
+
+  // the direction and the other n - 1 unit vectors span all of R^n
+  while ((k <= n) && (done == 0)) {
+    fov_pl_sig_forward(tag, 1, n, k, x, E, static_cast<int>(s),
+                       sigma_base.data(), nullptr, &y, grad, z, gradu, sigma_g);
 
     size_t sum = 0;
     for (size_t i = 0; i < s; i++) {
@@ -144,7 +154,8 @@ int directional_active_gradient(short tag,       /* trace identifier */
     } else {
       if (j == max_dk)
         j++;
-      E[j][k] = 1;
+      if (j < n)
+        E[j][k] = 1;
       j++;
       k++;
     }
-- 
2.43.0


From ef7674d2d2abef301ce054e741cc83f8ed4eeecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:36 +0000
Subject: [PATCH 035/102] fix: traceless variables constructed without a value
 had arbitrary derivatives

---
 ADOL-C/include/adolc/adtl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/adtl.h b/ADOL-C/include/adolc/adtl.h
index 45ac5ed..3d3122f 100644
--- a/ADOL-C/include/adolc/adtl.h
+++ b/ADOL-C/include/adolc/adtl.h
@@ -285,7 +285,8 @@ inline adouble::adouble() : adval(NULL) {
 #else
   adval = new double[adouble::numDir + 1];
 #endif
-  PRIMAL_VALUE = 0.;
+  FOR_I_EQ_0_LTEQ_NUMDIR
+  ADVAL_I = 0.;
 }
 
 inline adouble::adouble(const double v) : adval(NULL) {
-- 
2.43.0


From 8cd84f52403e6c622aa28d247a92c0f715040172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:14 +0000
Subject: [PATCH 036/102] fix: traceless atan2 lost its derivative where the
 second argument is zero

---
 ADOL-C/include/adolc/adtl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl.h b/ADOL-C/include/adolc/adtl.h
index 3d3122f..2c3ae31 100644
--- a/ADOL-C/include/adolc/adtl.h
+++ b/ADOL-C/include/adolc/adtl.h
@@ -573,11 +573,11 @@ ADOLC_API inline adouble atan2(const adouble &a, const adouble &b) {
   tmp.PRIMAL_VALUE = ADOLC_MATH_NSP::atan2(a.PRIMAL_VALUE, b.PRIMAL_VALUE);
   double tmp2 = a.PRIMAL_VALUE * a.PRIMAL_VALUE;
   double tmp3 = b.PRIMAL_VALUE * b.PRIMAL_VALUE;
-  double tmp4 = tmp3 / (tmp2 + tmp3);
+  double tmp4 = tmp2 + tmp3;
   if (tmp4 != 0)
     FOR_I_EQ_1_LTEQ_NUMDIR
   tmp.ADVAL_I =
-      (a.ADVAL_I * b.PRIMAL_VALUE - a.PRIMAL_VALUE * b.ADVAL_I) / tmp3 * tmp4;
+      (a.ADVAL_I * b.PRIMAL_VALUE - a.PRIMAL_VALUE * b.ADVAL_I) / tmp4;
   else FOR_I_EQ_1_LTEQ_NUMDIR tmp.ADVAL_I = 0.0;
   return tmp;
 }
-- 
2.43.0


From 5913c57ffbe367b154fbe1bae35a4f098e4551b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:52 +0000
Subject: [PATCH 037/102] fix: traceless pow(x, 0) had derivative NaN at zero

---
 ADOL-C/include/adolc/adtl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/adtl.h b/ADOL-C/include/adolc/adtl.h
index 2c3ae31..5f3496d 100644
--- a/ADOL-C/include/adolc/adtl.h
+++ b/ADOL-C/include/adolc/adtl.h
@@ -585,7 +585,8 @@ ADOLC_API inline adouble atan2(const adouble &a, const adouble &b) {
 ADOLC_API inline adouble pow(const adouble &a, double v) {
   adouble tmp;
   tmp.PRIMAL_VALUE = ADOLC_MATH_NSP::pow(a.PRIMAL_VALUE, v);
-  double tmp2 = v * ADOLC_MATH_NSP::pow(a.PRIMAL_VALUE, v - 1);
+  double tmp2 =
+      (v == 0) ? 0.0 : v * ADOLC_MATH_NSP::pow(a.PRIMAL_VALUE, v - 1);
   FOR_I_EQ_1_LTEQ_NUMDIR
   tmp.ADVAL_I = tmp2 * a.ADVAL_I;
   return tmp;
-- 
2.43.0


From 37de2b70872ef7d3de5ddb4059ef9f626b8678bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:27 +0000
Subject: [PATCH 038/102] fix: traceless higher-order variables constructed
 without a value had arbitrary derivatives

---
 ADOL-C/include/adolc/adtl_hov.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 6f8757e..38dbc6d 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -381,8 +381,11 @@ inline double makeInf() {
 
 /*******************************  ctors  ************************************/
 inline adouble::adouble() : val(0), adval(NULL) {
-  if (do_adval())
+  if (do_adval()) {
     adval = new double[adouble::numDir];
+    FOR_I_EQ_0_LT_NUMDIR
+    ADVAL_I = 0.0;
+  }
 
   //     ho_deriv= new double[adouble::degree][ adouble::numDir];
   // double** ho_deriv= new double*[adouble::degree];
@@ -392,6 +395,8 @@ inline adouble::adouble() : val(0), adval(NULL) {
   //    << "  numDir: " << adouble::numDir << std::endl;
   {
     ho_deriv = myalloc2(adouble::degree, adouble::numDir);
+    FOR_J_EQ_0_LT_DEGREE_FOR_I_EQ_0_LT_NUMDIR
+    HO_DER_I_J = 0.0;
   }
   /*
       for(int i=0;i< adouble::degree;i++)
-- 
2.43.0


From bab8363eb346022d05e8e02982632b140cff3312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:02 +0000
Subject: [PATCH 039/102] fix: adding and subtracting constants aborted or
 threw for traceless higher-order variables

---
 ADOL-C/include/adolc/adtl_hov.h | 47 +++++++--------------------------
 1 file changed, 9 insertions(+), 38 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 38dbc6d..0750d2d 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -520,9 +520,9 @@ inline adouble adouble::operator+() const { return *this; }
 
 // addition
 inline adouble adouble::operator+(const double v) const {
-  adouble tmp(val + v, adval);
-  if (do_indo())
-    tmp.add_to_pattern(get_pattern());
+  adouble tmp(*this);
+  if (do_val())
+    tmp.val = val + v;
   return tmp;
 }
 
@@ -546,46 +546,17 @@ inline adouble adouble::operator+(const adouble &a) const {
 }
 
 inline adouble operator+(const double v, const adouble &a) {
-  if (do_hoval()) // ADTL_HOV  //how can this not be declared? it works fine in
-                  // the method above
-  {               // why was "a." necessary here and not after the next line?
-    std::cout << "Not implemented. " << std::endl;
-    throw std::exception();
-    // adouble tmp(v+a.val,a.ho_deriv); //TODO: does not exist yet
-  }
-  if (do_val() && do_indo()) {
-    adouble tmp(v + a.val, a.adval);
-    tmp.add_to_pattern(a.get_pattern());
-    return tmp;
-  }
-
-  adouble tmp;
-  if (do_indo()) {
-    tmp.add_to_pattern(a.get_pattern());
-  }
+  adouble tmp(a);
+  if (do_val())
+    tmp.val = v + a.val;
   return tmp;
 }
 
 // subtraction
 inline adouble adouble::operator-(const double v) const {
-  if (do_hoval()) // ADTL_HOV  //how can this not be declared? it works fine in
-                  // the method above
-  {               // why was "a." necessary here and not after the next line?
-    std::cout << "Not implemented. " << std::endl;
-    throw std::exception();
-    // adouble tmp(val-v, adval,ho_deriv); //TODO: does not exist yet
-  }
-  if (do_val() && do_indo()) {
-    adouble tmp(val - v, adval);
-    tmp.add_to_pattern(get_pattern());
-    return tmp;
-  }
-
-  // adouble tmp(val-v, adval); moved up
-  adouble tmp;
-  if (do_indo()) {
-    tmp.add_to_pattern(get_pattern());
-  }
+  adouble tmp(*this);
+  if (do_val())
+    tmp.val = val - v;
   return tmp;
 }
 
-- 
2.43.0


From a7c8c3dda34919f12f011baa9188f081abd23eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:38 +0000
Subject: [PATCH 040/102] fix: *= and /= of traceless higher-order variables
 computed wrong values and coefficients

---
 ADOL-C/include/adolc/adtl_hov.h | 72 +--------------------------------
 1 file changed, 2 insertions(+), 70 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 0750d2d..8777bd8 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -2158,42 +2158,7 @@ inline adouble &adouble::operator*=(const double v) {
 }
 
 inline adouble &adouble::operator*=(const adouble &a) {
-  if (unlikely(!adouble::_do_val() && adouble::_do_adval())) {
-    fprintf(DIAG_OUT, "ADOL-C error: Traceless: Incorrect mode, call "
-                      "setMode(enum Mode mode)\n");
-    throw logic_error("incorrect function call, errorcode=1");
-  }
-  if (likely(adouble::_do_adval() && adouble::_do_val()))
-    FOR_I_EQ_0_LT_NUMDIR
-  ADVAL_I = ADVAL_I * a.val + val * a.ADVAL_I;
-  if (do_val())
-    val *= a.val;
-
-  adouble tmp;
-  tmp.val = val * a.val;
-
-  if (do_hoval()) // ADTL_HOV
-  {
-    size_t i;
-    double sum;
-    for (size_t l = 0; l < adouble::numDir; l++) {
-      for (size_t k = 0; k < degree; k++) {
-        sum = val * a.ho_deriv[k][l] + ho_deriv[k][l] * a.val;
-        i = k - 1;
-        for (size_t j = 0; j < k; j++)
-          sum += ho_deriv[j][l] * a.ho_deriv[i - j][l];
-        tmp.ho_deriv[k][l] = sum;
-        sum = 0.0;
-      }
-      val = tmp.val;
-      for (size_t k = 0; k < degree; k++)
-        ho_deriv[k][l] = tmp.ho_deriv[k][l];
-    }
-  }
-
-  if (do_indo())
-    add_to_pattern(a.get_pattern());
-  return *this;
+  return *this = *this * a;
 }
 
 inline adouble &adouble::operator/=(const double v) {
@@ -2213,40 +2178,7 @@ inline adouble &adouble::operator/=(const double v) {
 }
 
 inline adouble &adouble::operator/=(const adouble &a) {
-  if (unlikely(!adouble::_do_val() && adouble::_do_adval())) {
-    fprintf(DIAG_OUT, "ADOL-C error: Traceless: Incorrect mode, call "
-                      "setMode(enum Mode mode)\n");
-    throw logic_error("incorrect function call, errorcode=1");
-  }
-  if (likely(adouble::_do_adval() && adouble::_do_val()))
-    FOR_I_EQ_0_LT_NUMDIR
-  ADVAL_I = (ADVAL_I * a.val - val * a.ADVAL_I) / (a.val * a.val);
-  if (do_val())
-    val = val / a.val;
-
-  if (do_hoval()) // ADTL_HOV
-  {
-    adouble tmp;
-    size_t i;
-    double sum;
-    for (size_t l = 0; l < adouble::numDir; l++) {
-      for (size_t k = 0; k < degree; k++) {
-        sum = tmp.val * a.ho_deriv[k][l];
-        i = k - 1;
-        for (size_t j = 0; j < k; j++)
-          sum += tmp.ho_deriv[j][l] * a.ho_deriv[i - j][l];
-        tmp.ho_deriv[k][l] = (1.0 / a.val) * (ho_deriv[k][l] - sum);
-        sum = 0.0;
-      }
-      val = tmp.val;
-      for (size_t k = 0; k < degree; k++)
-        ho_deriv[k][l] = tmp.ho_deriv[k][l];
-    }
-  }
-
-  if (do_indo())
-    add_to_pattern(a.get_pattern());
-  return *this;
+  return *this = *this / a;
 }
 
 // not
-- 
2.43.0


From 9cec2c049fac0366e48aa260d8b7515fee7c5622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:09 +0000
Subject: [PATCH 041/102] fix: cosh of traceless higher-order variables
 returned a*sinh(a)

---
 ADOL-C/include/adolc/adtl_hov.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 8777bd8..b3a5a3d 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -1379,9 +1379,9 @@ inline adouble cosh(const adouble &a) {
   if (do_val())
     tmp.val = ADOLC_MATH_NSP::cosh(a.val);
   if (likely(adouble::_do_adval() && adouble::_do_val())) {
-    tmp2 = ADOLC_MATH_NSP::sinh(a.val);
+    const double sinh_val = ADOLC_MATH_NSP::sinh(a.val);
     FOR_I_EQ_0_LT_NUMDIR
-    tmp = a * tmp2;
+    tmp.ADVAL_I = a.ADVAL_I * sinh_val;
   }
 
   if (do_hoval()) // ADTL_HOV
-- 
2.43.0


From d54e81bd2321fcb918a1357dfb8793ece018a023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:02 +0000
Subject: [PATCH 042/102] fix: setOneADValue kept the caller's array instead of
 its coefficients

---
 ADOL-C/include/adolc/adtl_hov.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index b3a5a3d..bf66b69 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -2452,7 +2452,10 @@ inline double *adouble::getOneADValue(int i) const {
   return ho_deriv[i];
 }
 
-inline void adouble::setOneADValue(int i, double *v) { ho_deriv[i] = v; }
+inline void adouble::setOneADValue(int i, double *v) {
+  FOR_I_EQ_0_LT_NUMDIR
+  ho_deriv[i][_i] = V_I;
+}
 
 inline const list<unsigned int> &adouble::get_pattern() const {
   if (no_do_indo()) {
-- 
2.43.0


From b1b75b8841e0242ebe426adb21871968f94729b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:05 +0000
Subject: [PATCH 043/102] fix: coefficients of pow(x, v) were arbitrary at x =
 0 for traceless higher-order variables

---
 ADOL-C/include/adolc/adtl_hov.h | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index bf66b69..03ef6ca 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -1179,28 +1179,27 @@ inline adouble pow(const adouble &a, double v) {
   if (do_val())
     tmp.val = ADOLC_MATH_NSP::pow(a.val, v);
   if (likely(adouble::_do_adval() && adouble::_do_val())) {
-    double tmp2 = v * ADOLC_MATH_NSP::pow(a.val, v - 1);
+    double tmp2 = (v == 0) ? 0.0 : v * ADOLC_MATH_NSP::pow(a.val, v - 1);
     FOR_I_EQ_0_LT_NUMDIR
     tmp.ADVAL_I = tmp2 * a.ADVAL_I;
   }
   if (do_hoval()) // ADTL_HOV
   {
     if (a.val == 0.0) {
-      // idea: if v==adouble::degree  (as in: the power of a is equal to order
-      // of derivatives to be calculated)
-      //         then the derivative is a factorial of adouble::degree
-      //         tgamma(adouble::degree+1)
-      //  this is different than in GW08. The formula in the table gives a nan
-      //  for input zero.
-      double factorial_val = tgamma(v + 1.0);
-      for (size_t k = 0; k < adouble::degree; k++)
-        for (size_t l = 0; l < adouble::numDir; l++) {
-          tmp.ho_deriv[k][l] =
-              (1.0 / to_double(k + 1)) *
-              factorial_val; // division with k+1 (offset because of zero index
-                             // [0] ) because of distinction between tilde{u_k}
-                             // and u_k
-        }
+      // the recurrence divides by a: natural powers are products, others only
+      // have coefficients up to their exponent
+      if (v >= 0 && v == ADOLC_MATH_NSP::floor(v)) {
+        const double n =
+            ADOLC_MATH_NSP::fmin(v, to_double(adouble::degree + 1));
+        adouble prod(1.0);
+        for (double j = 0; j < n; j++)
+          prod = prod * a;
+        FOR_J_EQ_0_LT_DEGREE_FOR_I_EQ_0_LT_NUMDIR
+        tmp.HO_DER_I_J = prod.HO_DER_I_J;
+      } else {
+        FOR_J_EQ_0_LT_DEGREE_FOR_I_EQ_0_LT_NUMDIR
+        tmp.HO_DER_I_J = (to_double(_j + 1) < v) ? 0.0 : makeNaN();
+      }
     } else {
       size_t i;
       double sum1 = 0.0, sum2 = 0.0;
-- 
2.43.0


From e4e3ad56b88a9fb4c2190397f50f7980131029c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:39 +0000
Subject: [PATCH 044/102] fix: fabs of traceless higher-order variables
 returned uninitialised coefficients

---
 ADOL-C/include/adolc/adtl_hov.h | 51 +++++----------------------------
 1 file changed, 7 insertions(+), 44 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 03ef6ca..5ebd4ad 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -1550,51 +1550,14 @@ inline adouble fabs(const adouble &a) {
   }
   if (do_hoval()) // ADTL_HOV
   {
-    // find leading Taylor coefficient
-
-    // TODO: do not forget to check the function value. it is the zero-th taylor
-    // coefficient
-
-    int *leading_sgn = (int *)alloca(sizeof(int) * adouble::degree);
-    for (size_t l = 0; l < adouble::numDir; l++) // Init
-    {
-      leading_sgn[l] = 1;
-    }
-    bool found;
-
     for (size_t l = 0; l < adouble::numDir; l++) {
-      for (size_t k = 0; k < adouble::degree; k++) {
-        if (tmp.ho_deriv[k][l] > 0 && (!found)) {
-          leading_sgn[l] = 1;
-          found = true;
-          break;
-          // found leading coefficient for this direction. it is positive.
-          //  no need to do any further for this direction
-        }
-        if (tmp.ho_deriv[k][l] < 0 && (!found)) {
-          // found leading coefficient for this direction. it is negative.
-          found = true;
-          leading_sgn[l] = -1;
-          break;
-        }
-        /*
-        if(tmp.ho_deriv[k][l]=0 && (!found))
-        {
-                //not the leading Taylor coefficient
-                //continue searching
-        }
-        */
-      }
-      found = false;
-    }
-
-    // assume we found all leading Taylor coefficients
-
-    for (size_t l = 0; l < adouble::numDir; l++) {
-      for (size_t k = 0; k < adouble::degree; k++) {
-        tmp.ho_deriv[k][l] *= leading_sgn[l];
-        // TODO do not forget zero-th Taylor coefficient
-      }
+      // the sign of the leading nonzero Taylor coefficient decides
+      double leading = a.val;
+      for (size_t k = 0; k < adouble::degree && leading == 0.0; k++)
+        leading = a.ho_deriv[k][l];
+      const double sgn = (leading < 0) ? -1.0 : 1.0;
+      for (size_t k = 0; k < adouble::degree; k++)
+        tmp.ho_deriv[k][l] = sgn * a.ho_deriv[k][l];
     }
   }
   if (do_indo())
-- 
2.43.0


From 2776466793c41aaee751a32ca63d58fdc73430e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:12 +0000
Subject: [PATCH 045/102] fix: erf and erfc of traceless higher-order variables
 left their coefficients unset

---
 ADOL-C/include/adolc/adtl_hov.h | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 5ebd4ad..befaf7c 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -1936,6 +1936,20 @@ inline adouble erf(const adouble &a) {
     FOR_I_EQ_0_LT_NUMDIR
     tmp.ADVAL_I = tmp2 * a.ADVAL_I;
   }
+  if (do_hoval()) // ADTL_HOV
+  {
+    const adouble der =
+        2.0 / ADOLC_MATH_NSP_ERF::sqrt(ADOLC_MATH_NSP::acos(-1.0)) *
+        exp(-(a * a));
+    FOR_I_EQ_0_LT_NUMDIR
+    for (size_t k = 0; k < adouble::degree; k++) {
+      double sum = der.val * to_double(k + 1) * a.ho_deriv[k][_i];
+      for (size_t j = 0; j < k; j++)
+        sum +=
+            der.ho_deriv[k - 1 - j][_i] * to_double(j + 1) * a.ho_deriv[j][_i];
+      tmp.ho_deriv[k][_i] = sum / to_double(k + 1);
+    }
+  }
   if (do_indo())
     tmp.add_to_pattern(a.get_pattern());
   return tmp;
@@ -1956,6 +1970,20 @@ inline adouble erfc(const adouble &a) {
     FOR_I_EQ_0_LT_NUMDIR
     tmp.ADVAL_I = tmp2 * a.ADVAL_I;
   }
+  if (do_hoval()) // ADTL_HOV
+  {
+    const adouble der =
+        -2.0 / ADOLC_MATH_NSP_ERF::sqrt(ADOLC_MATH_NSP::acos(-1.0)) *
+        exp(-(a * a));
+    FOR_I_EQ_0_LT_NUMDIR
+    for (size_t k = 0; k < adouble::degree; k++) {
+      double sum = der.val * to_double(k + 1) * a.ho_deriv[k][_i];
+      for (size_t j = 0; j < k; j++)
+        sum +=
+            der.ho_deriv[k - 1 - j][_i] * to_double(j + 1) * a.ho_deriv[j][_i];
+      tmp.ho_deriv[k][_i] = sum / to_double(k + 1);
+    }
+  }
   if (do_indo())
     tmp.add_to_pattern(a.get_pattern());
   return tmp;
-- 
2.43.0


From df66ac8e16981eea7808b66098cc4ea5608a7c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:46 +0000
Subject: [PATCH 046/102] fix: cos of traceless higher-order variables returned
 -sin

---
 ADOL-C/include/adolc/adtl_hov.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index befaf7c..5889a85 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -1046,7 +1046,7 @@ inline adouble cos(const adouble &a) {
 
   if (do_indo())
     tmp.add_to_pattern(a.get_pattern());
-  return tmp2;
+  return tmp;
 }
 
 inline adouble asin(const adouble &a) {
-- 
2.43.0


From c203744450fbbdc5baf81f3db8d69ffc9267220e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:47 +0000
Subject: [PATCH 047/102] fix: self-assignment of traceless index-domain
 variables cleared their dependencies

---
 ADOL-C/include/adolc/adtl_hov.h  | 2 ++
 ADOL-C/include/adolc/adtl_indo.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 5889a85..450297d 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -2065,6 +2065,8 @@ inline adouble &adouble::operator=(const double v) {
 }
 
 inline adouble &adouble::operator=(const adouble &a) {
+  if (this == &a)
+    return *this;
   if (do_val())
     val = a.val;
   if (do_adval())
diff --git a/ADOL-C/include/adolc/adtl_indo.h b/ADOL-C/include/adolc/adtl_indo.h
index 14c8699..c48618a 100644
--- a/ADOL-C/include/adolc/adtl_indo.h
+++ b/ADOL-C/include/adolc/adtl_indo.h
@@ -725,6 +725,8 @@ inline adouble &adouble::operator=(const double v) {
 }
 
 inline adouble &adouble::operator=(const adouble &a) {
+  if (this == &a)
+    return *this;
   val = a.val;
   if (!pattern.empty())
     pattern.clear();
-- 
2.43.0


From 0a971e450687851dd1e5b92c3cceff5ee3fe9cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:28 +0000
Subject: [PATCH 048/102] fix: in-place asin, acos, acosh and atanh compared
 the result with the domain boundary

---
 ADOL-C/src/uni5_for.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index c109d74..7941804 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -2725,6 +2725,7 @@ int hov_forward(
       IF_KEEP_WRITE_TAYLOR(res, keep, k, p)
 
 #if !defined(_NTIGHT_)
+      coval = dp_T0[arg1]; /* result and argument may share a location */
       dp_T0[res] = asin(dp_T0[arg1]);
 #endif /* !_NTIGHT_ */
 
@@ -2752,7 +2753,7 @@ int hov_forward(
 #else
       ASSIGN_T(Targ2, TAYLOR_BUFFER[arg2])
 
-      if (dp_T0[arg1] == 1.0)
+      if (coval == 1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_nan();
@@ -2771,7 +2772,7 @@ int hov_forward(
           TRES = r0;
           VEC_INC(Tres, k)
         }
-      else if (dp_T0[arg1] == -1.0)
+      else if (coval == -1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_inf();
@@ -2825,6 +2826,7 @@ int hov_forward(
       IF_KEEP_WRITE_TAYLOR(res, keep, k, p)
 
 #if !defined(_NTIGHT_)
+      coval = dp_T0[arg1]; /* result and argument may share a location */
       dp_T0[res] = acos(dp_T0[arg1]);
 #endif /* !_NTIGHT_ */
 
@@ -2852,7 +2854,7 @@ int hov_forward(
 #else
       ASSIGN_T(Targ2, TAYLOR_BUFFER[arg2])
 
-      if (dp_T0[arg1] == 1.0)
+      if (coval == 1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_nan();
@@ -2871,7 +2873,7 @@ int hov_forward(
           TRES = r0;
           VEC_INC(Tres, k)
         }
-      else if (dp_T0[arg1] == -1.0)
+      else if (coval == -1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = -tape.make_inf();
@@ -2986,6 +2988,7 @@ int hov_forward(
       IF_KEEP_WRITE_TAYLOR(res, keep, k, p)
 
 #if !defined(_NTIGHT_)
+      coval = dp_T0[arg1]; /* result and argument may share a location */
       dp_T0[res] = acosh(dp_T0[arg1]);
 #endif /* !_NTIGHT_ */
 
@@ -3013,7 +3016,7 @@ int hov_forward(
 #else
       ASSIGN_T(Targ2, TAYLOR_BUFFER[arg2])
 
-      if (dp_T0[arg1] == 1.0)
+      if (coval == 1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_inf();
@@ -3071,6 +3074,7 @@ int hov_forward(
       IF_KEEP_WRITE_TAYLOR(res, keep, k, p)
 
 #if !defined(_NTIGHT_)
+      coval = dp_T0[arg1]; /* result and argument may share a location */
       dp_T0[res] = atanh(dp_T0[arg1]);
 #endif /* !_NTIGHT_ */
 
@@ -3098,7 +3102,7 @@ int hov_forward(
 #else
       ASSIGN_T(Targ2, TAYLOR_BUFFER[arg2])
 
-      if (dp_T0[arg1] == 1.0)
+      if (coval == 1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_nan();
@@ -3120,7 +3124,7 @@ int hov_forward(
             *Tres++ = tape.make_nan();
 #endif /* _HIGHER_ORDER_ */
         }
-      else if (dp_T0[arg1] == -1.0)
+      else if (coval == -1.0)
         FOR_0_LE_l_LT_p {
           FOR_0_LE_i_LT_k if (TARG1 > 0.0) {
             r0 = tape.make_inf();
-- 
2.43.0


From 8b25f1cc4ef27ad5aff76bf2b166c361f3cfd7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:57 +0000
Subject: [PATCH 049/102] fix: active subscripts and copies of advectors whose
 elements were move-assigned used wrong locations

---
 ADOL-C/include/adolc/advector.h | 13 ++++++++++++-
 ADOL-C/src/advector.cpp         | 14 ++++++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/advector.h b/ADOL-C/include/adolc/advector.h
index e7f4044..611d617 100644
--- a/ADOL-C/include/adolc/advector.h
+++ b/ADOL-C/include/adolc/advector.h
@@ -114,6 +114,14 @@ void ADOLC_API condeqassign(adubref &res, const adouble &cond,
 class ADOLC_API advector {
   std::vector<adouble> data_;
 
+  // an element that was move-assigned has taken over another location
+  bool hasLocationGap() const {
+    for (size_t i = 1; i < data_.size(); ++i)
+      if (data_[i].loc() != data_[0].loc() + i)
+        return true;
+    return false;
+  }
+
 public:
   advector() = default;
   explicit advector(size_t n)
@@ -121,7 +129,10 @@ public:
 
   advector(const advector &ad_vec)
       : data_(currentTape().ensureContiguousLocations_(ad_vec.size())) {
-    adolc_vec_copy(data_.data(), ad_vec.data_.data(), ad_vec.size());
+    if (ad_vec.hasLocationGap())
+      data_ = ad_vec.data_;
+    else
+      adolc_vec_copy(data_.data(), ad_vec.data_.data(), ad_vec.size());
   }
 
   // given adouble vector might not have contiguous locations
diff --git a/ADOL-C/src/advector.cpp b/ADOL-C/src/advector.cpp
index 10975cb..d46104c 100644
--- a/ADOL-C/src/advector.cpp
+++ b/ADOL-C/src/advector.cpp
@@ -21,6 +21,7 @@
 #include <adolc/tape_interface.h>
 #include <cmath>
 #include <limits>
+#include <utility>
 
 adubref::adubref(size_t lo, size_t ref) {
   ValueTape &tape = currentTape();
@@ -444,6 +445,12 @@ bool advector::nondecreasing() const {
 }
 
 adouble advector::operator[](const adouble &index) const {
+  // the trace addresses the elements by their offset from the first one
+  if (hasLocationGap()) {
+    const advector contiguous(*this);
+    return contiguous[index];
+  }
+
   ValueTape &tape = currentTape();
   const size_t idx = (size_t)trunc(fabs(index.value()));
   adouble ret_adouble;
@@ -470,6 +477,13 @@ adouble advector::operator[](const adouble &index) const {
 }
 
 adubref advector::operator[](const adouble &index) {
+  // the trace addresses the elements by their offset from the first one
+  if (hasLocationGap()) {
+    advector contiguous(*this);
+    for (size_t i = 0; i < size(); ++i)
+      data_[i] = std::move(contiguous.data_[i]);
+  }
+
   ValueTape &tape = currentTape();
   const size_t idx = (size_t)trunc(fabs(index.value()));
   size_t locat = tape.next_loc();
-- 
2.43.0


From 7dda182582efa08d026ac2abaf4b5f7f395d878f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 050/102] fix: frexp of a temporary changed its value without
 recording it

---
 ADOL-C/include/adolc/adtb_types.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ADOL-C/include/adolc/adtb_types.h b/ADOL-C/include/adolc/adtb_types.h
index 6459cbc..63b0dd5 100644
--- a/ADOL-C/include/adolc/adtb_types.h
+++ b/ADOL-C/include/adolc/adtb_types.h
@@ -1026,8 +1026,7 @@ ADOLC_API inline adouble frexp(const adouble &a, int *exp) {
 }
 ADOLC_API inline adouble frexp(adouble &&a, int *exp) {
   const double coval = std::frexp(a.value(), exp);
-  a.value(coval);
-  return a;
+  return adouble(coval);
 }
 
 /*---------------------------------------------------------------*/
-- 
2.43.0


From f1d34f37160f414a56625dfd7df7d2de08e07534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:11 +0000
Subject: [PATCH 051/102] fix: sweeps over a trace written to disk by
 trace_off(1) crashed when it had no values

---
 ADOL-C/src/valuetape/valuetape.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index ede9eb7..415cc1d 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -407,10 +407,9 @@ void ValueTape::close_tape(int flag) {
 
   /* finish constants tape, close it, update stats */
   if (flag != 0 || tapeInfos_.valBuffer_.file() != nullptr) {
-    if (tapeInfos_.valBuffer_.position() != 0) {
-      tapeInfos_.put_block<ValInfo<TapeInfos, ErrorType>>(
-          perTapeInfos_.val_fileName, tapeInfos_.valBuffer_.position());
-    }
+    // also without any value left: the sweeps expect the file to exist
+    tapeInfos_.put_block<ValInfo<TapeInfos, ErrorType>>(
+        perTapeInfos_.val_fileName, tapeInfos_.valBuffer_.position());
     tapestats(TapeInfos::VAL_FILE_ACCESS, 1);
     tapeInfos_.valBuffer_.closeFile();
     delete[] tapeInfos_.valBuffer_.releaseBuffer();
-- 
2.43.0


From b3f46e336388f6eb9fe77d1d929918506e20e04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:30 +0000
Subject: [PATCH 052/102] fix: vector operations and external functions
 accepted arrays with gaps between their inner elements

---
 ADOL-C/src/adouble.cpp     | 18 +++++++++++-------
 ADOL-C/src/externfcts.cpp  | 23 ++++++++++++++++-------
 ADOL-C/src/externfcts2.cpp | 19 +++++++++++++------
 3 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/ADOL-C/src/adouble.cpp b/ADOL-C/src/adouble.cpp
index 810f25c..a73d5ec 100644
--- a/ADOL-C/src/adouble.cpp
+++ b/ADOL-C/src/adouble.cpp
@@ -5557,11 +5557,17 @@ void condeqassign(adouble &res, const adouble &cond, const adouble &arg) {
 #endif
 }
 
+static bool hasLocationGap(const adouble *const vec, size_t size) {
+  for (size_t i = 1; i < size; ++i)
+    if (vec[i].loc() != vec[0].loc() + i)
+      return true;
+  return false;
+}
+
 void adolc_vec_copy(adouble *const dest, const adouble *const src,
                     size_t size) {
   ValueTape &tape = currentTape();
-  if (dest[size - 1].loc() - dest[0].loc() != size - 1 ||
-      src[size - 1].loc() - src[0].loc() != size - 1)
+  if (hasLocationGap(dest, size) || hasLocationGap(src, size))
     ADOLCError::fail(ADOLCError::ErrorType::VEC_LOCATIONGAP, CURRENT_LOCATION);
   if (tape.workMode() == TapeInfos::WRITE_ACCESS) {
     tape.put_op(vec_copy);
@@ -5584,8 +5590,7 @@ void adolc_vec_copy(adouble *const dest, const adouble *const src,
 adouble adolc_vec_dot(const adouble *const vec_a, const adouble *const vec_b,
                       size_t size) {
   ValueTape &tape = currentTape();
-  if (vec_a[size - 1].loc() - vec_a[0].loc() != size - 1 ||
-      vec_b[size - 1].loc() - vec_b[0].loc() != size - 1)
+  if (hasLocationGap(vec_a, size) || hasLocationGap(vec_b, size))
     ADOLCError::fail(ADOLCError::ErrorType::VEC_LOCATIONGAP, CURRENT_LOCATION);
 
   adouble ret_adouble;
@@ -5620,9 +5625,8 @@ void adolc_vec_axpy(adouble *const res, const adouble &a,
                     const adouble *const vec_a, const adouble *const vec_b,
                     size_t size) {
   ValueTape &tape = currentTape();
-  if (res[size - 1].loc() - res[0].loc() != size - 1 ||
-      vec_a[size - 1].loc() - vec_a[0].loc() != size - 1 ||
-      vec_b[size - 1].loc() - vec_b[0].loc() != size - 1)
+  if (hasLocationGap(res, size) || hasLocationGap(vec_a, size) ||
+      hasLocationGap(vec_b, size))
     ADOLCError::fail(ADOLCError::ErrorType::VEC_LOCATIONGAP, CURRENT_LOCATION);
   if (tape.workMode() == TapeInfos::WRITE_ACCESS) {
 
diff --git a/ADOL-C/src/externfcts.cpp b/ADOL-C/src/externfcts.cpp
index abc2e96..43c1a83 100644
--- a/ADOL-C/src/externfcts.cpp
+++ b/ADOL-C/src/externfcts.cpp
@@ -47,21 +47,24 @@ ext_diff_fct *reg_ext_fct(short tapeId, short extTapeId,
   return edf;
 }
 
+static bool hasLocationGap(const adouble *a, int n) {
+  for (int i = 1; i < n; ++i)
+    if (a[i].loc() != a[0].loc() + to_size_t(i))
+      return true;
+  return false;
+}
+
 void check_input(ext_diff_fct *edfct, int n, adouble *xa, int m, adouble *ya) {
-  if (xa[n - 1].loc() - xa[0].loc() != to_size_t(n - 1) ||
-      ya[m - 1].loc() - ya[0].loc() != to_size_t(m - 1))
-    ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_LOCATIONGAP,
-                     CURRENT_LOCATION);
   if (!edfct)
     ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_NULLPOINTER_STRUCT,
                      CURRENT_LOCATION);
+  if (hasLocationGap(xa, n) || hasLocationGap(ya, m))
+    ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_LOCATIONGAP,
+                     CURRENT_LOCATION);
 }
 
 void call_ext_fct_commonPrior(ext_diff_fct *edfct, int n, adouble *xa, int m,
                               adouble *ya, std::vector<double> &vals) {
-
-  check_input(edfct, n, xa, m, ya);
-
   ValueTape &tape = findTape(edfct->tapeId);
 
   tape.put_loc(edfct->index);
@@ -126,6 +129,9 @@ int call_ext_fct(ext_diff_fct *edfct, int n, adouble *xa, int m, adouble *ya) {
   assert(n >= 0);
   assert(m >= 0);
 
+  // nothing may be recorded for a refused call
+  check_input(edfct, n, xa, m, ya);
+
   ValueTape &tape = findTape(edfct->tapeId);
 
   tape.put_op(ext_diff);
@@ -158,6 +164,9 @@ int call_ext_fct(ext_diff_fct *edfct, size_t iArrLength, size_t *iArr, int n,
   assert(n >= 0);
   assert(m >= 0);
 
+  // nothing may be recorded for a refused call
+  check_input(edfct, n, xa, m, ya);
+
   ValueTape &tape = findTape(edfct->tapeId);
   tape.put_op(ext_diff_iArr, iArrLength + 2);
   tape.put_loc(iArrLength);
diff --git a/ADOL-C/src/externfcts2.cpp b/ADOL-C/src/externfcts2.cpp
index 4e7f5df..e810ce3 100644
--- a/ADOL-C/src/externfcts2.cpp
+++ b/ADOL-C/src/externfcts2.cpp
@@ -80,12 +80,25 @@ static void update_ext_fct_memory(ext_diff_fct_v2 *edfct, size_t nin,
   edfct->max_outsz = (edfct->max_outsz < m_osz) ? m_osz : edfct->max_outsz;
 }
 
+static void check_locations(const adouble *a, size_t n) {
+  for (size_t i = 1; i < n; i++)
+    if (a[i].loc() != a[0].loc() + i)
+      ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_LOCATIONGAP,
+                       CURRENT_LOCATION);
+}
+
 int call_ext_fct(ext_diff_fct_v2 *edfct, size_t iArrLen, size_t *iArr,
                  size_t nin, size_t nout, size_t *insz, adouble **x,
                  size_t *outsz, adouble **y) {
   int ret;
   std::vector<double> vals;
 
+  // nothing may be recorded for a refused call
+  for (size_t i = 0; i < nin; i++)
+    check_locations(x[i], insz[i]);
+  for (size_t i = 0; i < nout; i++)
+    check_locations(y[i], outsz[i]);
+
   ValueTape &tape = findTape(edfct->tapeId);
 
   tape.put_op(ext_diff_v2, 2 * (nin + nout) + iArrLen);
@@ -97,16 +110,10 @@ int call_ext_fct(ext_diff_fct_v2 *edfct, size_t iArrLen, size_t *iArr,
   tape.put_loc(nin);
   tape.put_loc(nout);
   for (size_t i = 0; i < nin; i++) {
-    if (x[i][insz[i] - 1].loc() - x[i][0].loc() != (unsigned)insz[i] - 1)
-      ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_LOCATIONGAP,
-                       CURRENT_LOCATION);
     tape.put_loc(insz[i]);
     tape.put_loc(x[i][0].loc());
   }
   for (size_t i = 0; i < nout; i++) {
-    if (y[i][outsz[i] - 1].loc() - y[i][0].loc() != (unsigned)outsz[i] - 1)
-      ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_LOCATIONGAP,
-                       CURRENT_LOCATION);
     tape.put_loc(outsz[i]);
     tape.put_loc(y[i][0].loc());
   }
-- 
2.43.0


From 4ccbfc29590f15b1899f61b0cad4aa2c5ba3e695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:40 +0000
Subject: [PATCH 053/102] fix: vec_jac with repeat always reported failure

---
 ADOL-C/src/drivers/drivers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/drivers/drivers.cpp b/ADOL-C/src/drivers/drivers.cpp
index af6178e..ddbdd5f 100644
--- a/ADOL-C/src/drivers/drivers.cpp
+++ b/ADOL-C/src/drivers/drivers.cpp
@@ -54,7 +54,7 @@ int gradient(short tag, int n, const double *argument, double *result) {
 /* vec_jac(tag, m, n, repeat, x[n], u[m], v[n])                             */
 int vec_jac(short tag, int m, int n, int repeat, const double *argument,
             const double *lagrange, double *row) {
-  int rc = -1;
+  int rc = 3;
   double *y = NULL;
 
   if (!repeat) {
-- 
2.43.0


From e564ec38f71f26a5847ab4e08264aec90b128061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:00 +0000
Subject: [PATCH 054/102] fix: large_jacobian wrote outside its arrays when the
 number of runs does not fit the number of independents

---
 ADOL-C/src/drivers/drivers.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/ADOL-C/src/drivers/drivers.cpp b/ADOL-C/src/drivers/drivers.cpp
index ddbdd5f..d52e547 100644
--- a/ADOL-C/src/drivers/drivers.cpp
+++ b/ADOL-C/src/drivers/drivers.cpp
@@ -104,7 +104,7 @@ int jacobian(short tag, int depen, int indep, const double *argument,
 
 int large_jacobian(short tag, int depen, int indep, int runns, double *argument,
                    double *result, double **jacobian) {
-  int rc, dirs, i;
+  int rc = 3, dirs, offset = 0;
   double **I;
 
   I = myallocI2(indep);
@@ -115,13 +115,14 @@ int large_jacobian(short tag, int depen, int indep, int runns, double *argument,
   dirs = indep / runns;
   if (indep % runns)
     ++dirs;
-  for (i = 0; i < runns - 1; ++i) {
-    rc = fov_offset_forward(tag, depen, indep, dirs, i * dirs, argument, I,
-                            result, jacobian);
-  }
-  dirs = indep - (runns - 1) * dirs;
-  rc = fov_offset_forward(tag, depen, indep, dirs, indep - dirs, argument, I,
-                          result, jacobian);
+  do {
+    // with this block size, fewer runs may suffice
+    if (dirs > indep - offset)
+      dirs = indep - offset;
+    MINDEC(rc, fov_offset_forward(tag, depen, indep, dirs, offset, argument, I,
+                                  result, jacobian));
+    offset += dirs;
+  } while (rc >= 0 && offset < indep);
   myfreeI2(indep, I);
   return rc;
 }
-- 
2.43.0


From e4a15b65a56748032b18f321aae4f22f0a408ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:08 +0000
Subject: [PATCH 055/102] fix: hess_mat and hessian2 crashed at points where
 the recorded branches are left

---
 ADOL-C/src/drivers/drivers.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/ADOL-C/src/drivers/drivers.cpp b/ADOL-C/src/drivers/drivers.cpp
index d52e547..dfb37db 100644
--- a/ADOL-C/src/drivers/drivers.cpp
+++ b/ADOL-C/src/drivers/drivers.cpp
@@ -178,11 +178,13 @@ int hess_mat(short tag, int n, int q, const double *argument,
   Upp[0][1] = 0;
 
   rc = hov_wk_forward(tag, 1, n, 1, 2, q, argument, Xppp, &y, Yppp);
-  MINDEC(rc, hos_ov_reverse(tag, 1, n, 1, q, Upp, Zppp));
+  if (rc >= 0) {
+    MINDEC(rc, hos_ov_reverse(tag, 1, n, 1, q, Upp, Zppp));
 
-  for (i = 0; i < q; ++i)
-    for (j = 0; j < n; ++j)
-      result[j][i] = Zppp[i][j][1];
+    for (i = 0; i < q; ++i)
+      for (j = 0; j < n; ++j)
+        result[j][i] = Zppp[i][j][1];
+  }
 
   myfree2(Upp);
   myfree3(Zppp);
@@ -246,11 +248,13 @@ int hessian2(short tag, int n, double *argument, double **hess) {
   Upp[0][1] = 0;
 
   rc = hov_wk_forward(tag, 1, n, 1, 2, n, argument, Xppp, y, Yppp);
-  MINDEC(rc, hos_ov_reverse(tag, 1, n, 1, n, Upp, Zppp));
+  if (rc >= 0) {
+    MINDEC(rc, hos_ov_reverse(tag, 1, n, 1, n, Upp, Zppp));
 
-  for (i = 0; i < n; i++)
-    for (j = 0; j <= i; j++)
-      hess[i][j] = Zppp[i][j][1];
+    for (i = 0; i < n; i++)
+      for (j = 0; j <= i; j++)
+        hess[i][j] = Zppp[i][j][1];
+  }
 
   myfree2(Upp);
   myfree3(Zppp);
-- 
2.43.0


From b35a4a3c57bbe4011cc8d493e8f5c3b7177e4870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:08 +0000
Subject: [PATCH 056/102] fix: convenience drivers leaked at points where the
 recorded branches are left

---
 ADOL-C/src/drivers/drivers.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ADOL-C/src/drivers/drivers.cpp b/ADOL-C/src/drivers/drivers.cpp
index dfb37db..146d983 100644
--- a/ADOL-C/src/drivers/drivers.cpp
+++ b/ADOL-C/src/drivers/drivers.cpp
@@ -60,8 +60,10 @@ int vec_jac(short tag, int m, int n, int repeat, const double *argument,
   if (!repeat) {
     y = myalloc1(m);
     rc = zos_forward(tag, m, n, 1, argument, y);
-    if (rc < 0)
+    if (rc < 0) {
+      myfree1(y);
       return rc;
+    }
   }
   MINDEC(rc, fos_reverse(tag, m, n, lagrange, row));
   if (!repeat)
@@ -87,9 +89,8 @@ int jacobian(short tag, int depen, int indep, const double *argument,
   } else {
     I = myallocI2(depen);
     rc = zos_forward(tag, depen, indep, 1, argument, result);
-    if (rc < 0)
-      return rc;
-    MINDEC(rc, fov_reverse(tag, depen, indep, depen, I, jacobian));
+    if (rc >= 0)
+      MINDEC(rc, fov_reverse(tag, depen, indep, depen, I, jacobian));
     myfreeI2(depen, I);
   }
 
@@ -283,13 +284,12 @@ int lagra_hess_vec(short tag, int m, int n, const double *argument,
 
   rc = fos_forward(tag, m, n, keep, argument, tangent, y, y_tangent);
 
-  if (rc < 0)
-    return rc;
-
-  MINDEC(rc, hos_reverse(tag, m, n, degree, lagrange, X));
+  if (rc >= 0) {
+    MINDEC(rc, hos_reverse(tag, m, n, degree, lagrange, X));
 
-  for (i = 0; i < n; ++i)
-    result[i] = X[i][1];
+    for (i = 0; i < n; ++i)
+      result[i] = X[i][1];
+  }
 
   myfree1(y_tangent);
   myfree1(y);
-- 
2.43.0


From c110be021632c5fc7721183991b38f4828405e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:36 +0000
Subject: [PATCH 057/102] fix: hessian_ overwrote the upper half of the matrix
 it documents as unchanged

---
 ADOL-C/src/drivers/driversf.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ADOL-C/src/drivers/driversf.cpp b/ADOL-C/src/drivers/driversf.cpp
index 6989dd9..ce89556 100644
--- a/ADOL-C/src/drivers/driversf.cpp
+++ b/ADOL-C/src/drivers/driversf.cpp
@@ -155,6 +155,7 @@ fint hessian_(fint *ftag, fint *fn, fdouble *fx,
   double **H = myalloc2(n, n);
   double *x = myalloc1(n);
   spread1(n, fx, x);
+  spread2(n, n, fh, H); /* keep the upper half */
   rc = hessian(tag, n, x, H);
   pack2(n, n, H, fh);
   myfree2(H);
-- 
2.43.0


From 4a613ac9cfa2549724cafbac2356af78f2ffca0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:23 +0000
Subject: [PATCH 058/102] fix: tensor_address was wrong for unsorted
 multi-indices and tensor_value destroyed its multi-index

---
 ADOL-C/src/drivers/taylor.cpp | 58 +++++------------------------------
 1 file changed, 7 insertions(+), 51 deletions(-)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index 55fad19..41bc470 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -18,7 +18,9 @@
 #include <adolc/tape_interface.h>
 #include <adolc/valuetape/valuetape.h>
 
+#include <algorithm>
 #include <math.h>
+#include <vector>
 
 BEGIN_C_DECLS
 
@@ -275,37 +277,13 @@ void convert(int p, int d, int *im, int *multi) {
 
 /*--------------------------------------------------------------------------*/
 size_t tensor_address(int d, int *multi) {
-  int i, j, max, ind;
   size_t add = 0;
-  int *im = (int *)malloc(d * sizeof(int));
-  int *mymulti = (int *)malloc(d * sizeof(int));
-
-  max = 0;
-  ind = d - 1;
-  for (i = 0; i < d; i++) {
-    mymulti[i] = multi[i];
-    if (mymulti[i] > max)
-      max = mymulti[i];
-    im[i] = 0;
-  }
+  /* the entries are addressed by the sorted multi-index */
+  std::vector<int> im(multi, multi + d);
+  std::sort(im.begin(), im.end());
 
-  for (i = 0; i < d; i++) {
-    if (mymulti[i] == max) {
-      im[ind] = mymulti[i];
-      mymulti[i] = 0;
-      max = 0;
-      ind -= 1;
-      for (j = 0; j < d; j++)
-        if (mymulti[j] > max)
-          max = mymulti[j];
-    }
-  }
-
-  for (i = 0; i < d; i++) {
+  for (int i = 0; i < d; i++)
     add += binomi(im[i] + i, i + 1);
-  }
-  free((char *)im);
-  free((char *)mymulti);
 
   return add;
 }
@@ -844,31 +822,9 @@ int tensor_eval(short tag, int m, int n, int d, int p, double *x,
 
 /****************************************************************************/
 void tensor_value(int d, int m, double *y, double **tensor, int *multi) {
-  int *im = (int *)malloc(d * sizeof(int));
-
-  int max = 0;
-  int ind = d - 1;
-  for (int i = 0; i < d; i++) {
-    if (multi[i] > max)
-      max = multi[i];
-    im[i] = 0;
-  }
-  for (int i = 0; i < d; i++) {
-    if (multi[i] == max) /* olvo 980728 == instead of = */
-    {
-      im[ind] = multi[i];
-      multi[i] = 0;
-      max = 0;
-      ind -= 1;
-      for (int j = 0; j < d; j++)
-        if (multi[j] > max)
-          max = multi[j];
-    }
-  }
-  size_t add = tensor_address(d, im);
+  size_t add = tensor_address(d, multi);
   for (int i = 0; i < m; i++)
     y[i] = tensor[i][add];
-  free((char *)im);
 }
 
 END_C_DECLS
-- 
2.43.0


From a3ab9f461753f1e376881139f2c047d79c68031b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:23 +0000
Subject: [PATCH 059/102] fix: freetensor freed the caller's rows of
 first-order tensors

---
 ADOL-C/src/drivers/taylor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index 41bc470..84a5d6f 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -109,7 +109,9 @@ void freetensor(int m, int n, int d, double **tensor) {
   for (i = 0; i < m; i++) {
     t = tensor[i];
     freetensorpoint(n, d, (double **)t);
-    free((char *)t);
+    /* for d == 1 it is the row of tensorig, which belongs to the caller */
+    if (d > 1)
+      free((char *)t);
   }
 }
 
-- 
2.43.0


From 11a1bc0fef6b4f92e7929e83cb2028531c0f2986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:39 +0000
Subject: [PATCH 060/102] fix: accodec was wrong when the result overwrites the
 partial Jacobians

---
 ADOL-C/src/drivers/odedrivers.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ADOL-C/src/drivers/odedrivers.cpp b/ADOL-C/src/drivers/odedrivers.cpp
index 2b506ff..9efae26 100644
--- a/ADOL-C/src/drivers/odedrivers.cpp
+++ b/ADOL-C/src/drivers/odedrivers.cpp
@@ -180,6 +180,15 @@ void accodec(int n,           /* space dimension */
 
   int i, j, k, m, p, nzip, nzpj, isum;
   double *Aip, *Bpj, scale, sum;
+  double ***copyA = nullptr;
+  if (A == B) { /* B_k depends on A_0 ... A_k, keep them */
+    copyA = myalloc3(n, n, deg + 1);
+    for (i = 0; i < n; i++)
+      for (j = 0; j < n; j++)
+        for (k = 0; k <= deg; k++)
+          copyA[i][j][k] = A[i][j][k];
+    A = copyA;
+  }
   for (k = 0; k <= deg; k++) /* Lets calculate B_k */
   {
     scale = tau / (1.0 + k);
@@ -228,6 +237,8 @@ void accodec(int n,           /* space dimension */
         }
     }
   }
+  if (copyA)
+    myfree3(copyA);
 }
 
 END_C_DECLS
-- 
2.43.0


From 38eb9bd08d118c81f4e90bd911ed4464378efcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:39 +0000
Subject: [PATCH 061/102] fix: accodec_ wrote past its matrices and dropped the
 highest degree

---
 ADOL-C/src/drivers/odedriversf.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ADOL-C/src/drivers/odedriversf.cpp b/ADOL-C/src/drivers/odedriversf.cpp
index da26887..edad4d5 100644
--- a/ADOL-C/src/drivers/odedriversf.cpp
+++ b/ADOL-C/src/drivers/odedriversf.cpp
@@ -63,11 +63,11 @@ fint accodec_(fint *fn,      /* space dimension */
   int rc = 1;
   int n = static_cast<int>(*fn), deg = static_cast<int>(*fdeg);
   double tau = *ftau;
-  double ***A = myalloc3(n, n, deg);
-  double ***B = myalloc3(n, n, deg);
-  spread3(n, n, deg, fa, A);
+  double ***A = myalloc3(n, n, deg + 1);
+  double ***B = myalloc3(n, n, deg + 1);
+  spread3(n, n, deg + 1, fa, A);
   accodec(n, tau, deg, A, B, 0);
-  pack3(n, n, deg, B, fb);
+  pack3(n, n, deg + 1, B, fb);
   free((char *)**A);
   free((char *)*A);
   free((char *)A);
-- 
2.43.0


From 44cc48ab1e7fe0b3cd32578b19c8296589837a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:39 +0000
Subject: [PATCH 062/102] fix: forodec_ lost the coefficients of the previous
 degree

---
 ADOL-C/src/drivers/odedriversf.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ADOL-C/src/drivers/odedriversf.cpp b/ADOL-C/src/drivers/odedriversf.cpp
index edad4d5..6497d84 100644
--- a/ADOL-C/src/drivers/odedriversf.cpp
+++ b/ADOL-C/src/drivers/odedriversf.cpp
@@ -39,11 +39,9 @@ fint forodec_(fint *ftag,    /* tape identifier */
   short tag = static_cast<short>(*ftag);
   int n = static_cast<int>(*fn), dol = static_cast<int>(*fdol),
       deg = static_cast<int>(*fdeg);
-  int i;
   double tau = *ftau;
   double **Y = myalloc2(n, deg + 1);
-  for (i = 0; i < n; i++)
-    *Y[i] = fy[i];
+  spread2(n, deg + 1, fy, Y);
   rc = forodec(tag, n, tau, dol, deg, Y);
   pack2(n, deg + 1, Y, fy);
   free((char *)*Y);
-- 
2.43.0


From 1db532c27945d5dedb0d909d5ab3703994137c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:52 +0000
Subject: [PATCH 063/102] fix: forodec left the Taylor series shifted when the
 recorded branches are left

---
 ADOL-C/src/drivers/odedrivers.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ADOL-C/src/drivers/odedrivers.cpp b/ADOL-C/src/drivers/odedrivers.cpp
index 9efae26..e9e39bf 100644
--- a/ADOL-C/src/drivers/odedrivers.cpp
+++ b/ADOL-C/src/drivers/odedrivers.cpp
@@ -81,25 +81,25 @@ int forodec(short tag,  /* tape identifier */
     k = (deg) * (j == deg - 1); /* keep death values in prepration */
     MINDEC(rc, zos_forward(tag, n, n, k, tape.forodec_y(), tape.forodec_z()));
     /* for  reverse called by jacode   */
-    if (rc < 0)
-      return rc;
-    taut = tau / (1 + j); /* only the last time through.     */
-    for (i = 0; i < n; ++i)
-      Y[i][j] = taut * tape.forodec_z()[i];
+    if (rc >= 0) {
+      taut = tau / (1 + j); /* only the last time through.     */
+      for (i = 0; i < n; ++i)
+        Y[i][j] = taut * tape.forodec_z()[i];
+    }
     dol++; /* !!! */
   }
-  for (j = dol; j < deg; ++j) {
+  for (j = dol; rc >= 0 && j < deg; ++j) {
     k = (deg) * (j == deg - 1); /* keep death values in prepration */
     MINDEC(rc, hos_forward(tag, n, n, j, k, tape.forodec_y(), Y,
                            tape.forodec_z(), tape.forodec_Z()));
     /* for  reverse called by jacode   */
     if (rc < 0)
-      return rc;
+      break;
     taut = tau / (1 + j); /* only the last time through.     */
     for (i = 0; i < n; ++i)
       Y[i][j] = taut * tape.forodec_Z()[i][j - 1];
   }
-  /******  Done                  ********/
+  /******  Done: shift the coefficients back, also after a failure  ********/
 
   for (i = 0; i < n; ++i) {
     for (k = deg; k > 0; --k) {
-- 
2.43.0


From fb6531e3ce79a1c0b4a29cba1ed4044320edf1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:07 +0000
Subject: [PATCH 064/102] fix: jac_solv solved with stale or unfactorized
 Jacobians after mode 0 or a failure

---
 ADOL-C/src/drivers/taylor.cpp | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index 84a5d6f..a70819b 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -440,34 +440,24 @@ int jac_solv(unsigned short tag, int n, const double *x, double *b,
       tape.jacSolv_xold()[i] = x[i];
       newX = 1;
     }
-  switch (mode) {
-  case 0:
-    MINDEC(rc, zos_forward(tag, n, n, 1, x, y));
-    MINDEC(rc, fov_reverse(tag, n, n, n, tape.jacSolv_I(), tape.jacSolv_J()));
-    break;
-  case 1:
+  /* modeold > 0 says that J holds the LU factors of the Jacobian at xold */
+  if (newX || mode < 2)
+    tape.jacSolv_modeold(0);
+  if (tape.jacSolv_modeold() < 1) {
     MINDEC(rc, zos_forward(tag, n, n, 1, x, y));
-    MINDEC(rc, fov_reverse(tag, n, n, n, tape.jacSolv_I(), tape.jacSolv_J()));
-    if (LUFactorization(tape.jacSolv_J(), n, tape.jacSolv_ri(),
-                        tape.jacSolv_ci()) < 0) {
-      rc = -3;
-      break;
-    }
-    tape.jacSolv_modeold(1);
-    break;
-  case 2:
-    if ((tape.jacSolv_modeold() < 1) || (newX == 1)) {
-      MINDEC(rc, zos_forward(tag, n, n, 1, x, y));
+    if (rc >= 0)
       MINDEC(rc, fov_reverse(tag, n, n, n, tape.jacSolv_I(), tape.jacSolv_J()));
+    if (rc >= 0 && mode > 0) {
       if (LUFactorization(tape.jacSolv_J(), n, tape.jacSolv_ri(),
-                          tape.jacSolv_ci()) < 0) {
+                          tape.jacSolv_ci()) < 0)
         rc = -3;
-        break;
-      }
+      else
+        tape.jacSolv_modeold(1);
     }
+  }
+  if (rc >= 0 && mode == 2) {
     GauszSolve(tape.jacSolv_J(), n, tape.jacSolv_ri(), tape.jacSolv_ci(), b);
     tape.jacSolv_modeold(2);
-    break;
   }
   myfree1(y);
   return rc;
-- 
2.43.0


From 43fc06e48095bf0e0258608ce6904f99abe84812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:07 +0000
Subject: [PATCH 065/102] fix: jac_solv used the Jacobian of a previous
 recording or of previous parameters

---
 ADOL-C/src/valuetape/valuetape.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 415cc1d..286d266 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -75,6 +75,8 @@ int ValueTape::initNewTape() {
 #ifdef ADOLC_SPARSE
   initSparse();
 #endif
+  // the Jacobian kept by jac_solv belongs to the previous recording
+  jacSolv_modeold(0);
   // nothing of the new recording is on disk yet
   tapestats(TapeInfos::OP_FILE_ACCESS, 0);
   tapestats(TapeInfos::LOC_FILE_ACCESS, 0);
@@ -550,6 +552,8 @@ void ValueTape::set_param_vec(short tag, size_t numparam,
   for (size_t i = 0; i < tapestats(TapeInfos::NUM_PARAM); ++i)
     paramstore_view[i] = paramvec[i];
 
+  // the Jacobian kept by jac_solv belongs to the previous parameters
+  jacSolv_modeold(0);
   finish_tay_file();
   workMode(TapeInfos::NO_MODE);
 }
-- 
2.43.0


From 23712f9765b690cbdf93004e320540fca612ba76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:19 +0000
Subject: [PATCH 066/102] fix: inverse_Taylor_prop reused the Jacobian of
 another tape or recording

---
 ADOL-C/src/drivers/taylor.cpp | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index a70819b..8e97248 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -475,7 +475,7 @@ int inverse_Taylor_prop(short tag, int n, int d, double **Y, double **X) {
   static thread_local double *w;
   static thread_local int *dd;
   static thread_local double *b;
-  static thread_local int nax, dax, bd, cgd;
+  static thread_local int nax, dax, bd;
   static thread_local short **nonzero;
   short *nz;
   double *Aij;
@@ -514,7 +514,6 @@ int inverse_Taylor_prop(short tag, int n, int d, double **Y, double **X) {
       for (j = 0; j < n; j++)
         I[i][j] = (i == j) ? 1.0 : 0.0;
     }
-    cgd = 1;
     nax = n;
     dax = d;
     dd[0] = d + 1;
@@ -523,20 +522,14 @@ int inverse_Taylor_prop(short tag, int n, int d, double **Y, double **X) {
       dd[i + 1] = (int)ceil(dd[i] * 0.5);
     bd = i + 1;
   }
-  if (cgd == 0)
-    for (i = 0; i < n; i++)
-      if (X[i][0] != xold[i])
-        cgd = 1;
-  for (i = 0; i < n; i++)
+  for (i = 0; i < n; i++) {
     b[i] = 0;
-  if (cgd == 1) {
-    cgd = 0;
-    for (i = 0; i < n; i++)
-      xold[i] = X[i][0];
-    MINDEC(rc, jac_solv(tag, n, xold, b, 1));
-    if (rc == -3)
-      return -3;
+    xold[i] = X[i][0];
   }
+  /* factorizes the Jacobian unless the tape still has that of xold */
+  MINDEC(rc, jac_solv(tag, n, xold, b, 2));
+  if (rc < 0)
+    return rc;
   ii = bd;
   for (i = 0; i < n; i++) {
     for (j = 0; j < d; j++) {
@@ -581,8 +574,8 @@ int inverse_Taylor_prop(short tag, int n, int d, double **Y, double **X) {
         b[i] = -bi;
       }
       MINDEC(rc, jac_solv(tag, n, xold, b, 2));
-      if (rc == -3)
-        return -3;
+      if (rc < 0)
+        return rc;
       for (i = 0; i < n; i++) {
         X[i][l] += b[i];
         Xhelp[i][l - 1] += b[i];
-- 
2.43.0


From 743d379ccef2beb2449a3715eecf825b49a68080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:19 +0000
Subject: [PATCH 067/102] fix: inverse_tensor_eval overran its coefficient list
 when degree or dimension grow

---
 ADOL-C/src/drivers/taylor.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index 8e97248..4977128 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -608,8 +608,7 @@ int inverse_tensor_eval(short tag, int n, int d, int p, double *x,
     dim = binomi(p + d - 1, d);
     if ((d != dold) || (p != pold)) {
       if (pold) { /* olvo 980728 */
-        dim = binomi(pold + dold - 1, dold);
-        freecoefflist(dim, coeff_list);
+        freecoefflist(binomi(pold + dold - 1, dold), coeff_list);
         free((char *)coeff_list);
       }
       coeff_list = (struct item *)malloc(sizeof(struct item) * dim);
-- 
2.43.0


From f159bfc6973d1b211b38d2f37a381fc1be05d140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:47 +0000
Subject: [PATCH 068/102] fix: forodec_ and accodec_ crashed freeing their
 matrices

---
 ADOL-C/src/drivers/odedriversf.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/ADOL-C/src/drivers/odedriversf.cpp b/ADOL-C/src/drivers/odedriversf.cpp
index 6497d84..04fc429 100644
--- a/ADOL-C/src/drivers/odedriversf.cpp
+++ b/ADOL-C/src/drivers/odedriversf.cpp
@@ -44,8 +44,7 @@ fint forodec_(fint *ftag,    /* tape identifier */
   spread2(n, deg + 1, fy, Y);
   rc = forodec(tag, n, tau, dol, deg, Y);
   pack2(n, deg + 1, Y, fy);
-  free((char *)*Y);
-  free((char *)Y);
+  myfree2(Y);
   return rc;
 }
 
@@ -66,12 +65,8 @@ fint accodec_(fint *fn,      /* space dimension */
   spread3(n, n, deg + 1, fa, A);
   accodec(n, tau, deg, A, B, 0);
   pack3(n, n, deg + 1, B, fb);
-  free((char *)**A);
-  free((char *)*A);
-  free((char *)A);
-  free((char *)**B);
-  free((char *)*B);
-  free((char *)B);
+  myfree3(A);
+  myfree3(B);
   return rc;
 }
 
-- 
2.43.0


From 4092272f158f0dd396ddb1f73b5b6fec84c3fcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:02 +0000
Subject: [PATCH 069/102] fix: inverse_tensor_eval leaked and went on after a
 failure

---
 ADOL-C/src/drivers/taylor.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index 4977128..239c30d 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -637,8 +637,8 @@ int inverse_tensor_eval(short tag, int n, int d, int p, double *x,
         ptr = &coeff_list[i];
         multma2vec1(n, p, d, Y, S, jm);
         MINDEC(rc, inverse_Taylor_prop(tag, n, d, Y, X));
-        if (rc == -3)
-          return -3;
+        if (rc < 0)
+          break;
         do {
           for (int j = 0; j < n; j++)
             tensor[j][ptr->a] += static_cast<double>(X[j][ptr->b] * ptr->c);
@@ -661,8 +661,8 @@ int inverse_tensor_eval(short tag, int n, int d, int p, double *x,
         convert(p, d, it, jm);
         multma2vec1(n, p, d, Y, S, jm); /* Store S*jm in Y */
         MINDEC(rc, inverse_Taylor_prop(tag, n, d, Y, X));
-        if (rc == -3)
-          return -3;
+        if (rc < 0)
+          break;
         ptr = &coeff_list[i];
         do {
           for (int j = 0; j < n; j++) {
-- 
2.43.0


From 0fc953b6d7d88844c043b824f2d21746da13c3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:56 +0000
Subject: [PATCH 070/102] fix: adolc_tb_d_le compares like the C++ operator for
 NaN

---
 ADOL-C/c_interface/ADOLC_TB_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/c_interface/ADOLC_TB_interface.cpp b/ADOL-C/c_interface/ADOLC_TB_interface.cpp
index cdad104..a226ad4 100644
--- a/ADOL-C/c_interface/ADOLC_TB_interface.cpp
+++ b/ADOL-C/c_interface/ADOLC_TB_interface.cpp
@@ -320,7 +320,7 @@ bool adolc_tb_d_g(const double x, const tape_loc a) {
 }
 bool adolc_tb_d_le(const double x, const tape_loc a) {
   adouble aa = borrow(a);
-  return !(x > aa);
+  return x <= aa;
 }
 bool adolc_tb_d_l(const double x, const tape_loc a) {
   adouble aa = borrow(a);
-- 
2.43.0


From 97779578564cff65f59e57578707bc5e6065131e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:16 +0000
Subject: [PATCH 071/102] fix: adolc_tb_free_on_tape keeps the current tape

---
 ADOL-C/c_interface/ADOLC_TB_interface.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/c_interface/ADOLC_TB_interface.cpp b/ADOL-C/c_interface/ADOLC_TB_interface.cpp
index a226ad4..6e781a6 100644
--- a/ADOL-C/c_interface/ADOLC_TB_interface.cpp
+++ b/ADOL-C/c_interface/ADOLC_TB_interface.cpp
@@ -42,8 +42,13 @@ void adolc_tb_free_on_tape(const short tape_id, const tape_loc v) {
   }
   assert(findTapePtr_(tape_id) != nullptr &&
          "adolc_tb_free_on_tape: tape_id does not exist");
+  ValueTape *const previous = currentTapePtr();
   setCurrentTape(tape_id);
-  tape_location<adouble> owning_loc(v.loc, tape_location<adouble>::OWNING);
+  {
+    tape_location<adouble> owning_loc(v.loc, tape_location<adouble>::OWNING);
+  }
+  if (previous != nullptr)
+    setCurrentTape(previous);
 }
 
 double adolc_tb_value(const tape_loc v) { return borrow(v).value(); }
-- 
2.43.0


From eae0cfcdfa7132c3312e04bccd1645c53cabb0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:16 +0000
Subject: [PATCH 072/102] fix: free_short_mat releases the rows and uses
 delete[]

---
 ADOL-C/c_interface/array_handler.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/ADOL-C/c_interface/array_handler.cpp b/ADOL-C/c_interface/array_handler.cpp
index 597b19b..79773b6 100644
--- a/ADOL-C/c_interface/array_handler.cpp
+++ b/ADOL-C/c_interface/array_handler.cpp
@@ -1,4 +1,5 @@
 #include "array_handler.h"
+#include <stddef.h>
 
 /*
 Setter and getter for vectors, matrizes and tensors.
@@ -24,11 +25,21 @@ void setindex_tens(double ***A, const double val, const int dim, const int row,
 }
 
 short **alloc_short_mat(const int rows, const int cols) {
-  short **s = new short *[rows];
-  for (int i = 0; i < rows; i++) {
-    s[i] = new short[cols];
+  // one block for all rows, so that free_short_mat needs no dimensions
+  const size_t r = rows > 0 ? static_cast<size_t>(rows) : 0;
+  const size_t c = cols > 0 ? static_cast<size_t>(cols) : 0;
+  short **s = new short *[r + 1];
+  s[0] = new short[r * c];
+  for (size_t i = 1; i < r; i++) {
+    s[i] = s[0] + i * c;
   }
   return s;
 }
-void free_short_mat(short **s) { delete s; }
+void free_short_mat(short **s) {
+  if (s == nullptr) {
+    return;
+  }
+  delete[] s[0];
+  delete[] s;
+}
 }
\ No newline at end of file
-- 
2.43.0


From 5d21920fad402c214997608822b6452837148b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:16 +0000
Subject: [PATCH 073/102] fix: ADOLC_TL_interface.h compiles as C on its own

---
 ADOL-C/c_interface/ADOLC_TL_interface.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ADOL-C/c_interface/ADOLC_TL_interface.h b/ADOL-C/c_interface/ADOLC_TL_interface.h
index d758091..8788ddc 100644
--- a/ADOL-C/c_interface/ADOLC_TL_interface.h
+++ b/ADOL-C/c_interface/ADOLC_TL_interface.h
@@ -1,6 +1,7 @@
 #ifndef ADOLC_TL_INTERFACE_H
 #define ADOLC_TL_INTERFACE_H
 
+#include <stdbool.h>
 #include <stddef.h>
 
 #ifdef __cplusplus
-- 
2.43.0


From 5373cb9b3f11694f4dcbbcc965c4d7660332d114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:17 +0000
Subject: [PATCH 074/102] fix: Lie drivers shift the coefficients for order one

---
 ADOL-C/src/lie/adolc_lie_c.cpp | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/ADOL-C/src/lie/adolc_lie_c.cpp b/ADOL-C/src/lie/adolc_lie_c.cpp
index 6ba5d5c..eb00e6b 100644
--- a/ADOL-C/src/lie/adolc_lie_c.cpp
+++ b/ADOL-C/src/lie/adolc_lie_c.cpp
@@ -272,8 +272,6 @@ int lie_gradientcv(short Tape_F, short Tape_H, short n, short m, double *x0,
 
   double *x = myalloc1(n);
   double *y = myalloc1(m);
-  double *xp = myalloc1(n);
-  double *yp = myalloc1(m);
 
   static thread_local int depax_m, depax_n;
   static thread_local double **In;
@@ -305,12 +303,8 @@ int lie_gradientcv(short Tape_F, short Tape_H, short n, short m, double *x0,
   /* prepare for input   */
   for (i = 0; i < n; i++) {
     x[i] = X[i][0];
-    if (d == 1) {
-      xp[i] = X[i][1];
-    } else {
-      for (k = 0; k < d; k++) {
-        X[i][k] = X[i][k + 1];
-      }
+    for (k = 0; k < d; k++) {
+      X[i][k] = X[i][k + 1];
     }
   }
 
@@ -338,8 +332,6 @@ int lie_gradientcv(short Tape_F, short Tape_H, short n, short m, double *x0,
 
   myfree1(x);
   myfree1(y);
-  myfree1(xp);
-  myfree1(yp);
 
   return rc;
 }
@@ -394,8 +386,6 @@ int lie_covector(short int Tape_F, short int Tape_W, short int n, double *x0,
 
   double *x = myalloc1(n);
   double *y = myalloc1(m);
-  double *xp = myalloc1(n);
-  double *yp = myalloc1(m);
 
   int i = 0, k = 0;
 
@@ -425,22 +415,16 @@ int lie_covector(short int Tape_F, short int Tape_W, short int n, double *x0,
   /* prepare for input */
   for (i = 0; i < n; i++) {
     x[i] = X[i][0];
-    if (d == 1)
-      xp[i] = X[i][1];
-    else
-      for (k = 0; k < d; k++)
-        X[i][k] = X[i][k + 1];
+    for (k = 0; k < d; k++)
+      X[i][k] = X[i][k + 1];
   }
 
   hos_forward(Tape_W, m, n, d, d + 1, x, X, y, Y);
 
   /* postprocess output of hos_forward  */
   for (i = 0; i < m; i++) {
-    if (d == 1)
-      Y[i][1] = yp[i];
-    else
-      for (k = d; k > 0; k--)
-        Y[i][k] = Y[i][k - 1];
+    for (k = d; k > 0; k--)
+      Y[i][k] = Y[i][k - 1];
     Y[i][0] = y[i];
   }
 
@@ -454,8 +438,6 @@ int lie_covector(short int Tape_F, short int Tape_W, short int n, double *x0,
 
   myfree1(x);
   myfree1(y);
-  myfree1(xp);
-  myfree1(yp);
 
   return -1;
 }
-- 
2.43.0


From ded21dd812538b025c5ab00b6f7ebc43b8f35cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:17 +0000
Subject: [PATCH 075/102] fix: Lie drivers: factorials beyond 12 overflow int

---
 ADOL-C/src/lie/adolc_lie_c.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ADOL-C/src/lie/adolc_lie_c.cpp b/ADOL-C/src/lie/adolc_lie_c.cpp
index eb00e6b..230af5f 100644
--- a/ADOL-C/src/lie/adolc_lie_c.cpp
+++ b/ADOL-C/src/lie/adolc_lie_c.cpp
@@ -62,12 +62,12 @@ void acccov(int n, int d, double ***B, double **C, double **D) {
   int i, k, l, ip, kp;
 
   /* factorial     */
-  int Fak = 1;
+  double Fak = 1.0;
 
   /* D_k:=Fak*C_k (1. summation step)   */
   for (k = 0; k <= d; k++) {
     if (k == 0)
-      Fak = 1;
+      Fak = 1.0;
     else
       Fak = Fak * k;
 
@@ -139,12 +139,12 @@ void accbrac(int n, int d, double ***Bs, double **b, double **result) {
   int i, j, k, l, jp, kp;
 
   /* factorial      */
-  int Fak = 1;
+  double Fak = 1.0;
 
   /* formula 3.58  */
   for (k = 0; k <= d; k++) {
     if (k == 0)
-      Fak = 1;
+      Fak = 1.0;
     else
       Fak = Fak * k;
 
-- 
2.43.0


From 67100dd25b50257a915b242cf341d23d463fdf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:17 +0000
Subject: [PATCH 076/102] fix: Lie drivers report return codes of the sweeps
 and accept order zero

---
 ADOL-C/src/lie/adolc_lie_c.cpp | 85 +++++++++++++++++++++++-----------
 1 file changed, 57 insertions(+), 28 deletions(-)

diff --git a/ADOL-C/src/lie/adolc_lie_c.cpp b/ADOL-C/src/lie/adolc_lie_c.cpp
index 230af5f..f01049f 100644
--- a/ADOL-C/src/lie/adolc_lie_c.cpp
+++ b/ADOL-C/src/lie/adolc_lie_c.cpp
@@ -184,7 +184,7 @@ int lie_scalarcv(short Tape_F, short Tape_H, short n, short m, double *x0,
   double **Y = myalloc2(m, d + 1); /* Taylorcoeff. expansion y(t)  */
   double *x = myalloc1(n);
   double *y = myalloc1(m);
-  int i = 0, j = 0, k = 0;
+  int i = 0, j = 0, k = 0, rc = 3;
   double Fak = 1.0;
 
   for (i = 0; i < n; i++) {
@@ -192,7 +192,8 @@ int lie_scalarcv(short Tape_F, short Tape_H, short n, short m, double *x0,
   };
 
   /* see odedrivers    */
-  forodec(Tape_F, n, 1.0, 0, d, X);
+  if (d > 0)
+    MINDEC(rc, forodec(Tape_F, n, 1.0, 0, d, X));
 
   /*  prepare for input  */
   for (i = 0; i < n; i++) {
@@ -201,7 +202,12 @@ int lie_scalarcv(short Tape_F, short Tape_H, short n, short m, double *x0,
       X[i][k] = X[i][k + 1];
   }
 
-  hos_forward(Tape_H, m, n, d, 0, x, X, y, Y);
+  if (rc >= 0) {
+    if (d > 0)
+      MINDEC(rc, hos_forward(Tape_H, m, n, d, 0, x, X, y, Y));
+    else
+      MINDEC(rc, zos_forward(Tape_H, m, n, 0, x, y));
+  }
 
   /*  postprocess output of hos_forward  */
   for (i = 0; i < m; i++) {
@@ -225,7 +231,7 @@ int lie_scalarcv(short Tape_F, short Tape_H, short n, short m, double *x0,
   myfree1(x);
   myfree1(y);
 
-  return -1;
+  return rc;
 }
 
 /** Lie derivative of scalar field h : D -> R^m along vector field f : D -> R^n
@@ -277,13 +283,14 @@ int lie_gradientcv(short Tape_F, short Tape_H, short n, short m, double *x0,
   static thread_local double **In;
   static thread_local double **Im;
 
-  int i = 0, j = 0, l = 0, k = 0, rc = -1;
+  int i = 0, j = 0, l = 0, k = 0, rc = 3;
   double Fak = 1.0;
 
   for (i = 0; i < n; i++)
     X[i][0] = x0[i];
 
-  forodec(Tape_F, n, 1.0, 0, d, X);
+  if (d > 0)
+    MINDEC(rc, forodec(Tape_F, n, 1.0, 0, d, X));
 
   if (n adolc_compsize depax_n) {
     if (depax_n)
@@ -296,9 +303,11 @@ int lie_gradientcv(short Tape_F, short Tape_H, short n, short m, double *x0,
     Im = myallocI2(depax_m = m);
   }
 
-  hov_reverse(Tape_F, n, n, d - 1, n, In, A,
-              0);                  /* explanation in interfaces.cpp  */
-  accodec(n, 1.0, d - 1, A, B, 0); /* explanation in odedrivers.cpp    */
+  if (d > 0 && rc >= 0) {
+    /* explanation in interfaces.cpp  */
+    MINDEC(rc, hov_reverse(Tape_F, n, n, d - 1, n, In, A, 0));
+    accodec(n, 1.0, d - 1, A, B, 0); /* explanation in odedrivers.cpp    */
+  }
 
   /* prepare for input   */
   for (i = 0; i < n; i++) {
@@ -308,10 +317,16 @@ int lie_gradientcv(short Tape_F, short Tape_H, short n, short m, double *x0,
     }
   }
 
-  hos_forward(Tape_H, m, n, d, d + 1, x, X, y, Y);
-
-  hov_reverse(Tape_H, m, n, d, m, Im, Pc, 0);
-  accodeout(m, n, d, B, Pc, D);
+  if (rc >= 0) {
+    if (d > 0)
+      MINDEC(rc, hos_forward(Tape_H, m, n, d, d + 1, x, X, y, Y));
+    else
+      MINDEC(rc, zos_forward(Tape_H, m, n, 1, x, y));
+  }
+  if (rc >= 0) {
+    MINDEC(rc, hov_reverse(Tape_H, m, n, d, m, Im, Pc, 0));
+    accodeout(m, n, d, B, Pc, D);
+  }
 
   for (l = 0; l < m; l++) {
     for (i = 0; i < n; i++) {
@@ -387,7 +402,7 @@ int lie_covector(short int Tape_F, short int Tape_W, short int n, double *x0,
   double *x = myalloc1(n);
   double *y = myalloc1(m);
 
-  int i = 0, k = 0;
+  int i = 0, k = 0, rc = 3;
 
   static thread_local int depax_m, depax_n;
   static thread_local double **In;
@@ -396,7 +411,8 @@ int lie_covector(short int Tape_F, short int Tape_W, short int n, double *x0,
   for (i = 0; i < n; i++)
     X[i][0] = x0[i];
 
-  forodec(Tape_F, n, 1.0, 0, d, X);
+  if (d > 0)
+    MINDEC(rc, forodec(Tape_F, n, 1.0, 0, d, X));
 
   if (n adolc_compsize depax_n) {
     if (depax_n)
@@ -409,8 +425,9 @@ int lie_covector(short int Tape_F, short int Tape_W, short int n, double *x0,
     Im = myallocI2(depax_m = m);
   }
 
-  hov_reverse(Tape_F, n, n, d - 1, n, In, A,
-              0); /* explanation in interfaces.cpp  */
+  /* explanation in interfaces.cpp  */
+  if (d > 0 && rc >= 0)
+    MINDEC(rc, hov_reverse(Tape_F, n, n, d - 1, n, In, A, 0));
 
   /* prepare for input */
   for (i = 0; i < n; i++) {
@@ -419,7 +436,12 @@ int lie_covector(short int Tape_F, short int Tape_W, short int n, double *x0,
       X[i][k] = X[i][k + 1];
   }
 
-  hos_forward(Tape_W, m, n, d, d + 1, x, X, y, Y);
+  if (rc >= 0) {
+    if (d > 0)
+      MINDEC(rc, hos_forward(Tape_W, m, n, d, d + 1, x, X, y, Y));
+    else
+      MINDEC(rc, zos_forward(Tape_W, m, n, 1, x, y));
+  }
 
   /* postprocess output of hos_forward  */
   for (i = 0; i < m; i++) {
@@ -428,8 +450,11 @@ int lie_covector(short int Tape_F, short int Tape_W, short int n, double *x0,
     Y[i][0] = y[i];
   }
 
-  accodec(n, 1.0, d - 1, A, B, 0); /*  explanation in odedrivers.cpp */
-  acccov(n, d, B, Y, result);
+  if (rc >= 0) {
+    if (d > 0)
+      accodec(n, 1.0, d - 1, A, B, 0); /*  explanation in odedrivers.cpp */
+    acccov(n, d, B, Y, result);
+  }
 
   myfree2(X);
   myfree2(Y);
@@ -439,7 +464,7 @@ int lie_covector(short int Tape_F, short int Tape_W, short int n, double *x0,
   myfree1(x);
   myfree1(y);
 
-  return -1;
+  return rc;
 }
 
 /** Calculates the iterated Lie derivatives (Lie brackets) of the vector field g
@@ -461,7 +486,7 @@ int lie_bracket(short int Tape_F, short int Tape_G, short int n, double *x0,
 
   double *y = myalloc1(m);
 
-  int i, k;
+  int i, k, rc = 3;
 
   /* static identity matrix for hov_reverse  */
   static thread_local int depax_n = 0;
@@ -470,7 +495,7 @@ int lie_bracket(short int Tape_F, short int Tape_G, short int n, double *x0,
   for (i = 0; i < n; i++) {
     X[i][0] = x0[i];
   };
-  forodec(Tape_F, n, 1.0, 0, d + 1, X);
+  MINDEC(rc, forodec(Tape_F, n, 1.0, 0, d + 1, X));
 
   /* for hov_reverse  */
   if (n > depax_n) {
@@ -479,7 +504,8 @@ int lie_bracket(short int Tape_F, short int Tape_G, short int n, double *x0,
     };
     In = myallocI2(depax_n = n);
   }
-  hov_reverse(Tape_F, n, n, d, n, In, A, 0);
+  if (rc >= 0)
+    MINDEC(rc, hov_reverse(Tape_F, n, n, d, n, In, A, 0));
 
   /* prepare for input  */
   for (i = 0; i < n; i++) {
@@ -487,7 +513,8 @@ int lie_bracket(short int Tape_F, short int Tape_G, short int n, double *x0,
       X[i][k] = X[i][k + 1];
     }
   }
-  hos_forward(Tape_G, m, n, d + 1, d + 2, x0, X, y, Y);
+  if (rc >= 0)
+    MINDEC(rc, hos_forward(Tape_G, m, n, d + 1, d + 2, x0, X, y, Y));
 
   /* postprocess output of hos_forward  */
   for (i = 0; i < m; i++) {
@@ -497,8 +524,10 @@ int lie_bracket(short int Tape_F, short int Tape_G, short int n, double *x0,
     Y[i][0] = y[i];
   }
 
-  accadj(n, d, A, Xs);
-  accbrac(n, d, Xs, Y, result);
+  if (rc >= 0) {
+    accadj(n, d, A, Xs);
+    accbrac(n, d, Xs, Y, result);
+  }
 
   myfree1(y);
   myfree2(X);
@@ -506,5 +535,5 @@ int lie_bracket(short int Tape_F, short int Tape_G, short int n, double *x0,
   myfree3(A);
   myfree3(Xs);
 
-  return -1;
+  return rc;
 };
-- 
2.43.0


From b69892b49d63d39bd2b8b0c372afaa1307c9872a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:11 +0000
Subject: [PATCH 077/102] fix: trace files that cannot be opened or positioned
 are an error

---
 ADOL-C/include/adolc/valuetape/bufferstate.h | 14 +++++++---
 ADOL-C/include/adolc/valuetape/valuetape.h   |  3 ++-
 ADOL-C/src/valuetape/tapeinfos.cpp           | 28 +++++++++++++-------
 ADOL-C/src/valuetape/valuetape.cpp           | 10 ++++---
 4 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/ADOL-C/include/adolc/valuetape/bufferstate.h b/ADOL-C/include/adolc/valuetape/bufferstate.h
index 0c99bbf..68007fb 100644
--- a/ADOL-C/include/adolc/valuetape/bufferstate.h
+++ b/ADOL-C/include/adolc/valuetape/bufferstate.h
@@ -1,3 +1,4 @@
+#include <adolc/adolcerror.h>
 #include <cassert>
 #include <cstddef>
 #include <cstdio>
@@ -94,15 +95,22 @@ public:
   FILE *file() { return file_.get(); }
   FILE *file() const { return file_.get(); }
 
-  /// Closes the owned FILE handle, if present.
-  void closeFile() { file_.reset(); }
+  /// Closes the owned FILE handle, if present. Returns false on failure.
+  bool closeFile() {
+    FILE *const file = file_.release();
+    return file == nullptr || fclose(file) == 0;
+  }
 
   /// Releases the FILE handle without closing it.
   FILE *releaseFile() { return file_.release(); }
 
-  /// Opens fileName with mode and owns the resulting FILE handle.
+  /// Opens fileName with mode and owns the resulting FILE handle. Fails with
+  /// CANNOT_OPEN_FILE if this is not possible.
   void openFile(const char *fileName, const char *mode) {
     file_.reset(fopen(fileName, mode));
+    if (!file_)
+      ADOLCError::fail(ADOLCError::ErrorType::CANNOT_OPEN_FILE,
+                       CURRENT_LOCATION);
   }
 
   /**
diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index 7fc1215..d6fd013 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -718,7 +718,8 @@ public:
                   tapestats(Info::bufferSize);
     auto offset = static_cast<long>(number * sizeof(typename Info::value_type));
     Info::openFile(tapeInfos_, fileName<Info>());
-    fseek(Info::file(tapeInfos_), offset, SEEK_SET);
+    if (fseek(Info::file(tapeInfos_), offset, SEEK_SET) != 0)
+      ADOLCError::fail(Info::error, CURRENT_LOCATION);
   }
 
   /**
diff --git a/ADOL-C/src/valuetape/tapeinfos.cpp b/ADOL-C/src/valuetape/tapeinfos.cpp
index aee8fcc..57f0c4b 100644
--- a/ADOL-C/src/valuetape/tapeinfos.cpp
+++ b/ADOL-C/src/valuetape/tapeinfos.cpp
@@ -259,9 +259,12 @@ void TapeInfos::get_loc_block_r() {
   const size_t chunks = number / chunkSize;
   const size_t remain = number % chunkSize;
 
-  fseek(locBuffer_.file(),
-        static_cast<long>(sizeof(size_t) * (locBuffer_.numOnTape() - number)),
-        SEEK_SET);
+  if (fseek(
+          locBuffer_.file(),
+          static_cast<long>(sizeof(size_t) * (locBuffer_.numOnTape() - number)),
+          SEEK_SET) != 0)
+    ADOLCError::fail(ADOLCError::ErrorType::EVAL_LOC_TAPE_READ_FAILED,
+                     CURRENT_LOCATION);
   for (size_t i = 0; i < chunks; ++i) {
     if (fread(locBuffer_.begin() + i * chunkSize, chunkSize * sizeof(size_t), 1,
               locBuffer_.file()) != 1)
@@ -374,10 +377,12 @@ void TapeInfos::get_op_block_r() {
   size_t number, remain, chunkSize;
 
   number = stats[TapeInfos::OP_BUFFER_SIZE];
-  fseek(opBuffer_.file(),
-        static_cast<long>(sizeof(unsigned char) *
-                          (opBuffer_.numOnTape() - number)),
-        SEEK_SET);
+  if (fseek(opBuffer_.file(),
+            static_cast<long>(sizeof(unsigned char) *
+                              (opBuffer_.numOnTape() - number)),
+            SEEK_SET) != 0)
+    ADOLCError::fail(ADOLCError::ErrorType::EVAL_OP_TAPE_READ_FAILED,
+                     CURRENT_LOCATION);
   chunkSize = ADOLC_IO_CHUNK_SIZE / sizeof(unsigned char);
   chunks = number / chunkSize;
   for (i = 0; i < chunks; ++i)
@@ -464,9 +469,12 @@ void TapeInfos::get_val_block_r() {
   size_t temp;
 
   number = stats[TapeInfos::VAL_BUFFER_SIZE];
-  fseek(valBuffer_.file(),
-        static_cast<long>(sizeof(double) * (valBuffer_.numOnTape() - number)),
-        SEEK_SET);
+  if (fseek(
+          valBuffer_.file(),
+          static_cast<long>(sizeof(double) * (valBuffer_.numOnTape() - number)),
+          SEEK_SET) != 0)
+    ADOLCError::fail(ADOLCError::ErrorType::EVAL_VAL_TAPE_READ_FAILED,
+                     CURRENT_LOCATION);
   chunkSize = ADOLC_IO_CHUNK_SIZE / sizeof(double);
   chunks = number / chunkSize;
   for (i = 0; i < chunks; ++i)
diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 286d266..8530307 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -642,10 +642,12 @@ void ValueTape::discard_params_r(void) {
     tapeInfos_.valBuffer_.position(tapeInfos_.valBuffer_.position() - rsize);
     if (ip > 0) {
       const size_t number = tapestats(TapeInfos::VAL_BUFFER_SIZE);
-      fseek(tapeInfos_.valBuffer_.file(),
-            static_cast<long>(sizeof(double) *
-                              (tapeInfos_.valBuffer_.numOnTape() - number)),
-            SEEK_SET);
+      if (fseek(tapeInfos_.valBuffer_.file(),
+                static_cast<long>(sizeof(double) *
+                                  (tapeInfos_.valBuffer_.numOnTape() - number)),
+                SEEK_SET) != 0)
+        ADOLCError::fail(ADOLCError::ErrorType::EVAL_VAL_TAPE_READ_FAILED,
+                         CURRENT_LOCATION);
 
       const size_t chunks = number / chunkSize;
       for (size_t i = 0; i < chunks; ++i)
-- 
2.43.0


From 13dcdee6ed570e70a21b74b43c6c0cde28860c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:11 +0000
Subject: [PATCH 078/102] fix: failures when completing the trace files are an
 error

---
 ADOL-C/src/valuetape/valuetape.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 8530307..61d78ee 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -400,7 +400,8 @@ void ValueTape::close_tape(int flag) {
           perTapeInfos_.op_fileName, tapeInfos_.opBuffer_.position());
     }
     tapestats(TapeInfos::OP_FILE_ACCESS, 1);
-    tapeInfos_.opBuffer_.closeFile();
+    if (!tapeInfos_.opBuffer_.closeFile())
+      fail(TAPING_FATAL_IO_ERROR, CURRENT_LOCATION);
     delete[] tapeInfos_.opBuffer_.releaseBuffer();
   } else {
     tapeInfos_.opBuffer_.numOnTape(tapeInfos_.opBuffer_.position());
@@ -413,7 +414,8 @@ void ValueTape::close_tape(int flag) {
     tapeInfos_.put_block<ValInfo<TapeInfos, ErrorType>>(
         perTapeInfos_.val_fileName, tapeInfos_.valBuffer_.position());
     tapestats(TapeInfos::VAL_FILE_ACCESS, 1);
-    tapeInfos_.valBuffer_.closeFile();
+    if (!tapeInfos_.valBuffer_.closeFile())
+      fail(TAPING_FATAL_IO_ERROR, CURRENT_LOCATION);
     delete[] tapeInfos_.valBuffer_.releaseBuffer();
   } else {
     tapeInfos_.valBuffer_.numOnTape(tapeInfos_.valBuffer_.position());
@@ -429,11 +431,13 @@ void ValueTape::close_tape(int flag) {
     tapestats(TapeInfos::NUM_LOCATIONS, tapeInfos_.locBuffer_.numOnTape());
     tapestats(TapeInfos::LOC_FILE_ACCESS, 1);
     /* write tape stats */
-    fseek(tapeInfos_.locBuffer_.file(), 0, 0);
-    fwrite(&get_adolc_id(), sizeof(ADOLC_ID), 1, tapeInfos_.locBuffer_.file());
-    fwrite(tapestats().data(), TapeInfos::STAT_SIZE * sizeof(size_t), 1,
-           tapeInfos_.locBuffer_.file());
-    tapeInfos_.locBuffer_.closeFile();
+    if (fseek(tapeInfos_.locBuffer_.file(), 0, SEEK_SET) != 0 ||
+        fwrite(&get_adolc_id(), sizeof(ADOLC_ID), 1,
+               tapeInfos_.locBuffer_.file()) != 1 ||
+        fwrite(tapestats().data(), TapeInfos::STAT_SIZE * sizeof(size_t), 1,
+               tapeInfos_.locBuffer_.file()) != 1 ||
+        !tapeInfos_.locBuffer_.closeFile())
+      fail(TAPING_FATAL_IO_ERROR, CURRENT_LOCATION);
     delete[] tapeInfos_.locBuffer_.releaseBuffer();
   } else {
     tapeInfos_.locBuffer_.numOnTape(tapeInfos_.locBuffer_.position());
-- 
2.43.0


From 1df49a1a7795779d790082950940b76266eb704f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:11 +0000
Subject: [PATCH 079/102] fix: read_tape_stats takes over the stats and closes
 the file

---
 ADOL-C/include/adolc/valuetape/valuetape.h |  5 ++---
 ADOL-C/src/valuetape/valuetape.cpp         | 16 +++++++++++-----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index d6fd013..432cc43 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -207,9 +207,8 @@ public:
   /* tape_stat[9] = # of saved constant values. */
   /* tape_stat[10]= value file access flag (1 = file in use, 0 otherwise) */
   /****************************************************************************/
-  void tapestats(std::array<size_t, TapeInfos::STAT_SIZE> stats) {
-    std::copy(tapeInfos_.stats.cbegin(), tapeInfos_.stats.cend(),
-              stats.begin());
+  void tapestats(const std::array<size_t, TapeInfos::STAT_SIZE> &stats) {
+    tapeInfos_.stats = stats;
   }
   void tapestats(size_t *stats) {
     std::copy(tapeInfos_.stats.cbegin(), tapeInfos_.stats.cend(), stats);
diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 61d78ee..ac22254 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -605,17 +605,23 @@ void ValueTape::read_tape_stats() {
   using ADOLCError::ErrorType::TAPING_TAPE_STILL_IN_USE;
 
   ADOLC_ID tape_ADOLC_ID{};
+  // the current stats are kept if reading fails
+  auto stats = tapestats();
   FILE *loc_file = fopen(loc_fileName(), "rb");
-  if (loc_file == nullptr ||
-      (fread(&tape_ADOLC_ID, sizeof(ADOLC_ID), 1, loc_file) != 1) ||
-      (fread(tapestats().data(), TapeInfos::STAT_SIZE * sizeof(size_t), 1,
-             loc_file) != 1)) {
+  const bool complete =
+      loc_file != nullptr &&
+      fread(&tape_ADOLC_ID, sizeof(ADOLC_ID), 1, loc_file) == 1 &&
+      fread(stats.data(), TapeInfos::STAT_SIZE * sizeof(size_t), 1, loc_file) ==
+          1;
+  if (loc_file != nullptr)
+    fclose(loc_file);
+  if (!complete) {
     fail(INTEGER_TAPE_FOPEN_FAILED, CURRENT_LOCATION,
          FailInfo{.info1 = tapeId()});
   }
 
   compare_adolc_ids(get_adolc_id(), tape_ADOLC_ID);
-  fclose(loc_file);
+  tapestats(stats);
   // parameters already in memory may have been changed by set_param_vec
   if (tapestats(TapeInfos::NUM_PARAM) > 0 && !paramstore())
     read_params();
-- 
2.43.0


From b039e09fb4a4847b3f04fe653e2c234bc7be007b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:11 +0000
Subject: [PATCH 080/102] fix: evaluating a trace without recording is an error
 instead of an endless loop

---
 ADOL-C/src/valuetape/valuetape.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index ac22254..86dd181 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -97,12 +97,17 @@ int ValueTape::initNewTape() {
 void ValueTape::openTape() {
   using ADOLCError::fail;
   using ADOLCError::FailInfo;
+  using ADOLCError::ErrorType::INTEGER_TAPE_FOPEN_FAILED;
   using ADOLCError::ErrorType::TAPING_TAPE_STILL_IN_USE;
   // check if we are currently writing to the tape, which is not allowed when we
   // want to read.
   if (workMode() == TapeInfos::WRITE_ACCESS) {
     fail(TAPING_TAPE_STILL_IN_USE, CURRENT_LOCATION,
          FailInfo{.info1 = tapeId()});
+  } else if (tapestats(TapeInfos::NUM_OPERATIONS) == 0) {
+    // nothing has been recorded
+    fail(INTEGER_TAPE_FOPEN_FAILED, CURRENT_LOCATION,
+         FailInfo{.info1 = tapeId()});
   } else if (keepTaylors() == 0 && tapestats(TapeInfos::OP_FILE_ACCESS) == 1 &&
              tapestats(TapeInfos::LOC_FILE_ACCESS) == 1 &&
              tapestats(TapeInfos::VAL_FILE_ACCESS) == 1) {
-- 
2.43.0


From 291c4b6be646292903e593e7d61b5d3f0233023f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:12 +0000
Subject: [PATCH 081/102] fix: an incomplete recording is discarded and the
 current trace restored

---
 ADOL-C/include/adolc/valuetape/tapeinfos.h |  6 ++++
 ADOL-C/include/adolc/valuetape/valuetape.h |  6 ++++
 ADOL-C/src/tape_interface.cpp              | 34 +++++++++++++++++++---
 ADOL-C/src/valuetape/tapeinfos.cpp         |  4 ++-
 ADOL-C/src/valuetape/valuetape.cpp         | 20 +++++++++++++
 5 files changed, 65 insertions(+), 5 deletions(-)

diff --git a/ADOL-C/include/adolc/valuetape/tapeinfos.h b/ADOL-C/include/adolc/valuetape/tapeinfos.h
index 0e4a5f7..dc9c7cb 100644
--- a/ADOL-C/include/adolc/valuetape/tapeinfos.h
+++ b/ADOL-C/include/adolc/valuetape/tapeinfos.h
@@ -69,6 +69,8 @@ struct TapeInfos {
   // degree to save and saved respectively, -1 if nothing is kept
   int deg_keep{-1};
   int deg_save{-1};
+  // a block could not be written, the recording cannot be completed
+  bool writeFailed{false};
   // # of directions on the taylor stack
   int tay_numDirs{1};
   // # of independents for the taylor stack
@@ -242,6 +244,9 @@ struct TapeInfos {
     using ADOLCError::ErrorType::CANNOT_REMOVE_FILE;
     using ADOLCError::ErrorType::TAPING_FATAL_IO_ERROR;
 
+    // reset at the end unless an error is raised
+    const bool alreadyFailed = writeFailed;
+    writeFailed = true;
     openFile<Info>(fileName);
     const size_t numChunks = lengthBlock / Info::chunkSize;
 
@@ -264,6 +269,7 @@ struct TapeInfos {
 
     Info::setNum(*this, Info::getNum(*this) + lengthBlock);
     Info::setCurr(*this, 0);
+    writeFailed = alreadyFailed;
   }
   // functions for handling val tape
 
diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index 432cc43..cc14b3d 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -841,6 +841,12 @@ public:
   // stop Tracing, clean up, and turn off trace_flag
   void stop_trace(int flag);
 
+  // true if a part of the current recording could not be stored
+  bool writeFailed() const { return tapeInfos_.writeFailed; }
+
+  // ends a recording that cannot be completed, nothing of it is kept
+  void discard_trace();
+
   /* initializes a new tape
    * - returns 0 on success
    * - returns 1 in case tapeId is already/still in use */
diff --git a/ADOL-C/src/tape_interface.cpp b/ADOL-C/src/tape_interface.cpp
index a4fe036..c9bd586 100644
--- a/ADOL-C/src/tape_interface.cpp
+++ b/ADOL-C/src/tape_interface.cpp
@@ -36,14 +36,34 @@
 #include "ampi/tape/support.h"
 #endif // ADOLC_AMPI_SUPPORT
 
+namespace {
+// Restores the tape that was current before trace_on. If the recording could
+// not be started or completed because of an exception, it is discarded.
+struct RecordingGuard {
+  ValueTape &tape;
+  bool recording = false;
+  bool keepCurrent = false;
+  ~RecordingGuard() {
+    if (keepCurrent)
+      return;
+    if (recording)
+      tape.discard_trace();
+    setCurrentTape(currentTapeStack().top());
+    currentTapeStack().pop();
+  }
+};
+} // namespace
+
 int trace_on(short tapeId, int keepTaylors) {
 
   ValueTape &tape = findTape(tapeId);
   // store Id to restore it after trace_off
   currentTapeStack().push(currentTapePtr());
+  RecordingGuard guard{tape};
   setCurrentTape(tapeId);
 
   int retval = tape.initNewTape();
+  guard.recording = true;
 #ifdef ADOLC_MEDIPACK_SUPPORT
   tape.mediInitTape(tapeId);
 #endif
@@ -56,6 +76,7 @@ int trace_on(short tapeId, int keepTaylors) {
   tape.start_trace();
   tape.take_stock(); /* record all existing adoubles on the tape */
 
+  guard.keepCurrent = true;
   return retval;
 }
 
@@ -65,9 +86,11 @@ int trace_on(short tapeId, int keepTaylors, size_t obs, size_t lbs, size_t vbs,
   ValueTape &tape = findTape(tapeId);
   // store Id to restore it after trace_off
   currentTapeStack().push(currentTapePtr());
+  RecordingGuard guard{tape};
   setCurrentTape(tapeId);
 
   tape.initNewTape();
+  guard.recording = true;
 #ifdef ADOLC_MEDIPACK_SUPPORT
   tape.mediInitTape(tapeId);
 #endif
@@ -84,26 +107,29 @@ int trace_on(short tapeId, int keepTaylors, size_t obs, size_t lbs, size_t vbs,
     tape.deg_save(1);
   tape.start_trace();
   tape.take_stock(); /* record all existing adoubles on the tape */
+  guard.keepCurrent = true;
   return 1;
 }
 
 void trace_off(int flag) {
   using ADOLCError::fail;
   using ADOLCError::FailInfo;
+  using ADOLCError::ErrorType::TAPING_FATAL_IO_ERROR;
   using ADOLCError::ErrorType::TAPING_NOT_ACTUALLY_TAPING;
 
   ValueTape &tape = currentTape();
   if (tape.workMode() != TapeInfos::WRITE_ACCESS)
     fail(TAPING_NOT_ACTUALLY_TAPING, CURRENT_LOCATION,
          FailInfo{.info1 = tape.tapeId()});
+  // restores previous tapeId and deletes it
+  RecordingGuard guard{tape, true};
+  if (tape.writeFailed())
+    fail(TAPING_FATAL_IO_ERROR, CURRENT_LOCATION);
   tape.keepTape(flag);
   tape.keep_stock(); /* copy remaining live variables + trace_flag = 0 */
   tape.stop_trace(flag);
   tape.workMode(TapeInfos::NO_MODE);
-
-  // restore previous tapeId and delete it
-  setCurrentTape(currentTapeStack().top());
-  currentTapeStack().pop();
+  guard.recording = false;
 }
 
 void cachedTraceTags(std::vector<short> &result) {
diff --git a/ADOL-C/src/valuetape/tapeinfos.cpp b/ADOL-C/src/valuetape/tapeinfos.cpp
index 57f0c4b..b374c3b 100644
--- a/ADOL-C/src/valuetape/tapeinfos.cpp
+++ b/ADOL-C/src/valuetape/tapeinfos.cpp
@@ -21,7 +21,8 @@ TapeInfos::TapeInfos(TapeInfos &&other) noexcept
       keepTaylors(other.keepTaylors), num_eq_prod(other.num_eq_prod),
       nextBufferNumber(other.nextBufferNumber),
       lastTayBlockInCore(other.lastTayBlockInCore), deg_keep(other.deg_keep),
-      deg_save(other.deg_save), tay_numDirs(other.tay_numDirs),
+      deg_save(other.deg_save), writeFailed(other.writeFailed),
+      tay_numDirs(other.tay_numDirs),
       tay_numInds(other.tay_numInds), tay_numDeps(other.tay_numDeps),
       workMode(other.workMode), ext_diff_fct_index(other.ext_diff_fct_index),
       nestedReverseEval(other.nestedReverseEval),
@@ -52,6 +53,7 @@ TapeInfos &TapeInfos::operator=(TapeInfos &&other) noexcept {
 
     deg_keep = other.deg_keep;
     deg_save = other.deg_save;
+    writeFailed = other.writeFailed;
     tay_numDirs = other.tay_numDirs;
     tay_numInds = other.tay_numInds;
     tay_numDeps = other.tay_numDeps;
diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index 86dd181..bbe41be 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -394,10 +394,30 @@ void ValueTape::stop_trace(int flag) {
                        tape stats to the integer tape */
 }
 
+/****************************************************************************/
+/* Ends a recording that cannot be completed. The tape is left without      */
+/* independents and dependents, as if nothing had been recorded yet.        */
+/****************************************************************************/
+void ValueTape::discard_trace() {
+  tapeInfos_.opBuffer_.closeFile();
+  tapeInfos_.valBuffer_.closeFile();
+  tapeInfos_.locBuffer_.closeFile();
+  finish_tay_file();
+  keepTaylors(0);
+  // parameters belong to the recording
+  tapestats(TapeInfos::NUM_PARAM, numparam());
+  free_all_taping_params();
+  tapestats(std::array<size_t, TapeInfos::STAT_SIZE>{});
+  workMode(TapeInfos::NO_MODE);
+}
+
 /****************************************************************************/
 /* Close open tapes, update stats and clean up.                             */
 /****************************************************************************/
 void ValueTape::close_tape(int flag) {
+  using ADOLCError::fail;
+  using ADOLCError::ErrorType::TAPING_FATAL_IO_ERROR;
+
   /* finish operations tape, close it, update stats */
   if (flag != 0 || (tapeInfos_.opBuffer_.file() != nullptr)) {
     if (tapeInfos_.opBuffer_.position() > 0) {
-- 
2.43.0


From c588ee498f715826a55d03cc98bbcf2abff9e92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:52 +0000
Subject: [PATCH 082/102] fix: adolc_vec_dot is declared as it is defined

---
 ADOL-C/include/adolc/adtb_types.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ADOL-C/include/adolc/adtb_types.h b/ADOL-C/include/adolc/adtb_types.h
index 63b0dd5..8ad1c1c 100644
--- a/ADOL-C/include/adolc/adtb_types.h
+++ b/ADOL-C/include/adolc/adtb_types.h
@@ -1106,9 +1106,9 @@ ADOLC_API inline adouble atan2(const adouble &a, const adouble &b) {
 void ADOLC_API adolc_vec_copy(adouble *const dest, const adouble *const src,
                               size_t size);
 
-// computes canonical scalarproduct, src and dest must have size "size"
-void ADOLC_API adolc_vec_dot(adouble *const dest, const adouble *const src,
-                             size_t size);
+// computes canonical scalarproduct, vec_a and vec_b must have size "size"
+ADOLC_API adouble adolc_vec_dot(const adouble *const vec_a,
+                                const adouble *const vec_b, size_t size);
 
 // res = a*vec_a + vec_b, vec_a and vec_b must have same size "size"
 void ADOLC_API adolc_vec_axpy(adouble *const res, const adouble &a,
-- 
2.43.0


From 12da2e11a6902d46219e6ccd446b81a8f7102a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:52 +0000
Subject: [PATCH 083/102] fix: tape_doc rows of external functions have all
 their columns

---
 ADOL-C/src/tapedoc/tapedoc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/src/tapedoc/tapedoc.cpp b/ADOL-C/src/tapedoc/tapedoc.cpp
index 567ec40..6578ef0 100644
--- a/ADOL-C/src/tapedoc/tapedoc.cpp
+++ b/ADOL-C/src/tapedoc/tapedoc.cpp
@@ -125,7 +125,7 @@ void filewrite(unsigned short opcode, const char *opString, int nloc,
       fprintf(fp, " %zu &", loc[i]);
   } else { /* ext_diff */
     fprintf(fp, " fctn %zu &", loc[0]);
-    for (i = 1; i < (4 - nloc); i++)
+    for (i = 0; i < (4 - nloc); i++)
       fprintf(fp, " &");
     for (i = 1; i < nloc; i++)
       fprintf(fp, " %zu &", loc[i]);
-- 
2.43.0


From c75f1044747dde3f781d9046a6c2db670d37b963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:52 +0000
Subject: [PATCH 084/102] fix: tape_doc reads vector operations in the order of
 their recording

---
 ADOL-C/src/tapedoc/tapedoc.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/ADOL-C/src/tapedoc/tapedoc.cpp b/ADOL-C/src/tapedoc/tapedoc.cpp
index 6578ef0..3a5af6a 100644
--- a/ADOL-C/src/tapedoc/tapedoc.cpp
+++ b/ADOL-C/src/tapedoc/tapedoc.cpp
@@ -1194,12 +1194,12 @@ void tape_doc(short tnum,     /* tape id */
       break;
 
     case vec_copy:
-      res = tape.get_locint_f();
       arg = tape.get_locint_f();
       size = tape.get_locint_f();
-      loc_a[0] = res;
-      loc_a[1] = arg;
-      loc_a[2] = size;
+      res = tape.get_locint_f();
+      loc_a[0] = arg;
+      loc_a[1] = size;
+      loc_a[2] = res;
 #ifdef ADOLC_TAPE_DOC_VALUES
       for (qq = 0; qq < size; qq++)
         dp_T0[res + qq] = dp_T0[arg + qq];
@@ -1208,14 +1208,14 @@ void tape_doc(short tnum,     /* tape id */
       break;
 
     case vec_dot:
-      res = tape.get_locint_f();
       arg1 = tape.get_locint_f();
       arg2 = tape.get_locint_f();
       size = tape.get_locint_f();
-      loc_a[0] = res;
-      loc_a[1] = arg1;
-      loc_a[2] = arg2;
-      loc_a[3] = size;
+      res = tape.get_locint_f();
+      loc_a[0] = arg1;
+      loc_a[1] = arg2;
+      loc_a[2] = size;
+      loc_a[3] = res;
 #ifdef ADOLC_TAPE_DOC_VALUES
       dp_T0[res] = 0;
       for (qq = 0; qq < size; qq++)
@@ -1226,22 +1226,22 @@ void tape_doc(short tnum,     /* tape id */
       break;
 
     case vec_axpy:
-      res = tape.get_locint_f();
       arg = tape.get_locint_f();
       arg1 = tape.get_locint_f();
       arg2 = tape.get_locint_f();
       size = tape.get_locint_f();
-      loc_a[0] = res;
-      loc_a[1] = arg;
+      res = tape.get_locint_f();
+      loc_a[0] = arg;
       loc_a[1] = arg1;
       loc_a[2] = arg2;
-      loc_a[3] = size;
+      loc_a[3] = res;
+      cst_d[0] = static_cast<double>(size);
 #ifdef ADOLC_TAPE_DOC_VALUES
       val_a[0] = dp_T0[arg];
       for (qq = 0; qq < size; qq++)
         dp_T0[res + qq] = dp_T0[arg] * dp_T0[arg1 + qq] + dp_T0[arg2 + qq];
 #endif
-      filewrite(operation, "vec axpy $\\longrightarrow$", 4, loc_a, 0, cst_d);
+      filewrite(operation, "vec axpy $\\longrightarrow$", 4, loc_a, 1, cst_d);
       break;
 
       /****************************************************************************/
-- 
2.43.0


From a7d1d297ac91e2b5220c060a715ed708ba7b484a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:52 +0000
Subject: [PATCH 085/102] fix: tape_doc renders conditional, parameter and
 subscript operations

---
 ADOL-C/src/tapedoc/tapedoc.cpp | 107 +++++++++++++++++++++++++++++++++
 1 file changed, 107 insertions(+)

diff --git a/ADOL-C/src/tapedoc/tapedoc.cpp b/ADOL-C/src/tapedoc/tapedoc.cpp
index 3a5af6a..94b9ed7 100644
--- a/ADOL-C/src/tapedoc/tapedoc.cpp
+++ b/ADOL-C/src/tapedoc/tapedoc.cpp
@@ -287,6 +287,15 @@ void tape_doc(short tnum,     /* tape id */
 
   dp_T0 = myalloc1(tape.tapestats(TapeInfos::NUM_MAX_LIVES));
 
+  /* for operations all of whose locations and constants are written */
+  auto readAndWrite = [&](const char *opString, int nloc, int ncst) {
+    for (int l = 0; l < nloc; ++l)
+      loc_a[l] = tape.get_locint_f();
+    for (int l = 0; l < ncst; ++l)
+      cst_d[l] = tape.get_val_f();
+    filewrite(operation, opString, nloc, loc_a, ncst, cst_d);
+  };
+
   operation = tape.get_op_f();
   ++op_cnt;
   --rev_op_cnt;
@@ -1244,6 +1253,104 @@ void tape_doc(short tnum,     /* tape id */
       filewrite(operation, "vec axpy $\\longrightarrow$", 4, loc_a, 1, cst_d);
       break;
 
+    case cond_eq_assign:
+      readAndWrite("cond eq assign $\\longrightarrow$", 4, 1);
+      break;
+    case cond_eq_assign_s:
+      readAndWrite("cond eq assign s $\\longrightarrow$", 3, 1);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+    case assign_p: /* assign an adouble variable a parameter  assign_p */
+      loc_a[0] = tape.get_locint_f(); /* index of the parameter */
+      loc_a[1] = tape.get_locint_f();
+      cst_d[0] = tape.paramstore()[loc_a[0]];
+      filewrite(operation, "assign p", 2, loc_a, 1, cst_d);
+      break;
+
+      /*--------------------------------------------------------------------------*/
+      /* active subscripting, the constant is the length of the vector */
+    case subscript:
+      readAndWrite("subscript", 3, 1);
+      break;
+    case subscript_ref:
+      readAndWrite("subscript ref", 3, 1);
+      break;
+    case ref_copyout:
+      readAndWrite("ref copyout", 2, 0);
+      break;
+    case ref_incr_a:
+      readAndWrite("ref incr a", 1, 0);
+      break;
+    case ref_decr_a:
+      readAndWrite("ref decr a", 1, 0);
+      break;
+    case ref_assign_d:
+      readAndWrite("ref assign d", 1, 1);
+      break;
+    case ref_assign_d_zero:
+      readAndWrite("ref assign d zero", 1, 0);
+      break;
+    case ref_assign_d_one:
+      readAndWrite("ref assign d one", 1, 0);
+      break;
+    case ref_assign_a:
+      readAndWrite("ref assign a", 2, 0);
+      break;
+    case ref_assign_ind:
+      readAndWrite("ref assign ind", 1, 0);
+      break;
+    case ref_eq_plus_d:
+      readAndWrite("ref eq plus d", 1, 1);
+      break;
+    case ref_eq_plus_a:
+      readAndWrite("ref eq plus a", 2, 0);
+      break;
+    case ref_eq_min_d:
+      readAndWrite("ref eq min d", 1, 1);
+      break;
+    case ref_eq_min_a:
+      readAndWrite("ref eq min a", 2, 0);
+      break;
+    case ref_eq_mult_d:
+      readAndWrite("ref eq mult d", 1, 1);
+      break;
+    case ref_eq_mult_a:
+      readAndWrite("ref eq mult a", 2, 0);
+      break;
+    case ref_cond_assign:
+      readAndWrite("ref cond assign $\\longrightarrow$", 4, 1);
+      break;
+    case ref_cond_assign_s:
+      readAndWrite("ref cond assign s $\\longrightarrow$", 3, 1);
+      break;
+    case ref_cond_eq_assign:
+      readAndWrite("ref cond eq assign $\\longrightarrow$", 4, 1);
+      break;
+    case ref_cond_eq_assign_s:
+      readAndWrite("ref cond eq assign s $\\longrightarrow$", 3, 1);
+      break;
+#if defined(ADOLC_ADVANCED_BRANCHING)
+    case neq_a_a:
+      readAndWrite("neq a a", 3, 1);
+      break;
+    case eq_a_a:
+      readAndWrite("eq a a", 3, 1);
+      break;
+    case le_a_a:
+      readAndWrite("le a a", 3, 1);
+      break;
+    case ge_a_a:
+      readAndWrite("ge a a", 3, 1);
+      break;
+    case lt_a_a:
+      readAndWrite("lt a a", 3, 1);
+      break;
+    case gt_a_a:
+      readAndWrite("gt a a", 3, 1);
+      break;
+#endif
+
       /****************************************************************************/
       /*                                                          REMAINING
        * STUFF */
-- 
2.43.0


From 488957a05a431dfcb8a16032698f34daba99b248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:51 +0000
Subject: [PATCH 086/102] fix: switching the min/max mode while recording is
 refused

---
 ADOL-C/include/adolc/valuetape/valuetape.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index cc14b3d..8bd2c41 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -404,7 +404,7 @@ public:
     globalTapeVars_.branchSwitchWarning = 0;
   }
   void enableMinMaxUsingAbs() {
-    if (workMode() != TapeInfos::READ_ACCESS)
+    if (workMode() != TapeInfos::WRITE_ACCESS)
       globalTapeVars_.nominmaxFlag = 1;
     else
       ADOLCError::fail(ADOLCError::ErrorType::ENABLE_MINMAX_USING_ABS,
@@ -412,7 +412,7 @@ public:
   }
 
   void disableMinMaxUsingAbs() {
-    if (workMode() != TapeInfos::READ_ACCESS)
+    if (workMode() != TapeInfos::WRITE_ACCESS)
       globalTapeVars_.nominmaxFlag = 0;
     else
       ADOLCError::fail(ADOLCError::ErrorType::DISABLE_MINMAX_USING_ABS,
-- 
2.43.0


From bd96902f180fc9c2facd064b9b1088ad50c1f677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:51 +0000
Subject: [PATCH 087/102] fix: a refused access of an advector records nothing

---
 ADOL-C/src/advector.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/ADOL-C/src/advector.cpp b/ADOL-C/src/advector.cpp
index d46104c..f4978e1 100644
--- a/ADOL-C/src/advector.cpp
+++ b/ADOL-C/src/advector.cpp
@@ -453,6 +453,11 @@ adouble advector::operator[](const adouble &index) const {
 
   ValueTape &tape = currentTape();
   const size_t idx = (size_t)trunc(fabs(index.value()));
+  // nothing may be recorded for a refused access
+  if (idx >= size())
+    ADOLCError::fail(ADOLCError::ErrorType::ADUBREF_OOB, CURRENT_LOCATION,
+                     ADOLCError::FailInfo{.info5 = size(), .info6 = idx});
+
   adouble ret_adouble;
 
   if (tape.workMode() == TapeInfos::WRITE_ACCESS) {
@@ -468,10 +473,6 @@ adouble advector::operator[](const adouble &index) const {
       tape.write_scaylor(ret_adouble.value());
   }
 
-  if (idx >= size())
-    ADOLCError::fail(ADOLCError::ErrorType::ADUBREF_OOB, CURRENT_LOCATION,
-                     ADOLCError::FailInfo{.info5 = size(), .info6 = idx});
-
   ret_adouble.value(data_[idx].value());
   return ret_adouble;
 }
@@ -486,8 +487,13 @@ adubref advector::operator[](const adouble &index) {
 
   ValueTape &tape = currentTape();
   const size_t idx = (size_t)trunc(fabs(index.value()));
-  size_t locat = tape.next_loc();
   size_t n = data_.size();
+  // nothing may be recorded for a refused access
+  if (idx >= n)
+    ADOLCError::fail(ADOLCError::ErrorType::ADUBREF_OOB, CURRENT_LOCATION,
+                     ADOLCError::FailInfo{.info5 = n, .info6 = idx});
+
+  size_t locat = tape.next_loc();
   if (tape.workMode() == TapeInfos::WRITE_ACCESS) {
     tape.put_op(subscript_ref);
     tape.put_loc(index.loc());
@@ -500,10 +506,6 @@ adubref advector::operator[](const adouble &index) {
       tape.write_scaylor(tape.get_ad_value(locat));
   }
 
-  if (idx >= n)
-    ADOLCError::fail(ADOLCError::ErrorType::ADUBREF_OOB, CURRENT_LOCATION,
-                     ADOLCError::FailInfo{.info5 = n, .info6 = idx});
-
   tape.set_ad_value(locat, static_cast<double>(data_[idx].loc()));
   return adubref(locat, data_[idx].loc());
 }
-- 
2.43.0


From c78e1e4d84f3e0a561cc2cae301d34001c7ed046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:51 +0000
Subject: [PATCH 088/102] fix: higher order reverse of external functions is
 refused by an error

---
 ADOL-C/src/ho_rev.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ADOL-C/src/ho_rev.cpp b/ADOL-C/src/ho_rev.cpp
index 46dcfd7..58d4726 100644
--- a/ADOL-C/src/ho_rev.cpp
+++ b/ADOL-C/src/ho_rev.cpp
@@ -2875,10 +2875,11 @@ int hov_ti_reverse(
     case ext_diff: /* extern differentiated function */
     {
       // TODO: higher-order reverse does not yet honor nestedReverseEval the way
-      // fo_rev.cpp does for nested reverse callbacks.
-      assert(false &&
-             "TODO: add nestedReverseEval accumulation semantics to ho_rev.cpp "
-             "before supporting nested higher-order reverse passes.");
+      // fo_rev.cpp does for nested reverse callbacks. Add its accumulation
+      // semantics before supporting nested higher-order reverse passes.
+      ADOLCError::fail(ADOLCError::ErrorType::HO_OP_NOT_IMPLEMENTED,
+                       CURRENT_LOCATION,
+                       ADOLCError::FailInfo{.info7 = operation});
 
       const size_t firstDep = tape.get_locint_r();
       const size_t firstInd = tape.get_locint_r();
-- 
2.43.0


From 74634754bbb236eaa456520600d9d1f8073a34f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:52 +0000
Subject: [PATCH 089/102] fix: higher order forward refuses to keep more than
 it computes

---
 ADOL-C/include/adolc/adolcerror.h | 1 +
 ADOL-C/src/adolcerror.cpp         | 6 ++++++
 ADOL-C/src/uni5_for.cpp           | 8 ++++++++
 3 files changed, 15 insertions(+)

diff --git a/ADOL-C/include/adolc/adolcerror.h b/ADOL-C/include/adolc/adolcerror.h
index 2276d38..d62a1b0 100644
--- a/ADOL-C/include/adolc/adolcerror.h
+++ b/ADOL-C/include/adolc/adolcerror.h
@@ -222,6 +222,7 @@ enum class ErrorType : size_t {
 
   FWD_COUNTS_MISMATCH,
   FWD_FO_KEEP,
+  FWD_HO_KEEP,
   FWD_ZO_KEEP,
 
   DIRGRAD_NOT_ENOUGH_DIRS,
diff --git a/ADOL-C/src/adolcerror.cpp b/ADOL-C/src/adolcerror.cpp
index 9b1c357..38128e9 100644
--- a/ADOL-C/src/adolcerror.cpp
+++ b/ADOL-C/src/adolcerror.cpp
@@ -573,6 +573,12 @@ void fail(ErrorType error, source_location LocInfo, const FailInfo &failinfo) {
                      LocInfo);
     break;
 
+  case to_underlying(ErrorType::FWD_HO_KEEP):
+    throw ADOLCError("ADOL-C error: higher order forward cannot save"
+                     " more \ntaylor coefficients than it computes!\n",
+                     LocInfo);
+    break;
+
   case to_underlying(ErrorType::FWD_ZO_KEEP):
     throw ADOLCError("ADOL-C error: zero order scalar forward cannot save"
                      " more \nthan zero order taylor coefficients!\n",
diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 7941804..6b3daca 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -1227,6 +1227,10 @@ int hov_forward(
   /*--------------------------------------------------------------------------*/
 #else /* HOS */
 #if defined(_HOS_)
+#if defined(_KEEP_)
+  if (keep > k + 1)
+    ADOLCError::fail(ADOLCError::ErrorType::FWD_HO_KEEP, CURRENT_LOCATION);
+#endif
   dpp_T = myalloc2(tape.tapestats(TapeInfos::NUM_MAX_LIVES), k);
 #define TAYLOR_BUFFER dpp_T
   dp_z = myalloc1(k);
@@ -1241,6 +1245,10 @@ int hov_forward(
 
   /*--------------------------------------------------------------------------*/
 #else /* HOV and HOV_WK */
+#if defined(_KEEP_)
+  if (keep > k + 1)
+    ADOLCError::fail(ADOLCError::ErrorType::FWD_HO_KEEP, CURRENT_LOCATION);
+#endif
   dpp_T = myalloc2(tape.tapestats(TapeInfos::NUM_MAX_LIVES), p * k);
 #define TAYLOR_BUFFER dpp_T
   dp_z = myalloc1(k);
-- 
2.43.0


From 54ab2fdddee9fb01f72ef1b04eae64b3dc4ea074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:52 +0000
Subject: [PATCH 090/102] fix: jac_solv and the tensor drivers refuse empty
 dimensions

---
 ADOL-C/src/drivers/taylor.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ADOL-C/src/drivers/taylor.cpp b/ADOL-C/src/drivers/taylor.cpp
index 239c30d..5f0d19f 100644
--- a/ADOL-C/src/drivers/taylor.cpp
+++ b/ADOL-C/src/drivers/taylor.cpp
@@ -13,6 +13,7 @@
 
 ----------------------------------------------------------------------------*/
 #include <adolc/adalloc.h>
+#include <adolc/adolcerror.h>
 #include <adolc/drivers/taylor.h>
 #include <adolc/interfaces.h>
 #include <adolc/tape_interface.h>
@@ -33,6 +34,20 @@ struct item {
   struct item *next; /* next item */
 };
 
+/****************************************************************************/
+/* the arrays of the drivers need at least one variable on each side        */
+static void checkDimensions(short tag, int m, int n) {
+  if (m < 1 || n < 1)
+    ADOLCError::fail(
+        ADOLCError::ErrorType::REVERSE_COUNTS_MISMATCH, CURRENT_LOCATION,
+        ADOLCError::FailInfo{
+            .info1 = tag,
+            .info3 = m,
+            .info4 = n,
+            .info5 = findTape(tag).tapestats(TapeInfos::NUM_DEPENDENTS),
+            .info6 = findTape(tag).tapestats(TapeInfos::NUM_INDEPENDENTS)});
+}
+
 /****************************************************************************/
 /*                                                     DEALLOCATE COEFFLIST */
 void freecoefflist(size_t dim, struct item *coeff_list) {
@@ -417,6 +432,7 @@ int jac_solv(unsigned short tag, int n, const double *x, double *b,
   int rc = 3;
   ValueTape &tape = findTape(tag);
 
+  checkDimensions(tag, n, n);
   y = myalloc1(n);
   if (n != tape.jacSolv_nax()) {
     if (tape.jacSolv_nax()) {
@@ -588,6 +604,7 @@ int inverse_Taylor_prop(short tag, int n, int d, double **Y, double **X) {
 /****************************************************************************/
 int inverse_tensor_eval(short tag, int n, int d, int p, double *x,
                         double **tensor, double **S) {
+  checkDimensions(tag, n, n);
   static thread_local int dold, pold;
   static thread_local struct item *coeff_list;
   int *it = (int *)malloc(d * sizeof(int));
@@ -686,6 +703,7 @@ int inverse_tensor_eval(short tag, int n, int d, int p, double *x,
 /****************************************************************************/
 int tensor_eval(short tag, int m, int n, int d, int p, double *x,
                 double **tensor, double **S) {
+  checkDimensions(tag, m, n);
   static thread_local int dold, pold;
   static thread_local struct item *coeff_list;
   int **jm;
-- 
2.43.0


From 25a8a96d244e36287b092fbd7f4fc9bd5d9f8934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:52 +0000
Subject: [PATCH 091/102] fix: external functions outside of a recording or
 without a function

---
 ADOL-C/include/adolc/adolcerror.h |  1 +
 ADOL-C/src/adolcerror.cpp         |  5 +++
 ADOL-C/src/checkpointing.cpp      | 33 ++++++++++++------
 ADOL-C/src/externfcts.cpp         | 58 +++++++++++++++++++++----------
 ADOL-C/src/externfcts2.cpp        | 58 ++++++++++++++++++++-----------
 5 files changed, 107 insertions(+), 48 deletions(-)

diff --git a/ADOL-C/include/adolc/adolcerror.h b/ADOL-C/include/adolc/adolcerror.h
index d62a1b0..a74aad3 100644
--- a/ADOL-C/include/adolc/adolcerror.h
+++ b/ADOL-C/include/adolc/adolcerror.h
@@ -161,6 +161,7 @@ enum class ErrorType : size_t {
   EXT_DIFF_NULLPOINTER_ARGUMENT,
   EXT_DIFF_WRONG_FUNCTION_INDEX,
   EXT_DIFF_LOCATIONGAP,
+  EXT_DIFF_WRONG_TAPE,
 
   CHECKPOINTING_CPINFOS_NULLPOINTER,
   CHECKPOINTING_NULLPOINTER_ARGUMENT,
diff --git a/ADOL-C/src/adolcerror.cpp b/ADOL-C/src/adolcerror.cpp
index 38128e9..3001fdf 100644
--- a/ADOL-C/src/adolcerror.cpp
+++ b/ADOL-C/src/adolcerror.cpp
@@ -206,6 +206,11 @@ void fail(ErrorType error, source_location LocInfo, const FailInfo &failinfo) {
                      " containing ext. diff. function information!\n",
                      LocInfo);
     break;
+  case to_underlying(ErrorType::EXT_DIFF_WRONG_TAPE):
+    oss << "ADOL-C error: An external function of tape " << failinfo.info2
+        << " was called while recording tape " << failinfo.info3 << "!\n";
+    throw ADOLCError(oss.str(), LocInfo);
+    break;
   case to_underlying(ErrorType::EXT_DIFF_WRONG_TAPESTATS):
     throw ADOLCError(
         "ADOL-C error: Number of independents/dependents recorded on"
diff --git a/ADOL-C/src/checkpointing.cpp b/ADOL-C/src/checkpointing.cpp
index 2421588..ca2c229 100644
--- a/ADOL-C/src/checkpointing.cpp
+++ b/ADOL-C/src/checkpointing.cpp
@@ -221,6 +221,7 @@ void checkInput(short tapeId, detail::Infos *cpInfos) {
   using ADOLCError::ErrorType::CHECKPOINTING_NULLPOINTER_FUNCTION;
   using ADOLCError::ErrorType::CHECKPOINTING_NULLPOINTER_FUNCTION_DOUBLE;
   using ADOLCError::ErrorType::CP_TAPE_MISMATCH;
+  using ADOLCError::ErrorType::EXT_DIFF_WRONG_TAPE;
 
   if (cpInfos == nullptr)
     fail(CHECKPOINTING_CPINFOS_NULLPOINTER, CURRENT_LOCATION);
@@ -231,8 +232,14 @@ void checkInput(short tapeId, detail::Infos *cpInfos) {
     fail(CHECKPOINTING_NULLPOINTER_FUNCTION, CURRENT_LOCATION);
   if (cpInfos->function_double == nullptr)
     fail(CHECKPOINTING_NULLPOINTER_FUNCTION_DOUBLE, CURRENT_LOCATION);
-  if (cpInfos->adp_x == nullptr)
+  if (cpInfos->adp_x == nullptr || cpInfos->adp_y == nullptr)
     fail(CHECKPOINTING_NULLPOINTER_ARGUMENT, CURRENT_LOCATION);
+  const ValueTape &tape = findTape(tapeId);
+  if (tape.workMode() != TapeInfos::WRITE_ACCESS &&
+      currentTape().workMode() == TapeInfos::WRITE_ACCESS)
+    fail(EXT_DIFF_WRONG_TAPE, CURRENT_LOCATION,
+         FailInfo{.info2 = to_size_t(tape.tapeId()),
+                  .info3 = currentTape().tapeId()});
 }
 
 /****************************************************************************/
@@ -727,14 +734,19 @@ int Context::checkpointing(short tapeId) {
   // but we do not call it
   // we use direct taping to avoid unnecessary argument copying
 
-  tape.put_op(ext_diff);
-  tape.put_loc(edf->index);
-  tape.put_loc(cpInfos->dim);
-  tape.put_loc(cpInfos->dim);
   edf->firstIndLocation = cpInfos->adp_x[0].loc();
   edf->firstDepLocation = cpInfos->adp_y[0].loc();
-  tape.put_loc(edf->firstIndLocation);
-  tape.put_loc(edf->firstDepLocation);
+
+  // a call outside of a recording only computes values
+  const bool recording = tape.workMode() == TapeInfos::WRITE_ACCESS;
+  if (recording) {
+    tape.put_op(ext_diff);
+    tape.put_loc(edf->index);
+    tape.put_loc(cpInfos->dim);
+    tape.put_loc(cpInfos->dim);
+    tape.put_loc(edf->firstIndLocation);
+    tape.put_loc(edf->firstDepLocation);
+  }
 
   std::vector<double> vals(tape.store(), tape.store() + tape.storeSize());
 
@@ -745,7 +757,7 @@ int Context::checkpointing(short tapeId) {
   for (int i = 0; i < cpInfos->dim; ++i)
     state[i] = cpInfos->adp_x[i].value();
 
-  if (tape.keepTaylors()) {
+  if (recording && tape.keepTaylors()) {
     // perform all time steps, take checkpoints
     cpInfos->saveStart();
     cpInfos->revolveForward();
@@ -757,8 +769,9 @@ int Context::checkpointing(short tapeId) {
 
   // update taylor stack; same structure as in adouble.cpp +
   // correction in taping.cpp
-  tape.add_numTays_Tape(cpInfos->dim);
-  if (tape.keepTaylors())
+  if (recording)
+    tape.add_numTays_Tape(cpInfos->dim);
+  if (recording && tape.keepTaylors())
     for (int i = 0; i < cpInfos->dim; ++i)
       tape.write_scaylor(cpInfos->adp_y[i].value());
 
diff --git a/ADOL-C/src/externfcts.cpp b/ADOL-C/src/externfcts.cpp
index 43c1a83..760d2da 100644
--- a/ADOL-C/src/externfcts.cpp
+++ b/ADOL-C/src/externfcts.cpp
@@ -61,26 +61,39 @@ void check_input(ext_diff_fct *edfct, int n, adouble *xa, int m, adouble *ya) {
   if (hasLocationGap(xa, n) || hasLocationGap(ya, m))
     ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_LOCATIONGAP,
                      CURRENT_LOCATION);
+  const ValueTape &tape = findTape(edfct->tapeId);
+  if (tape.workMode() != TapeInfos::WRITE_ACCESS &&
+      currentTape().workMode() == TapeInfos::WRITE_ACCESS)
+    ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_WRONG_TAPE,
+                     CURRENT_LOCATION,
+                     ADOLCError::FailInfo{.info2 = to_size_t(tape.tapeId()),
+                                          .info3 = currentTape().tapeId()});
 }
 
 void call_ext_fct_commonPrior(ext_diff_fct *edfct, int n, adouble *xa, int m,
                               adouble *ya, std::vector<double> &vals) {
   ValueTape &tape = findTape(edfct->tapeId);
-
-  tape.put_loc(edfct->index);
-  // The ext-diff shape is stored per taped operation, not on the edfct
-  // itself. Reusing the same edfct for multiple calls on one tape must remain
-  // correct even if different calls use different m/n.
-  tape.put_loc(to_size_t(n));
-  tape.put_loc(to_size_t(m));
+  // a call outside of a recording only computes values
+  const bool recording = tape.workMode() == TapeInfos::WRITE_ACCESS;
+
+  if (recording) {
+    tape.put_loc(edfct->index);
+    // The ext-diff shape is stored per taped operation, not on the edfct
+    // itself. Reusing the same edfct for multiple calls on one tape must remain
+    // correct even if different calls use different m/n.
+    tape.put_loc(to_size_t(n));
+    tape.put_loc(to_size_t(m));
+  }
 
   // store the index of the first location of input and output variables to
   // later find the right position to read (write) from (to) the taylor
   // coefficient buffers. These belong to the call as well.
   edfct->firstDepLocation = ya->loc();
   edfct->firstIndLocation = xa->loc();
-  tape.put_loc(edfct->firstIndLocation);
-  tape.put_loc(edfct->firstDepLocation);
+  if (recording) {
+    tape.put_loc(edfct->firstIndLocation);
+    tape.put_loc(edfct->firstDepLocation);
+  }
 
   if (edfct->nestedAdolc) {
     vals.assign(tape.store(), tape.store() + tape.storeSize());
@@ -89,13 +102,13 @@ void call_ext_fct_commonPrior(ext_diff_fct *edfct, int n, adouble *xa, int m,
   /* update taylor buffer if keep != 0 ; possible double counting as in
    * adouble.cpp => correction in taping.cpp */
 
-  if (edfct->dp_x_changes)
+  if (recording && edfct->dp_x_changes)
     tape.add_numTays_Tape(to_size_t(n));
 
-  if (edfct->dp_y_priorRequired)
+  if (recording && edfct->dp_y_priorRequired)
     tape.add_numTays_Tape(to_size_t(m));
 
-  if (tape.keepTaylors()) {
+  if (recording && tape.keepTaylors()) {
     if (edfct->dp_x_changes)
       for (int i = 0; i < n; ++i)
         tape.write_scaylor(xa[i].value());
@@ -131,10 +144,14 @@ int call_ext_fct(ext_diff_fct *edfct, int n, adouble *xa, int m, adouble *ya) {
 
   // nothing may be recorded for a refused call
   check_input(edfct, n, xa, m, ya);
+  if (!edfct->function)
+    ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_NULLPOINTER_FUNCTION,
+                     CURRENT_LOCATION);
 
   ValueTape &tape = findTape(edfct->tapeId);
 
-  tape.put_op(ext_diff);
+  if (tape.workMode() == TapeInfos::WRITE_ACCESS)
+    tape.put_op(ext_diff);
 
   call_ext_fct_commonPrior(edfct, n, xa, m, ya, vals);
   x = myalloc1(to_size_t(n));
@@ -166,15 +183,20 @@ int call_ext_fct(ext_diff_fct *edfct, size_t iArrLength, size_t *iArr, int n,
 
   // nothing may be recorded for a refused call
   check_input(edfct, n, xa, m, ya);
+  if (!edfct->function_iArr)
+    ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_NULLPOINTER_FUNCTION,
+                     CURRENT_LOCATION);
 
   ValueTape &tape = findTape(edfct->tapeId);
-  tape.put_op(ext_diff_iArr, iArrLength + 2);
-  tape.put_loc(iArrLength);
+  if (tape.workMode() == TapeInfos::WRITE_ACCESS) {
+    tape.put_op(ext_diff_iArr, iArrLength + 2);
+    tape.put_loc(iArrLength);
 
-  for (size_t i = 0; i < iArrLength; ++i)
-    tape.put_loc(iArr[i]);
+    for (size_t i = 0; i < iArrLength; ++i)
+      tape.put_loc(iArr[i]);
 
-  tape.put_loc(iArrLength); // do it again so we can read in either direction
+    tape.put_loc(iArrLength); // do it again so we can read in either direction
+  }
 
   call_ext_fct_commonPrior(edfct, n, xa, m, ya, vals);
   x = myalloc1(to_size_t(n));
diff --git a/ADOL-C/src/externfcts2.cpp b/ADOL-C/src/externfcts2.cpp
index e810ce3..2aef6d2 100644
--- a/ADOL-C/src/externfcts2.cpp
+++ b/ADOL-C/src/externfcts2.cpp
@@ -15,6 +15,7 @@
 #include <adolc/adalloc.h>
 #include <adolc/adtb_types.h>
 #include <adolc/edfclasses.h>
+#include <adolc/internal/common.h>
 #include <adolc/oplate.h>
 #include <adolc/tape_interface.h>
 #include <adolc/valuetape/valuetape.h>
@@ -94,31 +95,48 @@ int call_ext_fct(ext_diff_fct_v2 *edfct, size_t iArrLen, size_t *iArr,
   std::vector<double> vals;
 
   // nothing may be recorded for a refused call
+  if (!edfct)
+    ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_NULLPOINTER_STRUCT,
+                     CURRENT_LOCATION);
+  if (!edfct->function)
+    ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_NULLPOINTER_FUNCTION,
+                     CURRENT_LOCATION);
   for (size_t i = 0; i < nin; i++)
     check_locations(x[i], insz[i]);
   for (size_t i = 0; i < nout; i++)
     check_locations(y[i], outsz[i]);
 
   ValueTape &tape = findTape(edfct->tapeId);
+  if (tape.workMode() != TapeInfos::WRITE_ACCESS &&
+      currentTape().workMode() == TapeInfos::WRITE_ACCESS)
+    ADOLCError::fail(ADOLCError::ErrorType::EXT_DIFF_WRONG_TAPE,
+                     CURRENT_LOCATION,
+                     ADOLCError::FailInfo{.info2 = to_size_t(tape.tapeId()),
+                                          .info3 = currentTape().tapeId()});
 
-  tape.put_op(ext_diff_v2, 2 * (nin + nout) + iArrLen);
-  tape.put_loc(edfct->index);
-  tape.put_loc(iArrLen);
-  for (size_t i = 0; i < iArrLen; i++)
-    tape.put_loc(iArr[i]);
-  tape.put_loc(iArrLen);
-  tape.put_loc(nin);
-  tape.put_loc(nout);
-  for (size_t i = 0; i < nin; i++) {
-    tape.put_loc(insz[i]);
-    tape.put_loc(x[i][0].loc());
-  }
-  for (size_t i = 0; i < nout; i++) {
-    tape.put_loc(outsz[i]);
-    tape.put_loc(y[i][0].loc());
+  // a call outside of a recording only computes values
+  const bool recording = tape.workMode() == TapeInfos::WRITE_ACCESS;
+
+  if (recording) {
+    tape.put_op(ext_diff_v2, 2 * (nin + nout) + iArrLen);
+    tape.put_loc(edfct->index);
+    tape.put_loc(iArrLen);
+    for (size_t i = 0; i < iArrLen; i++)
+      tape.put_loc(iArr[i]);
+    tape.put_loc(iArrLen);
+    tape.put_loc(nin);
+    tape.put_loc(nout);
+    for (size_t i = 0; i < nin; i++) {
+      tape.put_loc(insz[i]);
+      tape.put_loc(x[i][0].loc());
+    }
+    for (size_t i = 0; i < nout; i++) {
+      tape.put_loc(outsz[i]);
+      tape.put_loc(y[i][0].loc());
+    }
+    tape.put_loc(nin);
+    tape.put_loc(nout);
   }
-  tape.put_loc(nin);
-  tape.put_loc(nout);
 
   if (edfct->nestedAdolc) {
     vals.resize(tape.storeSize());
@@ -126,13 +144,13 @@ int call_ext_fct(ext_diff_fct_v2 *edfct, size_t iArrLen, size_t *iArr,
   }
   if (!edfct->user_allocated_mem)
     update_ext_fct_memory(edfct, nin, nout, insz, outsz);
-  if (edfct->dp_x_changes)
+  if (recording && edfct->dp_x_changes)
     for (size_t i = 0; i < nin; i++)
       tape.add_numTays_Tape(insz[i]);
-  if (edfct->dp_y_priorRequired)
+  if (recording && edfct->dp_y_priorRequired)
     for (size_t i = 0; i < nout; i++)
       tape.add_numTays_Tape(outsz[i]);
-  if (tape.keepTaylors()) {
+  if (recording && tape.keepTaylors()) {
     if (edfct->dp_x_changes)
       for (size_t i = 0; i < nin; i++)
         for (size_t j = 0; j < insz[i]; j++)
-- 
2.43.0


From 1b470ff11e5e4b62a2aaa63f471e2af067546477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:52 +0000
Subject: [PATCH 092/102] fix: bit pattern propagation checks for the base
 point

---
 ADOL-C/include/adolc/sparse/sparsedrivers.h | 8 +++++++-
 ADOL-C/src/sparse/sparsedrivers.cpp         | 7 -------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/ADOL-C/include/adolc/sparse/sparsedrivers.h b/ADOL-C/include/adolc/sparse/sparsedrivers.h
index 007b758..6a5d9cc 100644
--- a/ADOL-C/include/adolc/sparse/sparsedrivers.h
+++ b/ADOL-C/include/adolc/sparse/sparsedrivers.h
@@ -147,7 +147,13 @@ template <BitPatternPropagationDirection BPPD> struct BvpData {
  * @param basepoint Pointer to the independent variable values (may be null in
  * Safe mode).
  */
-template <ControlFlowMode CFM> void checkBVPInput(const double *) {};
+template <ControlFlowMode CFM>
+void checkBVPInput([[maybe_unused]] const double *basepoint) {
+  if constexpr (CFM == ControlFlowMode::Tight)
+    if (basepoint == nullptr)
+      ADOLCError::fail(ADOLCError::ErrorType::SPARSE_JAC_NO_BP,
+                       CURRENT_LOCATION);
+}
 
 /**
  * @brief Resets all entries in the compressed row storage pointer array to
diff --git a/ADOL-C/src/sparse/sparsedrivers.cpp b/ADOL-C/src/sparse/sparsedrivers.cpp
index b803a78..b04838d 100644
--- a/ADOL-C/src/sparse/sparsedrivers.cpp
+++ b/ADOL-C/src/sparse/sparsedrivers.cpp
@@ -30,13 +30,6 @@
 namespace ADOLC::Sparse {
 namespace detail {
 
-/// Specialization of input consistency check for Tight control-flow mode.
-template <>
-void checkBVPInput<ControlFlowMode::Tight>(const double *basepoint) {
-  if (basepoint == nullptr)
-    ADOLCError::fail(ADOLCError::ErrorType::SPARSE_JAC_NO_BP, CURRENT_LOCATION);
-}
-
 void extract(size_t wordIdx, size_t stripIdx, size_t currentStripWordIdx,
              BvpData<BitPatternPropagationDirection::Forward> &data,
              std::span<uint *> &compressedRowStorage) {
-- 
2.43.0


From 11009b1a3edace6e7532a4446ba82eb9780604df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:26 +0000
Subject: [PATCH 093/102] fix: lookupindex never noticed decreasing advectors

---
 ADOL-C/src/advector.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/advector.cpp b/ADOL-C/src/advector.cpp
index f4978e1..3e2f244 100644
--- a/ADOL-C/src/advector.cpp
+++ b/ADOL-C/src/advector.cpp
@@ -439,8 +439,10 @@ void condeqassign(adubref &res, const adouble &cond, const adouble &arg) {
 bool advector::nondecreasing() const {
   bool ret = true;
   double last = -ADOLC_MATH_NSP::numeric_limits<double>::infinity();
-  for (const auto &a : data_)
+  for (const auto &a : data_) {
     ret = ret && (a.value() >= last);
+    last = a.value();
+  }
   return ret;
 }
 
-- 
2.43.0


From 411a95cc97c8862b66310acba9a361148cc85461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:26 +0000
Subject: [PATCH 094/102] fix: the checkpointing schedule overflowed for many
 steps (crash, endless loop or too many forward steps)

---
 ADOL-C/include/adolc/revolve.h |  3 ++-
 ADOL-C/src/revolve.cpp         | 21 ++++++++++++---------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/ADOL-C/include/adolc/revolve.h b/ADOL-C/include/adolc/revolve.h
index 59de893..dc4626f 100644
--- a/ADOL-C/include/adolc/revolve.h
+++ b/ADOL-C/include/adolc/revolve.h
@@ -16,6 +16,7 @@
 #define ADOLC_REVOLVE_H
 
 #include <adolc/internal/common.h>
+#include <cstdint>
 
 struct revolve_nums {
   int advances{0};
@@ -23,7 +24,7 @@ struct revolve_nums {
   int commands{0};
   int turn{0};
   int reps{0};
-  int range{0};
+  int64_t range{0};
   int ch[ADOLC_CHECKUP] = {0};
   int oldsnaps{0};
   int oldfine{0};
diff --git a/ADOL-C/src/revolve.cpp b/ADOL-C/src/revolve.cpp
index 2acd0a6..daa1eb5 100644
--- a/ADOL-C/src/revolve.cpp
+++ b/ADOL-C/src/revolve.cpp
@@ -184,6 +184,7 @@
  *--------------------------------------------------------------------*/
 
 #include <adolc/revolve.h>
+#include <cstdint>
 #include <cstdio>
 
 #define MAXINT 2147483647
@@ -191,7 +192,8 @@
 /* ************************************************************************* */
 
 int numforw(int steps, int snaps) {
-  int reps, range, num;
+  int reps;
+  int64_t range;
 
   if (snaps < 1) {
     printf(" error occurs in numforw: snaps < 1\n");
@@ -208,14 +210,14 @@ int numforw(int steps, int snaps) {
     reps += 1;
     range = range * (reps + snaps) / reps;
   }
-  printf("range =  %d \n", range);
+  printf("range =  %lld \n", static_cast<long long>(range));
   if (reps > ADOLC_REPSUP) {
     printf(" number of reps=%d exceeds ADOLC_REPSUP \n", reps);
     printf(" redefine 'ADOLC_REPSUP' \n");
     return -1;
   }
-  num = reps * steps - range * reps / (snaps + 1);
-  return num;
+  const int64_t num = int64_t{reps} * steps - range * reps / (snaps + 1);
+  return num > MAXINT ? MAXINT : static_cast<int>(num);
 }
 
 /* ************************************************************************* */
@@ -293,7 +295,8 @@ int adjust(int steps) {
 enum revolve_action revolve(int *check, int *capo, int *fine, int snaps,
                             int *info) {
   revolve_nums &rev_num = get_revolve_numbers();
-  int ds, oldcapo, num, bino1, bino2, bino3, bino4, bino5, bino6;
+  int ds, oldcapo, num;
+  int64_t bino1, bino2, bino3, bino4, bino5, bino6;
   /* (*capo,*fine) is the time range currently under consideration */
   /* ch[j] is the number of the state that is stored in checkpoint j */
   rev_num = get_revolve_numbers();
@@ -447,13 +450,13 @@ enum revolve_action revolve(int *check, int *capo, int *fine, int snaps,
       bino6 = bino1 * ds / rev_num.reps;
 
       if (*fine - *capo <= bino1 + bino3)
-        *capo += bino4;
+        *capo = static_cast<int>(*capo + bino4);
       else if (*fine - *capo < bino1 + bino2)
-        *capo = *fine - bino2 - bino3;
+        *capo = static_cast<int>(*fine - bino2 - bino3);
       else if (*fine - *capo <= bino1 + bino2 + bino5)
-        *capo += bino1 - bino3;
+        *capo = static_cast<int>(*capo + bino1 - bino3);
       else
-        *capo = *fine - bino6;
+        *capo = static_cast<int>(*fine - bino6);
 
       /* original by A. Walther
 
-- 
2.43.0


From 5d863888e6b6fcb209217e86800b1eb9550bb39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:48 +0000
Subject: [PATCH 095/102] fix: reading an adouble from a stream did not link

---
 ADOL-C/include/adolc/adtb_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADOL-C/include/adolc/adtb_types.h b/ADOL-C/include/adolc/adtb_types.h
index 8ad1c1c..65b67cb 100644
--- a/ADOL-C/include/adolc/adtb_types.h
+++ b/ADOL-C/include/adolc/adtb_types.h
@@ -581,7 +581,7 @@ ADOLC_API inline void operator>>=(std::span<adouble> deps,
 }
 
 ADOLC_API std::ostream &operator<<(std::ostream &, const adouble &);
-ADOLC_API std::istream &operator>>(std::istream &, const adouble &);
+ADOLC_API std::istream &operator>>(std::istream &, adouble &);
 
 /**
  * ADOUBLE ARTIHEMTICS
-- 
2.43.0


From 0573c6e4f6bf5f8ea4172db271752ec0f748bca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:15 +0000
Subject: [PATCH 096/102] fix: tape blocks above ADOLC_IO_CHUNK_SIZE were
 misread

---
 ADOL-C/include/adolc/valuetape/valuetape.h | 2 +-
 ADOL-C/src/valuetape/tapeinfos.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/include/adolc/valuetape/valuetape.h b/ADOL-C/include/adolc/valuetape/valuetape.h
index 8bd2c41..747109e 100644
--- a/ADOL-C/include/adolc/valuetape/valuetape.h
+++ b/ADOL-C/include/adolc/valuetape/valuetape.h
@@ -617,7 +617,7 @@ public:
     const size_t remain = lengthBlock % Info::chunkSize;
     if (remain > 0) {
       auto returnCode =
-          read<TapeInfos, ErrorType, Info>(tapeInfos_, numChunks, lengthBlock);
+          read<TapeInfos, ErrorType, Info>(tapeInfos_, numChunks, remain);
       if (returnCode != 1)
         fail(Info::error, CURRENT_LOCATION);
     }
diff --git a/ADOL-C/src/valuetape/tapeinfos.cpp b/ADOL-C/src/valuetape/tapeinfos.cpp
index b374c3b..807fd44 100644
--- a/ADOL-C/src/valuetape/tapeinfos.cpp
+++ b/ADOL-C/src/valuetape/tapeinfos.cpp
@@ -367,7 +367,7 @@ void TapeInfos::get_op_block_f() {
               remain * sizeof(unsigned char), 1, opBuffer_.file()) != 1)
       ADOLCError::fail(ADOLCError::ErrorType::EVAL_OP_TAPE_READ_FAILED,
                        CURRENT_LOCATION);
-  opBuffer_.numOnTape(opBuffer_.numOnTape() - remain);
+  opBuffer_.numOnTape(opBuffer_.numOnTape() - number);
   opBuffer_.position(0);
 }
 
-- 
2.43.0


From 6464fcc37e9a14fdf66024b91c5661dd236e3a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:23 +0000
Subject: [PATCH 097/102] fix: reverse sweep crashed when the Taylor
 coefficients filled the buffer exactly

---
 ADOL-C/src/valuetape/valuetape.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/valuetape/valuetape.cpp b/ADOL-C/src/valuetape/valuetape.cpp
index bbe41be..ab7692f 100644
--- a/ADOL-C/src/valuetape/valuetape.cpp
+++ b/ADOL-C/src/valuetape/valuetape.cpp
@@ -253,8 +253,11 @@ void ValueTape::taylor_back() {
 
   nextBufferNumber(tapeInfos_.tayBuffer_.numOnTape() /
                    tapestats(TapeInfos::TAY_BUFFER_SIZE));
-  const size_t number =
+  size_t number =
       tapeInfos_.tayBuffer_.numOnTape() % tapestats(TapeInfos::TAY_BUFFER_SIZE);
+  // a buffer that is exactly full has not been written to a file
+  if (tapeInfos_.tayBuffer_.file() == nullptr)
+    number = tapeInfos_.tayBuffer_.numOnTape();
   tapeInfos_.tayBuffer_.position(number);
 
   if (lastTayBlockInCore() != 1) {
-- 
2.43.0


From a1cf472409bd899ef55b7b45cc581d7481149c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:23 +0000
Subject: [PATCH 098/102] fix: sparse abs-normal form of a trace kept in files
 had all entries in the wrong blocks

---
 ADOL-C/include/adolc/sparse/sparsedrivers.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ADOL-C/include/adolc/sparse/sparsedrivers.h b/ADOL-C/include/adolc/sparse/sparsedrivers.h
index 6a5d9cc..adb91d6 100644
--- a/ADOL-C/include/adolc/sparse/sparsedrivers.h
+++ b/ADOL-C/include/adolc/sparse/sparsedrivers.h
@@ -863,8 +863,11 @@ void recover(const ValueTape &tape, SparseMatrix &sparseJac) {
 /// @brief Passes args to ANF recovery methods based on the template args.
 template <MemoryHandler MH>
 void recover(const ValueTape &tape, SparseANF &sparseANF) {
-  const int numInds = static_cast<int>(tape.numInds());
-  const int numSwitches = static_cast<int>(tape.numSwitches());
+  // from the trace: the counters used for taping may not belong to it
+  const int numInds =
+      static_cast<int>(tape.tapestats(TapeInfos::NUM_INDEPENDENTS));
+  const int numSwitches =
+      static_cast<int>(tape.tapestats(TapeInfos::NUM_SWITCHES));
   if constexpr (MH == MemoryHandler::Manual) {
     tape.sJInfos().recoverANFUserMem(sparseANF, numInds, numSwitches);
   } else {
-- 
2.43.0


From 9907454ad9e79014109b380617aa3b8f48882328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:08 +0000
Subject: [PATCH 099/102] fix: cachedTraceTags left the caller's list as it was
 when there is no trace

---
 ADOL-C/src/tape_interface.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ADOL-C/src/tape_interface.cpp b/ADOL-C/src/tape_interface.cpp
index c9bd586..a447fad 100644
--- a/ADOL-C/src/tape_interface.cpp
+++ b/ADOL-C/src/tape_interface.cpp
@@ -133,11 +133,9 @@ void trace_off(int flag) {
 }
 
 void cachedTraceTags(std::vector<short> &result) {
-  if (!tapeBuffer().empty()) {
-    result.resize(tapeBuffer().size());
-    for (size_t i = 0; i < tapeBuffer().size(); ++i) {
-      result[i] = tapeBuffer()[i]->tapeId();
-    }
+  result.resize(tapeBuffer().size());
+  for (size_t i = 0; i < tapeBuffer().size(); ++i) {
+    result[i] = tapeBuffer()[i]->tapeId();
   }
 }
 
-- 
2.43.0


From 59ab9f4c328cee50822be30e72605449b3621d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:02 +0000
Subject: [PATCH 100/102] fix: keep the enlarged nonlinearity domain of the old
 Hessian pattern (lists of more than 20 entries were freed but still used)

---
 ADOL-C/src/uni5_for.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ADOL-C/src/uni5_for.cpp b/ADOL-C/src/uni5_for.cpp
index 6b3daca..1bce131 100644
--- a/ADOL-C/src/uni5_for.cpp
+++ b/ADOL-C/src/uni5_for.cpp
@@ -6205,6 +6205,7 @@ void extend_nonlinearity_domain_binary_step(size_t arg1, size_t arg2,
         delete[] index_nonl_dom;
         index_nonl_dom = new uint[2 * (num + 1)];
         index_nonl_dom[1] = 2 * num;
+        nonl_dom[index] = index_nonl_dom;
       }
       for (i = 2; i < num + 2; i++) /* append index domain list of "arg" */
         index_nonl_dom[i] = ind_dom[arg2][i];
-- 
2.43.0


From 2e1a43af2c0db5b832478fb80b3b745c2657949c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:50 +0000
Subject: [PATCH 101/102] fix: free the Taylor coefficients of traceless
 higher-order variables

---
 ADOL-C/include/adolc/adtl_hov.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ADOL-C/include/adolc/adtl_hov.h b/ADOL-C/include/adolc/adtl_hov.h
index 450297d..fd8fad2 100644
--- a/ADOL-C/include/adolc/adtl_hov.h
+++ b/ADOL-C/include/adolc/adtl_hov.h
@@ -242,8 +242,8 @@ public:
 
 private:
   double val;
-  double *adval;
-  double **ho_deriv;
+  double *adval = NULL;
+  double **ho_deriv = NULL;
   list<unsigned int> pattern;
 #ifdef USE_ADTL_REFCOUNTING
   refcounter __rcnt;
@@ -489,8 +489,7 @@ inline adouble::adouble(const adouble &a) : val(a.val), adval(NULL) {
 inline adouble::~adouble() {
   if (adval != NULL)
     delete[] adval;
-//    if(ho_deriv!=NULL)
-//    	delete[][]  ho_deriv;
+  myfree2(ho_deriv);
 #if 0
     if ( !pattern.empty() )
 	pattern.clear();
-- 
2.43.0


From f5e872cc94dd46bd4bef6028470f82e4ffb57852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:30:05 +0000
Subject: [PATCH 102/102] fix: free the previous pattern and values in the
 traceless sparse Jacobian

---
 ADOL-C/src/sparse/sparsedrivers.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ADOL-C/src/sparse/sparsedrivers.cpp b/ADOL-C/src/sparse/sparsedrivers.cpp
index b04838d..9a5a163 100644
--- a/ADOL-C/src/sparse/sparsedrivers.cpp
+++ b/ADOL-C/src/sparse/sparsedrivers.cpp
@@ -112,7 +112,9 @@ int ADOLC_get_sparse_jacobian(func_ad<::adtl::adouble> *const fun,
         return ret_val;
       }
 
-      ret_val = adtl_indo::ADOLC_get_sparse_pattern(y, m, sJInfos.JP_);
+      std::vector<uint *> JP;
+      ret_val = adtl_indo::ADOLC_get_sparse_pattern(y, m, JP);
+      sJInfos.setJP(std::move(JP));
       delete[] x;
       delete[] y;
     }
@@ -128,7 +130,9 @@ int ADOLC_get_sparse_jacobian(func_ad<::adtl::adouble> *const fun,
     sJInfos.initColoring(m, n);
     sJInfos.generateSeedJac("COLUMN_PARTIAL_DISTANCE_TWO");
     sJInfos.seedRows_ = m;
+    myfree2(sJInfos.B_);
     sJInfos.B_ = myalloc2(sJInfos.seedRows_, sJInfos.seedClms_);
+    myfree1(sJInfos.y_);
     sJInfos.y_ = myalloc1(m);
   }
   //  ret_val = fov_forward(tag, depen, indep, sJInfos.seed_clms, basepoint,
-- 
2.43.0

