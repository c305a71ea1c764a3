From 1f2256442e5dfee9c441366657143cd403d6582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 01/80] fix: report out-of-window status when a single worker
 thread is used

---
 extra_src/das.cc        | 13 ++++++-------
 src/dream_arr_annu.cc   | 13 ++++++-------
 src/dream_arr_circ.cc   | 13 ++++++-------
 src/dream_arr_cylind.cc | 13 ++++++-------
 src/dream_arr_rect.cc   | 13 ++++++-------
 src/dreamcirc.cc        | 13 ++++++-------
 src/dreamcirc_f.cc      | 13 ++++++-------
 src/dreamcylind.cc      | 13 ++++++-------
 src/dreamline.cc        | 13 ++++++-------
 src/dreamrect.cc        | 13 ++++++-------
 src/dreamrect_f.cc      | 13 ++++++-------
 src/dreamsphere.cc      | 13 ++++++-------
 12 files changed, 72 insertions(+), 84 deletions(-)

diff --git a/extra_src/das.cc b/extra_src/das.cc
index a02dbba..ee4b566 100644
--- a/extra_src/das.cc
+++ b/extra_src/das.cc
@@ -277,15 +277,14 @@ SIRError DAS<T>::das(const T *Y, const T *Ro, const T *Gt, const T *Gr,
   }
 
   // Wait for all threads to finish.
-  if (nthreads>1) {
-    for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
+  for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
+    if (nthreads>1) {
       threads[thread_n].join();
+    }
 
-      // Check if one of the threads had an out-of-bounds event.
-      if (D[thread_n].err != SIRError::none) {
-        err = D[thread_n].err;
-      }
-
+    // Check if one of the threads had an out-of-bounds event.
+    if (D[thread_n].err != SIRError::none) {
+      err = D[thread_n].err;
     }
   }
 
diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index 86e13cb..fc21835 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -609,15 +609,14 @@ SIRError ArrAnnu::dream_arr_annu(double alpha,
   }
 
   // Wait for all threads to finish.
-  if (nthreads > 1) {
-    for (thread_n = 0; thread_n < nthreads; thread_n++) {
+  for (thread_n = 0; thread_n < nthreads; thread_n++) {
+    if (nthreads > 1) {
       threads[thread_n].join();
+    }
 
-      // Check if one of the threads had an out-of-bounds event.
-      if (D[thread_n].err != SIRError::none) {
-        err = D[thread_n].err;
-      }
-
+    // Check if one of the threads had an out-of-bounds event.
+    if (D[thread_n].err != SIRError::none) {
+      err = D[thread_n].err;
     }
   }
 
diff --git a/src/dream_arr_circ.cc b/src/dream_arr_circ.cc
index f6b8d9a..cb84691 100644
--- a/src/dream_arr_circ.cc
+++ b/src/dream_arr_circ.cc
@@ -408,15 +408,14 @@ SIRError ArrCirc::dream_arr_circ(double alpha,
   }
 
   // Wait for all threads to finish.
-  if (nthreads > 1) {
-    for (thread_n = 0; thread_n < nthreads; thread_n++) {
+  for (thread_n = 0; thread_n < nthreads; thread_n++) {
+    if (nthreads > 1) {
       threads[thread_n].join();
+    }
 
-      // Check if one of the threads had an out-of-bounds event.
-      if (D[thread_n].err != SIRError::none) {
-        err = D[thread_n].err;
-      }
-
+    // Check if one of the threads had an out-of-bounds event.
+    if (D[thread_n].err != SIRError::none) {
+      err = D[thread_n].err;
     }
   }
 
diff --git a/src/dream_arr_cylind.cc b/src/dream_arr_cylind.cc
index 61d6e13..56a3a51 100644
--- a/src/dream_arr_cylind.cc
+++ b/src/dream_arr_cylind.cc
@@ -416,15 +416,14 @@ SIRError ArrCylind::dream_arr_cylind(double alpha,
   }
 
   // Wait for all threads to finish.
-  if (nthreads > 1) {
-    for (thread_n = 0; thread_n < nthreads; thread_n++) {
+  for (thread_n = 0; thread_n < nthreads; thread_n++) {
+    if (nthreads > 1) {
       threads[thread_n].join();
+    }
 
-      // Check if one of the threads had an out-of-bounds event.
-      if (D[thread_n].err != SIRError::none) {
-        err = D[thread_n].err;
-      }
-
+    // Check if one of the threads had an out-of-bounds event.
+    if (D[thread_n].err != SIRError::none) {
+      err = D[thread_n].err;
     }
   }
 
diff --git a/src/dream_arr_rect.cc b/src/dream_arr_rect.cc
index b6ee4ea..c639877 100644
--- a/src/dream_arr_rect.cc
+++ b/src/dream_arr_rect.cc
@@ -412,15 +412,14 @@ SIRError ArrRect::dream_arr_rect(double alpha,
   }
 
   // Wait for all threads to finish.
-  if (nthreads > 1) {
-    for (thread_n = 0; thread_n < nthreads; thread_n++) {
+  for (thread_n = 0; thread_n < nthreads; thread_n++) {
+    if (nthreads > 1) {
       threads[thread_n].join();
+    }
 
-      // Check if one of the threads had an out-of-bounds event.
-      if (D[thread_n].err != SIRError::none) {
-        err = D[thread_n].err;
-      }
-
+    // Check if one of the threads had an out-of-bounds event.
+    if (D[thread_n].err != SIRError::none) {
+      err = D[thread_n].err;
     }
   }
 
diff --git a/src/dreamcirc.cc b/src/dreamcirc.cc
index e376b23..ec7a3b5 100644
--- a/src/dreamcirc.cc
+++ b/src/dreamcirc.cc
@@ -254,15 +254,14 @@ SIRError Circ::dreamcirc(double alpha,
   }
 
   // Wait for all threads to finish.
-  if (nthreads>1) {
-    for (thread_n = 0; thread_n < nthreads; thread_n++) {
+  for (thread_n = 0; thread_n < nthreads; thread_n++) {
+    if (nthreads>1) {
       threads[thread_n].join();
+    }
 
-     // Check if one of the threads had an out-of-bounds event.
-      if (D[thread_n].err != SIRError::none) {
-        err = D[thread_n].err;
-      }
-
+   // Check if one of the threads had an out-of-bounds event.
+    if (D[thread_n].err != SIRError::none) {
+      err = D[thread_n].err;
     }
   }
 
diff --git a/src/dreamcirc_f.cc b/src/dreamcirc_f.cc
index e4eb3a4..9e63610 100644
--- a/src/dreamcirc_f.cc
+++ b/src/dreamcirc_f.cc
@@ -255,15 +255,14 @@ SIRError Circ_f::dreamcirc_f(double alpha,
   }
 
   // Wait for all threads to finish.
-  if (nthreads>1) {
-    for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
+  for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
+    if (nthreads>1) {
       threads[thread_n].join();
+    }
 
-      // Check if one of the threads had an out-of-bounds event.
-      if (D[thread_n].err != SIRError::none) {
-        err = D[thread_n].err;
-      }
-
+    // Check if one of the threads had an out-of-bounds event.
+    if (D[thread_n].err != SIRError::none) {
+      err = D[thread_n].err;
     }
   }
 
diff --git a/src/dreamcylind.cc b/src/dreamcylind.cc
index 8939e15..89cab4c 100644
--- a/src/dreamcylind.cc
+++ b/src/dreamcylind.cc
@@ -252,15 +252,14 @@ SIRError Cylind::dreamcylind(double alpha,
   }
 
   // Wait for all threads to finish.
-  if (nthreads>1) {
-    for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
+  for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
+    if (nthreads>1) {
       threads[thread_n].join();
+    }
 
-      // Check if one of the threads had an out-of-bounds event.
-      if (D[thread_n].err != SIRError::none) {
-        err = D[thread_n].err;
-      }
-
+    // Check if one of the threads had an out-of-bounds event.
+    if (D[thread_n].err != SIRError::none) {
+      err = D[thread_n].err;
     }
   }
 
diff --git a/src/dreamline.cc b/src/dreamline.cc
index 3033813..b04e647 100644
--- a/src/dreamline.cc
+++ b/src/dreamline.cc
@@ -239,15 +239,14 @@ SIRError Line::dreamline(double alpha,
   }
 
   // Wait for all threads to finish.
-  if (nthreads>1) {
-    for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
+  for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
+    if (nthreads>1) {
       threads[thread_n].join();
+    }
 
-      // Check if one of the threads had an out-of-bounds event.
-      if (D[thread_n].err != SIRError::none) {
-        err = D[thread_n].err;
-      }
-
+    // Check if one of the threads had an out-of-bounds event.
+    if (D[thread_n].err != SIRError::none) {
+      err = D[thread_n].err;
     }
   }
 
diff --git a/src/dreamrect.cc b/src/dreamrect.cc
index bd00da2..7ffd301 100644
--- a/src/dreamrect.cc
+++ b/src/dreamrect.cc
@@ -251,15 +251,14 @@ SIRError Rect::dreamrect(double alpha,
   }
 
   // Wait for all threads to finish.
-  if (nthreads>1) {
-    for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
+  for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
+    if (nthreads>1) {
       threads[thread_n].join();
+    }
 
-      // Check if one of the threads had an out-of-bounds event.
-      if (D[thread_n].err != SIRError::none) {
-        err = D[thread_n].err;
-      }
-
+    // Check if one of the threads had an out-of-bounds event.
+    if (D[thread_n].err != SIRError::none) {
+      err = D[thread_n].err;
     }
   }
 
diff --git a/src/dreamrect_f.cc b/src/dreamrect_f.cc
index a7a5dbb..44a801a 100644
--- a/src/dreamrect_f.cc
+++ b/src/dreamrect_f.cc
@@ -255,15 +255,14 @@ SIRError Rect_f::dreamrect_f(double alpha,
   }
 
   // Wait for all threads to finish.
-  if (nthreads>1) {
-    for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
+  for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
+    if (nthreads>1) {
       threads[thread_n].join();
+    }
 
-      // Check if one of the threads had an out-of-bounds event.
-      if (D[thread_n].err != SIRError::none) {
-        err = D[thread_n].err;
-      }
-
+    // Check if one of the threads had an out-of-bounds event.
+    if (D[thread_n].err != SIRError::none) {
+      err = D[thread_n].err;
     }
   }
 
diff --git a/src/dreamsphere.cc b/src/dreamsphere.cc
index dc44852..0844391 100644
--- a/src/dreamsphere.cc
+++ b/src/dreamsphere.cc
@@ -250,15 +250,14 @@ SIRError Sphere::dreamsphere(double alpha,
   }
 
   // Wait for all threads to finish.
-  if (nthreads>1) {
-    for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
+  for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
+    if (nthreads>1) {
       threads[thread_n].join();
+    }
 
-      // Check if the current thread or a previous had an out-of-bounds error.
-      if ( (err == SIRError::out_of_bounds) || (D[thread_n].err == SIRError::out_of_bounds) ) {
-        err = SIRError::out_of_bounds;
-      }
-
+    // Check if the current thread or a previous had an out-of-bounds error.
+    if ( (err == SIRError::out_of_bounds) || (D[thread_n].err == SIRError::out_of_bounds) ) {
+      err = SIRError::out_of_bounds;
     }
   }
 
-- 
2.43.0


From 7b2d97abc08112b1f43e5ae11c044938a188deb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 02/80] fix: spherical transducer drops the warn/ignore
 out-of-window status

---
 src/dreamsphere.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dreamsphere.cc b/src/dreamsphere.cc
index 0844391..fb4f1a3 100644
--- a/src/dreamsphere.cc
+++ b/src/dreamsphere.cc
@@ -255,9 +255,9 @@ SIRError Sphere::dreamsphere(double alpha,
       threads[thread_n].join();
     }
 
-    // Check if the current thread or a previous had an out-of-bounds error.
-    if ( (err == SIRError::out_of_bounds) || (D[thread_n].err == SIRError::out_of_bounds) ) {
-      err = SIRError::out_of_bounds;
+    // Check if one of the threads had an out-of-bounds event.
+    if (D[thread_n].err != SIRError::none) {
+      err = D[thread_n].err;
     }
   }
 
-- 
2.43.0


From cee97ffaf93378f9918298f2b1ae52272311f997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 03/80] fix: arrays lose the out-of-window status of all but
 the last element

---
 src/dream_arr_annu.cc   | 30 +++++++++++++++++-----------
 src/dream_arr_circ.cc   | 43 +++++++++++++++++++++++++----------------
 src/dream_arr_cylind.cc | 43 +++++++++++++++++++++++++----------------
 src/dream_arr_rect.cc   | 43 ++++++++++++++++++++++++-----------------
 4 files changed, 96 insertions(+), 63 deletions(-)

diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index fc21835..5dd30f4 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -228,11 +228,15 @@ SIRError ArrAnnu::dream_arr_annu_serial(double xo, double yo, double zo,
         h_disc[i] = 0.0; // h(i,1) = 0.0;
       }
     } else {
-      err = dreamcirc_serial(xo, yo, zo,
-                             Gr[n],
-                             dx, dy, dt, nt,
-                             delay,
-                             v, cp, &h_disc[n*nt], err_level);
+      SIRError el_err = dreamcirc_serial(xo, yo, zo,
+                                         Gr[n],
+                                         dx, dy, dt, nt,
+                                         delay,
+                                         v, cp, &h_disc[n*nt], err_level);
+
+      if (el_err != SIRError::none) {
+        err = el_err;
+      }
 
       if (err == SIRError::out_of_bounds) {
         return err; // Bail out.
@@ -311,12 +315,16 @@ SIRError ArrAnnu::dream_arr_annu_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
         h_disc[i] = 0.0; // h(i,1) = 0.0;
       }
     } else {
-      err = dreamcirc_serial(att, xc_vec, x_vec,
-                             xo, yo, zo,
-                             Gr[n],
-                             dx, dy, dt, nt,
-                             delay,
-                             v, cp, &h_disc[n*nt], err_level);
+      SIRError el_err = dreamcirc_serial(att, xc_vec, x_vec,
+                                         xo, yo, zo,
+                                         Gr[n],
+                                         dx, dy, dt, nt,
+                                         delay,
+                                         v, cp, &h_disc[n*nt], err_level);
+
+      if (el_err != SIRError::none) {
+        err = el_err;
+      }
 
       if (err == SIRError::out_of_bounds) {
         return err; // Bail out.
diff --git a/src/dream_arr_circ.cc b/src/dream_arr_circ.cc
index cb84691..67a9d32 100644
--- a/src/dream_arr_circ.cc
+++ b/src/dream_arr_circ.cc
@@ -223,14 +223,18 @@ SIRError ArrCirc::dream_arr_circ_serial(double xo, double yo, double zo,
     }
 
     // Compute the response for the n:th element and add it to the impulse response vector h.
-    err = dreamcirc_serial(xo - gx[n], yo - gy[n], zo - gz[n],
-                           R,
-                           dx, dy, dt, nt,
-                           delay - foc_delay - steer_delay,
-                           v, cp,
-                           h,
-                           err_level,
-                           weight);
+    SIRError el_err = dreamcirc_serial(xo - gx[n], yo - gy[n], zo - gz[n],
+                                       R,
+                                       dx, dy, dt, nt,
+                                       delay - foc_delay - steer_delay,
+                                       v, cp,
+                                       h,
+                                       err_level,
+                                       weight);
+
+    if (el_err != SIRError::none) {
+      err = el_err;
+    }
 
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
@@ -280,15 +284,20 @@ SIRError ArrCirc::dream_arr_circ_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
     }
 
     // Compute the response for the n:th element and add it to the impulse response vector h.
-    err = dreamcirc_serial(att, xc_vec, x_vec,
-                           xo - gx[n], yo - gy[n], zo - gz[n],
-                           R,
-                           dx, dy, dt, nt,
-                           delay - foc_delay - steer_delay,
-                           v, cp,
-                           h,
-                           err_level,
-                           weight);
+    SIRError el_err = dreamcirc_serial(att, xc_vec, x_vec,
+                                       xo - gx[n], yo - gy[n], zo - gz[n],
+                                       R,
+                                       dx, dy, dt, nt,
+                                       delay - foc_delay - steer_delay,
+                                       v, cp,
+                                       h,
+                                       err_level,
+                                       weight);
+
+    if (el_err != SIRError::none) {
+      err = el_err;
+    }
+
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
     }
diff --git a/src/dream_arr_cylind.cc b/src/dream_arr_cylind.cc
index 56a3a51..f76a7e0 100644
--- a/src/dream_arr_cylind.cc
+++ b/src/dream_arr_cylind.cc
@@ -232,14 +232,19 @@ SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
     }
 
     // Compute the response for the n:th element and add it to the impulse response vector h.
-    err = cylind.dreamcylind_serial(xo - gx[n], yo - gy[n], zo - gz[n],
-                             a, b, Rcurv,
-                             dx, dy, dt, nt,
-                             delay - foc_delay - steer_delay,
-                             v, cp,
-                             h,
-                             err_level,
-                             weight);
+    SIRError el_err = cylind.dreamcylind_serial(xo - gx[n], yo - gy[n], zo - gz[n],
+                                         a, b, Rcurv,
+                                         dx, dy, dt, nt,
+                                         delay - foc_delay - steer_delay,
+                                         v, cp,
+                                         h,
+                                         err_level,
+                                         weight);
+
+    if (el_err != SIRError::none) {
+      err = el_err;
+    }
+
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
     }
@@ -285,15 +290,19 @@ SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
     }
 
     // Compute the response for the n:th element and add it to the impulse response vector h.
-    err = cylind.dreamcylind_serial(att, xc_vec, x_vec,
-                             xo - gx[n], yo - gy[n], zo - gz[n],
-                             a, b, Rcurv,
-                             dx, dy, dt, nt,
-                             delay - foc_delay - steer_delay,
-                             v, cp,
-                             h,
-                             err_level,
-                             weight);
+    SIRError el_err = cylind.dreamcylind_serial(att, xc_vec, x_vec,
+                                         xo - gx[n], yo - gy[n], zo - gz[n],
+                                         a, b, Rcurv,
+                                         dx, dy, dt, nt,
+                                         delay - foc_delay - steer_delay,
+                                         v, cp,
+                                         h,
+                                         err_level,
+                                         weight);
+
+    if (el_err != SIRError::none) {
+      err = el_err;
+    }
 
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
diff --git a/src/dream_arr_rect.cc b/src/dream_arr_rect.cc
index c639877..c191ea8 100644
--- a/src/dream_arr_rect.cc
+++ b/src/dream_arr_rect.cc
@@ -224,15 +224,18 @@ SIRError ArrRect::dream_arr_rect_serial(double xo, double yo, double zo,
     }
 
     // Compute the response for the n:th element and add it to the impulse response vector h.
-    err = dreamrect_serial(xo - gx[n], yo - gy[n], zo - gz[n],
-                           a, b,
-                           dx, dy, dt, nt,
-                           delay - foc_delay - steer_delay,
-                           v, cp,
-                           h,
-                           err_level,
-                           weight);
-
+    SIRError el_err = dreamrect_serial(xo - gx[n], yo - gy[n], zo - gz[n],
+                                       a, b,
+                                       dx, dy, dt, nt,
+                                       delay - foc_delay - steer_delay,
+                                       v, cp,
+                                       h,
+                                       err_level,
+                                       weight);
+
+    if (el_err != SIRError::none) {
+      err = el_err;
+    }
 
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
@@ -282,15 +285,19 @@ SIRError ArrRect::dream_arr_rect_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
     }
 
     // Compute the response for the n:th element and add it to the impulse response vector h.
-    err = dreamrect_serial(att, xc_vec, x_vec,
-                           xo - gx[n], yo - gy[n], zo - gz[n],
-                           a, b,
-                           dx, dy, dt, nt,
-                           delay - foc_delay - steer_delay,
-                           v, cp,
-                           h,
-                           err_level,
-                           weight);
+    SIRError el_err = dreamrect_serial(att, xc_vec, x_vec,
+                                       xo - gx[n], yo - gy[n], zo - gz[n],
+                                       a, b,
+                                       dx, dy, dt, nt,
+                                       delay - foc_delay - steer_delay,
+                                       v, cp,
+                                       h,
+                                       err_level,
+                                       weight);
+
+    if (el_err != SIRError::none) {
+      err = el_err;
+    }
 
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
-- 
2.43.0


From e2106d90faed3b7280eb022c8e75dcbe875c20e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 04/80] fix: annular rings are shifted one sample too far and
 may be written out of bounds

---
 src/dream_arr_annu.cc | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index 5dd30f4..8347726 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -468,24 +468,15 @@ double ArrAnnu::apodization_annular(ApodMet apod_met, dream_idx_type n, double *
 void ArrAnnu::superpos_annular(double *h_ring, double *h, dream_idx_type nt,
                       double weight, double foc_delay, dream_idx_type n, double dt)
 {
-  double *buf = (double*) malloc(2*nt*sizeof(double));
-  for (dream_idx_type i=0; i<2*nt; i++) {
-    buf[i] = 0.0;
-  }
-
-  dream_idx_type delay_idx = (dream_idx_type) std::rint(foc_delay/dt) + 1;
-  for (dream_idx_type i=0; i<nt; i++) { // FIXME: can delay_idx be > nt?
-    if (delay_idx < nt) {
-      buf[i + delay_idx] = h_ring[i + n*nt];
-    }
-  }
+  dream_idx_type delay_idx = (dream_idx_type) std::rint(foc_delay/dt);
 
   for (dream_idx_type i=0; i<nt; i++) {
-    h[i] += weight * buf[i];
+    dream_idx_type it = i + delay_idx;
+    if ( (it >= 0) && (it < nt) ) { // Samples shifted outside the response are dropped.
+      h[it] += weight * h_ring[i + n*nt];
+    }
   }
 
-  free(buf);
-
   return;
 }
 
-- 
2.43.0


From cbd8eba4d3bbdace5fd2fbfc9dbb55e9c04d12f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 05/80] fix: annular array ignores the hann and hamming
 apodization

---
 src/dream_arr_annu.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index 8347726..a5cd665 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -441,6 +441,17 @@ double ArrAnnu::apodization_annular(ApodMet apod_met, dream_idx_type n, double *
     weight = apod_par + std::cos(ring_r * M_PI / ring_r_max);
     break;
 
+  case ApodMet::hann:
+    weight = 0.5 * (1.0 - std::cos((ring_r + ring_r_max) * M_PI / ring_r_max));
+    break;
+
+  case ApodMet::hamming:
+    {
+      double a0 = 25.0/46.0;
+      weight = a0 - (1.0 - a0) * std::cos((ring_r + ring_r_max) * M_PI / ring_r_max);
+    }
+    break;
+
   case ApodMet::simply_supported:
     weight = 1.0 - ring_r*ring_r / (ring_r_max*ring_r_max);
     break;
-- 
2.43.0


From 563b459c33bbf195d36b8d37f3368eb524f77508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 06/80] fix: apodization of an array with all elements in the
 center is NaN

---
 src/arr_functions.cc  | 4 ++++
 src/dream_arr_annu.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/arr_functions.cc b/src/arr_functions.cc
index 6c73c54..2244ff8 100644
--- a/src/arr_functions.cc
+++ b/src/arr_functions.cc
@@ -217,6 +217,10 @@ void apodization(ApodMet apod_met, dream_idx_type n, double *apod_vec, double *w
 {
   double r = std::sqrt(gx*gx + gy*gy);
 
+  if (r_max <= 0.0) { // All elements are at the center, where r is zero.
+    r_max = 1.0;
+  }
+
   switch(apod_met) {
 
   case ApodMet::ud:
diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index a5cd665..c2dd9e2 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -423,6 +423,10 @@ double ArrAnnu::apodization_annular(ApodMet apod_met, dream_idx_type n, double *
 {
   double weight=1.0;
 
+  if (ring_r_max <= 0.0) { // A single (center) element only, where ring_r is zero.
+    ring_r_max = 1.0;
+  }
+
   switch(apod_met) {
 
   case ApodMet::ud:
-- 
2.43.0


From 7fddc6f23db1a89d996e56f1578d2d0830d07d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:38 +0000
Subject: [PATCH 07/80] fix: row-column delay-and-sum mixes up the number of
 rows and columns

---
 extra_src/das.cc     | 16 ++++++++--------
 opencl/das_double.cl | 12 ++++++------
 opencl/das_float.cl  | 12 ++++++------
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/extra_src/das.cc b/extra_src/das.cc
index ee4b566..04f56df 100644
--- a/extra_src/das.cc
+++ b/extra_src/das.cc
@@ -456,14 +456,14 @@ SIRError DAS<T>::das_rca_serial_coltx(const T *Y, // Size: a_scan_len x num_cols
   // * the transmit elements are distributed along the x-dimension (transmit with columns)
   //   and the receive elements are distributed along the y-dimension (rows),
   // * G_col[0] < G_col[num_cols-1] (x-dim edge positions) and
-  //   G_row[0 + 1*num_cols] < G_col[num_cols-1 + 1*num_cols]
+  //   G_row[0 + 1*num_rows] < G_row[num_rows-1 + 1*num_rows]
   //   (y-dim edge positions).
 
   // Element (stripe) lengths
-  T gc_y_min = G_row[0 + 1*num_cols];
-  T gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  T gc_y_min = G_row[0 + 1*num_rows];
+  T gc_y_max = G_row[num_rows-1 + 1*num_rows];
   T gr_x_min = G_col[0];
-  T gr_x_max = G_col[num_rows-1];
+  T gr_x_max = G_col[num_cols-1];
 
   im = 0.0;
   const T *y_p = Y;
@@ -552,14 +552,14 @@ SIRError DAS<T>::das_rca_serial_rowtx(const T *Y, // Size: a_scan_len x num_cols
   // * the transmit elements are distributed along the y-dimension (transmit with rows)
   //   and the receive elements are distributed along the x-dimension (cols),
   // * G_col[0] < G_col[num_cols-1] (x-dim edge positions) and
-  //   G_row[0 + 1*num_cols] < G_col[num_cols-1 + 1*num_cols]
+  //   G_row[0 + 1*num_rows] < G_row[num_rows-1 + 1*num_rows]
   //   (y-dim edge positions).
 
   // Element (stripe) lengths
-  T gc_y_min = G_row[0 + 1*num_cols];
-  T gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  T gc_y_min = G_row[0 + 1*num_rows];
+  T gc_y_max = G_row[num_rows-1 + 1*num_rows];
   T gr_x_min = G_col[0];
-  T gr_x_max = G_col[num_rows-1];
+  T gr_x_max = G_col[num_cols-1];
 
   im = 0.0;
   const T *y_p = Y;
diff --git a/opencl/das_double.cl b/opencl/das_double.cl
index 825ebf4..b7daf59 100644
--- a/opencl/das_double.cl
+++ b/opencl/das_double.cl
@@ -127,10 +127,10 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
@@ -207,10 +207,10 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
diff --git a/opencl/das_float.cl b/opencl/das_float.cl
index c525101..3fc582c 100644
--- a/opencl/das_float.cl
+++ b/opencl/das_float.cl
@@ -128,10 +128,10 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0);
@@ -208,10 +208,10 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0);
-- 
2.43.0


From b471b1a312ba56261f84d98466bc5286ab945136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 08/80] fix: rect_sir uses the wrong side of one sub-rectangle
 inside the aperture

---
 extra_src/rect_sir.cc | 2 +-
 opencl/rect_sir.cl    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index 5b78231..937e3d2 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -288,7 +288,7 @@ void RectSir::rect_sir_serial(double xo_i,
 
       case 4:
         s_k = fabs(a/2.0 - xo);
-        l_k = fabs(b/2.0 - yo);
+        l_k = fabs(yo + b/2.0);
         break;
 
       default:
diff --git a/opencl/rect_sir.cl b/opencl/rect_sir.cl
index 9428a22..fa79299 100644
--- a/opencl/rect_sir.cl
+++ b/opencl/rect_sir.cl
@@ -58,7 +58,7 @@ __kernel void rect_sir(__global const double *Ro,
 
       case 4:
         s_k = fabs(a/2.0 - xo);
-        l_k = fabs(b/2.0 - yo);
+        l_k = fabs(yo + b/2.0);
         break;
 
       default:
-- 
2.43.0


From dd2710a67da018126a9a25e133d01eb30eb39c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 09/80] fix: rect_sir ignores the normal velocity

---
 extra_src/rect_sir.cc | 2 +-
 opencl/rect_sir.cl    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index 937e3d2..411e15f 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -415,7 +415,7 @@ void RectSir::rect_sir_serial(double xo_i,
       if ( (t >= tau_3) && (t <= tau_4) )
         a_k -= cp/(2*M_PI) * std::acos( l_k / (cp * std::sqrt(t*t - t_z*t_z)));
 
-      h[it] += g_k * a_k;
+      h[it] += v * g_k * a_k;
 
     } // for it
   } // for k
diff --git a/opencl/rect_sir.cl b/opencl/rect_sir.cl
index fa79299..2353149 100644
--- a/opencl/rect_sir.cl
+++ b/opencl/rect_sir.cl
@@ -189,7 +189,7 @@ __kernel void rect_sir(__global const double *Ro,
       }
 
       if (a_k > 0.0) {
-        h[it] += g_k * a_k; // This hits global memory
+        h[it] += v * g_k * a_k; // This hits global memory
       }
 
     } // for it
-- 
2.43.0


From ff2b07aa7d4012449989f2db188dc78a491154b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 10/80] fix: analytic responses are NaN at samples on the
 arrival of an edge

---
 extra_src/circ_sir.cc | 23 +++++++++++++++++++++--
 extra_src/rect_sir.cc |  7 +++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/extra_src/circ_sir.cc b/extra_src/circ_sir.cc
index cee1694..4470013 100644
--- a/extra_src/circ_sir.cc
+++ b/extra_src/circ_sir.cc
@@ -26,6 +26,25 @@
 #include "circ_sir.h"
 #include "dream_error.h"
 
+/***
+ *
+ * Half the angle of the part of the arc that is inside the aperture, where ct is the distance
+ * travelled. The argument of acos can be slightly outside [-1,1], or 0/0, at the end points.
+ *
+ ***/
+
+static double arc_angle(double ct, double zo, double r, double r_cyl)
+{
+  double num = ct*ct - zo*zo + r_cyl*r_cyl - r*r;
+  double den = (ct > zo) ? 2.0*r_cyl*std::sqrt(ct*ct - zo*zo) : 0.0;
+
+  if (num >= den) {
+    return 0.0;
+  }
+
+  return (num > -den) ? std::acos(num/den) : M_PI;
+}
+
 /***
  *
  *  Subroutine circ_sir - Continous spatial impulse response for a circular aperture.
@@ -77,7 +96,7 @@ void circ_sir(double xo_i,
         h[it] = v * cp;
       }
       else if ( (cp*t >= Rprim) && (cp*t < R) ) {
-        h[it] = v * cp/M_PI * std::acos( (cp*t*cp*t - zo*zo + r_cyl*r_cyl - r*r) / (2.0*r_cyl*std::sqrt(cp*t*cp*t-zo*zo)));
+        h[it] = v * cp/M_PI * arc_angle(cp*t, zo, r, r_cyl);
       }
       else if (cp*t >= R) {
         h[it] = 0.0;
@@ -90,7 +109,7 @@ void circ_sir(double xo_i,
         h[it] = 0.0;
       }
       else if ( (cp*t >= Rprim) && (cp*t < R) ) {
-        h[it] = v * cp/M_PI * std::acos( (cp*t*cp*t - zo*zo + r_cyl*r_cyl - r*r) / (2.0*r_cyl*std::sqrt(cp*t*cp*t-zo*zo)));
+        h[it] = v * cp/M_PI * arc_angle(cp*t, zo, r, r_cyl);
       }
       else if (cp*t >= R) {
         h[it] = 0.0;
diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index 411e15f..4a8cdee 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -405,15 +405,18 @@ void RectSir::rect_sir_serial(double xo_i,
 
       t = (((double) it) * dt + delay)/1.0e6; // in [s].
 
+      // Radius of the arc. NB. s_k/ct and l_k/ct can be slightly above 1.0, or 0/0, when t is at tau_1-tau_3.
+      double ct = (t > t_z) ? cp * std::sqrt(t*t - t_z*t_z) : 0.0;
+
       a_k = 0;
       if ( (t >= tau_1) && (t <= tau_4) )
         a_k += cp/4;
 
       if ( (t >= tau_2) && (t <= tau_4) )
-        a_k -= cp/(2*M_PI) * std::acos( s_k / (cp * std::sqrt(t*t - t_z*t_z)));
+        a_k -= cp/(2*M_PI) * std::acos( (s_k < ct) ? s_k / ct : 1.0);
 
       if ( (t >= tau_3) && (t <= tau_4) )
-        a_k -= cp/(2*M_PI) * std::acos( l_k / (cp * std::sqrt(t*t - t_z*t_z)));
+        a_k -= cp/(2*M_PI) * std::acos( (l_k < ct) ? l_k / ct : 1.0);
 
       h[it] += v * g_k * a_k;
 
-- 
2.43.0


From 91355cb800b003c11581a388481591439c5049aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 11/80] fix: scirc_sir is non-zero before the time of emission
 in the aperture plane

---
 extra_src/scirc_sir.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extra_src/scirc_sir.cc b/extra_src/scirc_sir.cc
index 723e23d..b340571 100644
--- a/extra_src/scirc_sir.cc
+++ b/extra_src/scirc_sir.cc
@@ -86,6 +86,9 @@ void scirc_sir(double xo_i,
     if (t1 < 0.0)
       t1 = 0.0;
 
+    if (t2 < 0.0)
+      t2 = 0.0;
+
     if (r > r_cyl) {
 
       if ( (cp*t1 < zo) && (cp*t2 < zo)) {
-- 
2.43.0


From d205f560353e167caa65951ac5073c7c173f3d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 12/80] fix: convolution results with a single element are lost

A 1x1 Matrix is narrowed to a scalar when it is appended to the output
list, so the threads then wrote to freed memory.
---
 extra_src/oct_conv_p.cc      | 10 +++++++---
 extra_src/oct_fftconv_ola.cc | 10 +++++++---
 extra_src/oct_fftconv_p.cc   | 10 +++++++---
 extra_src/oct_sum_fftconv.cc | 10 +++++++---
 4 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 1cbcfc4..aad8b89 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -293,17 +293,17 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
   }
 
+  Matrix Ymat; // NB. Must stay in scope until the computation is done.
+
   if (nrhs == 2) { // Test for in-place/normal mode.
 
     //
     // Normal (non in-place) mode.
     //
 
-    Matrix Ymat(A_M+B_M-1, A_N);
+    Ymat = Matrix(A_M+B_M-1, A_N);
     Y = (double*) Ymat.data();
 
-    oct_retval.append(Ymat);
-
   } else {
 
     //
@@ -404,5 +404,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  if (nrhs == 2) {
+    oct_retval.append(Ymat);
+  }
+
   return oct_retval;
 }
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 796678f..e4490ad 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -591,16 +591,16 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
   // Normal (non in-place) mode.
   //
 
+  Matrix Ymat; // NB. Must stay in scope until the computation is done.
+
   if (nrhs == 3 || (nrhs == 4 && load_wisdom)) { // Normal mode.
 
     // Allocate mamory for the output matrix.
-    Matrix Ymat(A_M+B_M-1, A_N);
+    Ymat = Matrix(A_M+B_M-1, A_N);
     Y = (double*) Ymat.data();
 
     SIRData ymat(Y, A_M+B_M-1, A_N);
     ymat.clear();
-
-    oct_retval.append(Ymat);
   }
 
   //
@@ -702,6 +702,10 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  if (nrhs == 3 || (nrhs == 4 && load_wisdom)) {
+    oct_retval.append(Ymat);
+  }
+
   // Return the FFTW Wisdom so that the plans can be re-used.
   if (return_wisdom) {
     std::string cmout = fft.get_wisdom();
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index dd525bf..26dd539 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -470,15 +470,15 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   // Normal (non in-place) mode.
   //
 
+  Matrix Ymat; // NB. Must stay in scope until the computation is done.
+
   if (nrhs == 2 || (nrhs == 3 && load_wisdom)) { // Normal mode.
 
-    Matrix Ymat(A_M+B_M-1, A_N);
+    Ymat = Matrix(A_M+B_M-1, A_N);
     Y = (double*) Ymat.data();
 
     SIRData ymat(Y, A_M+B_M-1, A_N);
     ymat.clear();
-
-    oct_retval.append(Ymat);
   }
 
   //
@@ -590,6 +590,10 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  if (nrhs == 2 || (nrhs == 3 && load_wisdom)) {
+    oct_retval.append(Ymat);
+  }
+
   // Return the FFTW Wisdom so that the plans can be re-used.
   if (return_wisdom) {
     std::string cmout = fft.get_wisdom();
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index c158383..8686ee0 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -455,16 +455,16 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   // Normal (non in-place) mode.
   //
 
+  Matrix Ymat; // NB. Must stay in scope until the computation is done.
+
   if (nrhs == 2 ||  (nrhs == 3 && load_wisdom)) {
 
-    Matrix Ymat(fft_len, H_N);
+    Ymat = Matrix(fft_len, H_N);
     Y = (double*) Ymat.data();
 
     // Clear output in normal mode
     SIRData ymat(Y, fft_len, H_N);
     ymat.clear();
-
-    oct_retval.append(Ymat);
   }
 
   //
@@ -573,6 +573,10 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     free(H);
   }
 
+  if (nrhs == 2 ||  (nrhs == 3 && load_wisdom)) {
+    oct_retval.append(Ymat);
+  }
+
   // Return the FFTW Wisdom so that the plans can be re-used.
   if (return_wisdom) {
     std::string cmout = fft.get_wisdom();
-- 
2.43.0


From 932ce4c42d15539333f7b6b74a3222c8a0f1b716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:23 +0000
Subject: [PATCH 13/80] fix: in-place operations on a temporary matrix write to
 freed memory

If the in-place argument is not a full real double matrix then matrix_value()
is a temporary that is gone when the threads write to it (or, in copy_p/add_p,
the result is silently lost).
---
 extra_src/oct_add_p.cc       |  6 ++++++
 extra_src/oct_conv_p.cc      |  6 ++++++
 extra_src/oct_copy_p.cc      |  6 ++++++
 extra_src/oct_fftconv_ola.cc |  6 ++++++
 extra_src/oct_fftconv_p.cc   |  6 ++++++
 extra_src/oct_sum_fftconv.cc |  6 ++++++
 include/inplace.h            | 36 ++++++++++++++++++++++++++++++++++++
 7 files changed, 72 insertions(+)
 create mode 100644 include/inplace.h

diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index c240ce9..2ed36ac 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -32,6 +32,7 @@
 #include <octave/oct.h>
 
 #include "dream.h"
+#include "inplace.h"
 #include "affinity.h"
 
 /***
@@ -185,6 +186,11 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  if (!is_inplace_matrix(args(0))) {
+    error("Argument 1 must be a full real double precision matrix!");
+    return oct_retval;
+  }
+
   const Matrix tmp = args(0).matrix_value();
   A_M = tmp.rows();
   A_N = tmp.cols();
diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index aad8b89..4b3948f 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -27,6 +27,7 @@
 #include <octave/oct.h>
 
 #include "dream.h"
+#include "inplace.h"
 #include "affinity.h"
 #include "conv.h"
 
@@ -310,6 +311,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     // In-place mode.
     //
 
+    if (!is_inplace_matrix(args(2))) {
+      dream_err_msg("Argument 3 must be a full real double precision matrix!");
+      return oct_retval;
+    }
+
     if (args(2).matrix_value().rows() != A_M+B_M-1) {
       dream_err_msg("Wrong number of rows in argument 3!");
       return oct_retval;
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index 5f24b9a..eabc8e1 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -32,6 +32,7 @@
 #include <octave/oct.h>
 
 #include "dream.h"
+#include "inplace.h"
 #include "affinity.h"
 
 /***
@@ -183,6 +184,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  if (!is_inplace_matrix(args(0))) {
+    error("Argument 1 must be a full real double precision matrix!");
+    return oct_retval;
+  }
+
   const Matrix tmp = args(0).matrix_value();
   A_M = tmp.rows();
   A_N = tmp.cols();
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index e4490ad..5254597 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -28,6 +28,7 @@
 #include <octave/oct.h>
 
 #include "dream.h"
+#include "inplace.h"
 //#include "affinity.h"
 #include "fftconv.h"
 
@@ -609,6 +610,11 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
 
   if ( (nrhs == 4 && !load_wisdom) || nrhs == 5 || nrhs == 6) {
 
+    if (!is_inplace_matrix(args(3))) {
+      error("Argument 4 must be a full real double precision matrix!");
+      return oct_retval;
+    }
+
     if (args(3).matrix_value().rows() != A_M+B_M-1) {
       error("Wrong number of rows in argument 4!");
       return oct_retval;
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index 26dd539..07ad8d0 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -28,6 +28,7 @@
 #include <octave/oct.h>
 
 #include "dream.h"
+#include "inplace.h"
 #include "affinity.h"
 #include "fftconv.h"
 
@@ -487,6 +488,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   if ( (nrhs == 3 && !load_wisdom) || nrhs == 4 || nrhs == 5) {
 
+    if (!is_inplace_matrix(args(2))) {
+      error("Argument 3 must be a full real double precision matrix!");
+      return oct_retval;
+    }
+
     if (  args(2).matrix_value().rows() != A_M+B_M-1) {
       error("Wrong number of rows in argument 3!");
       return oct_retval;
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 8686ee0..e4c940f 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -28,6 +28,7 @@
 #include <octave/oct.h>
 
 #include "dream.h"
+#include "inplace.h"
 #include "affinity.h"
 #include "fftconv.h"
 
@@ -475,6 +476,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
     conv_mode = ConvMode::sum;
 
+    if (!is_inplace_matrix(args(2))) {
+      dream_err_msg("Argument 3 must be a full real double precision matrix!");
+      return oct_retval;
+    }
+
     if (args(2).matrix_value().rows() != fft_len) {
       dream_err_msg("Wrong number of rows in argument 3!");
       return oct_retval;
diff --git a/include/inplace.h b/include/inplace.h
new file mode 100644
index 0000000..1cecb15
--- /dev/null
+++ b/include/inplace.h
@@ -0,0 +1,36 @@
+/***
+*
+* Copyright (C) 2025 Fredrik Lingvall
+*
+* This file is part of the DREAM Toolbox.
+*
+* The DREAM Toolbox is free software; you can redistribute it and/or modify
+* it under the terms of the GNU General Public License as published by the
+* Free Software Foundation; either version 2, or (at your option) any
+* later version.
+*
+* The DREAM Toolbox is distributed in the hope that it will be useful, but
+* WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY or
+* FITNESS FOR A PARTICULAR PURPOSE. See the GNU General Public License
+* for more details.
+*
+* You should have received a copy of the GNU General Public License
+* along with the DREAM Toolbox; see the file COPYING.  If not, write to the
+* Free Software Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA
+* 02110-1301, USA.
+*
+***/
+
+#pragma once
+#pragma once
+
+#include <octave/oct.h>
+
+// An in-place output must be a full real double matrix: for everything else (scalars,
+// ranges, single precision, etc.) Octave converts the argument to a temporary
+// matrix so writing to it does not change the argument.
+static inline bool is_inplace_matrix(const octave_value &arg)
+{
+  return arg.is_matrix_type() && arg.is_double_type() && arg.isreal() && arg.numel() != 1 &&
+    !arg.is_range() && !arg.issparse() && !arg.is_diag_matrix() && !arg.is_perm_matrix();
+}
-- 
2.43.0


From a0e34155b763a1d1348c6ea4046b7419c16e7644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 14/80] fix: fftconv_ola uses the wrong columns of A when B is
 a vector

The while loop has already moved Ap to the next column.
---
 extra_src/oct_fftconv_ola.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 5254597..c1e7a9a 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -251,8 +251,6 @@ void* smp_dream_fftconv_ola(void *arg)
         break;
       }
 
-      Ap += A_M;
-
     } // for
   } // if
 
-- 
2.43.0


From 01c5fdb89ed5ae01442cad1e5061f801adec9594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 15/80] fix: fftconv_ola never returns for a zero block length

---
 extra_src/oct_fftconv_ola.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index c1e7a9a..44dfd76 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -413,7 +413,7 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if (block_len < 0 || block_len > A_M) {
+  if (block_len < 1 || block_len > A_M) {
     error("Argument 3 is out of bounds! Must be > 0 and less than number of rows of arg 1!");
     return oct_retval;
   }
-- 
2.43.0


From b6e2a80856a3d55a72b41a664a3f4a0168c56624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 16/80] fix: wrong in-place results from fftconv_ola

The blocks were computed with the in-place mode in an uninitialized scratch
buffer and then added to Y for every mode.
---
 extra_src/oct_fftconv_ola.cc | 54 +++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 44dfd76..28be84b 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -21,6 +21,7 @@
 *
 ***/
 
+#include <algorithm>
 #include <csignal>
 #include <thread>
 #include <complex>
@@ -75,6 +76,23 @@ void sighandler(int signum);
 void sig_abrt_handler(int signum);
 void sig_keyint_handler(int signum);
 
+/***
+ *
+ * Add (or subtract) one convolved block to the output.
+ *
+ ***/
+
+static void add_overlap(double *Y, const double *y, dream_idx_type len, ConvMode conv_mode)
+{
+  for (dream_idx_type l=0; l<len; l++) {
+    if (conv_mode == ConvMode::neg) {
+      Y[l] -= y[l];
+    } else {
+      Y[l] += y[l];
+    }
+  }
+}
+
 /***
  *
  * Thread function
@@ -123,6 +141,10 @@ void* smp_dream_fftconv_ola(void *arg)
 
     for (n=col_start; n<col_stop; n++) {
 
+      if (conv_mode == ConvMode::equ) {
+        memset(&Y[n*(A_M+B_M-1)], 0, (A_M+B_M-1)*sizeof(double));
+      }
+
       //
       // The overlap-and-add algorithm.
       //
@@ -138,7 +160,7 @@ void* smp_dream_fftconv_ola(void *arg)
         if (k+block_len < A_M) {
 
           fftconv(fft, Ap, block_len, Bp, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
           len = block_len;
 
@@ -156,7 +178,7 @@ void* smp_dream_fftconv_ola(void *arg)
           memset(&a_block[A_M-k], 0, (block_len - len)*sizeof(double));
 
           fftconv(fft, a_block, block_len, Bp, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
         }
 
         Ap += len;
@@ -165,15 +187,7 @@ void* smp_dream_fftconv_ola(void *arg)
         // Add the overlap.
         //
 
-        if (k+fft_len <  A_M+B_M-1) {
-          for (dream_idx_type l=0; l<fft_len; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
-          }
-        } else {
-          for (dream_idx_type l=0; l<(A_M+B_M-1)-k; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
-          }
-        }
+        add_overlap(&Y[k + n*(A_M+B_M-1)], y, std::min(fft_len, (A_M+B_M-1)-k), conv_mode);
 
         k += block_len;
       }
@@ -195,6 +209,10 @@ void* smp_dream_fftconv_ola(void *arg)
 
     for (n=col_start; n<col_stop; n++) {
 
+      if (conv_mode == ConvMode::equ) {
+        memset(&Y[n*(A_M+B_M-1)], 0, (A_M+B_M-1)*sizeof(double));
+      }
+
       //
       // The overlap-and-add algorithm.
       //
@@ -207,7 +225,7 @@ void* smp_dream_fftconv_ola(void *arg)
         if (k+block_len < A_M) {
 
           fftconv(fft, Ap, block_len, B, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
           len = block_len;
 
@@ -225,22 +243,14 @@ void* smp_dream_fftconv_ola(void *arg)
           memset(&a_block[A_M-k], 0, (block_len - len)*sizeof(double));
 
           fftconv(fft, a_block, block_len, B, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
         }
 
         Ap += len;
 
         // Add the overlap.
-        if (k+fft_len < A_M+B_M-1) {
-          for (dream_idx_type l=0; l<fft_len; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
-          }
-        } else {
-          for (dream_idx_type l=0; l<(A_M+B_M-1)-k; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
-          }
-        }
+        add_overlap(&Y[k + n*(A_M+B_M-1)], y, std::min(fft_len, (A_M+B_M-1)-k), conv_mode);
 
         k += block_len;
       } // while
-- 
2.43.0


From 6d45807710a697566e60b8b1070175a3744c0db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 17/80] fix: in-place mode ignored when a wisdom string is also
 given

---
 extra_src/oct_fftconv_ola.cc | 19 +++++++++++++++++++
 extra_src/oct_fftconv_p.cc   | 19 +++++++++++++++++++
 include/inplace.h            |  1 -
 3 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 28be84b..c69b49c 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -514,6 +514,25 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     break;
 
   case 6: // In-place mode if 6 input args.
+    if ( args(4).is_string() ) { // 5th arg is a string ('=','+=', or '-=').
+
+      std::string ip_mode = args(4).string_value();
+
+      if (ip_mode.compare("=") == 0) {
+        conv_mode=ConvMode::equ;
+      } else if (ip_mode.compare("+=") == 0) {
+        conv_mode=ConvMode::sum;
+      } else if (ip_mode.compare("-=") == 0) {
+        conv_mode=ConvMode::neg;
+      } else {
+        error("Non-valid string in arg 5!");
+        return oct_retval;
+      }
+    } else { // 5th arg not a string
+      error("Argument 5 is not a valid string format!");
+      return oct_retval;
+    }
+
     if ( args(5).is_string() ) { // 6:th arg is a string (fftw wisdom).
 
       // Read the wisdom string.
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index 07ad8d0..5e01158 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -392,6 +392,25 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     break;
 
   case 5: // In-place mode if input 5 args.
+    if ( args(3).is_string() ) { // 4th arg is a string ('=','+=', or '-=').
+
+      std::string ip_mode = args(3).string_value();
+
+      if (ip_mode.compare("=") == 0) {
+        conv_mode=ConvMode::equ;
+      } else if (ip_mode.compare("+=") == 0) {
+        conv_mode=ConvMode::sum;
+      } else if (ip_mode.compare("-=") == 0) {
+        conv_mode=ConvMode::neg;
+      } else {
+        error("Non-valid string in arg 4!");
+        return oct_retval;
+      }
+    } else { // 4th arg not a string
+      error("Argument 4 is not a valid string format!");
+      return oct_retval;
+    }
+
     if ( args(4).is_string() ) { // 5:th arg is a string (FFTW wisdom).
 
       // Read the wisdom string.
diff --git a/include/inplace.h b/include/inplace.h
index 1cecb15..4e2e531 100644
--- a/include/inplace.h
+++ b/include/inplace.h
@@ -21,7 +21,6 @@
 *
 ***/
 
-#pragma once
 #pragma once
 
 #include <octave/oct.h>
-- 
2.43.0


From 3d93a5d33966839c58dab71ceb4894f8bd48a64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 18/80] fix: sum_fftconv with one-sample input signals

A 1xL matrix of input signals was taken as one signal of length L so the
output got the wrong length and U was read out of bounds.
---
 extra_src/oct_sum_fftconv.cc | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index e4c940f..0b0699a 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -334,11 +334,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if (U_M == 1 || U_N == 1 ) { // U is a vector.
-    U_M = U_M*U_N;
-    U_N = 1;
-  }
-
   fft_len = H_M+U_M-1;
 
   // NB We call the FFTW planners only from the main thread once
-- 
2.43.0


From 2167dce627cc084dc33e13064517f4dc72a20b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 19/80] fix: sum_fftconv adds to the output in in-place mode

The documentation (and the MATLAB version) store the result in Y.
---
 extra_src/oct_sum_fftconv.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 0b0699a..8033d1e 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -469,8 +469,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   if ( (nrhs == 3 && !load_wisdom) || nrhs == 4 ) {
 
-    conv_mode = ConvMode::sum;
-
     if (!is_inplace_matrix(args(2))) {
       dream_err_msg("Argument 3 must be a full real double precision matrix!");
       return oct_retval;
-- 
2.43.0


From bafdb16ff9ddf8c1e25c0480c532af7d8564fbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 20/80] fix: conv_p silently ignores a 4th argument that is not
 a string

---
 extra_src/oct_conv_p.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 4b3948f..e50b9ed 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -224,6 +224,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
         dream_err_msg("Non-valid string in arg 4!");
         return oct_retval;
       }
+    } else { // 4th arg not a string
+      dream_err_msg("Argument 4 is not a valid string format!");
+      return oct_retval;
     }
     break;
 
-- 
2.43.0


From 73a0f1ad52429c26f916f79385ee1d75f04d7e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 21/80] fix: copy_p and add_p read and write outside the
 matrices

The columns of A, not those of the addressed sub-matrix, were distributed
over the threads.
---
 extra_src/oct_add_p.cc  | 10 +++++-----
 extra_src/oct_copy_p.cc | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index 2ed36ac..7ee01c7 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -270,9 +270,9 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     }
   }
 
-  // nthreads can't be larger then the number of columns in the A matrix.
-  if (nthreads > A_N) {
-    nthreads = A_N;
+  // nthreads can't be larger then the number of columns in the B matrix.
+  if (nthreads > B_N) {
+    nthreads = B_N;
   }
 
   if (nthreads < 1) {
@@ -317,8 +317,8 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
-    col_start = ((octave_idx_type) thread_n) * A_N/nthreads;
-    col_stop =  ((octave_idx_type) thread_n+1) * A_N/nthreads;
+    col_start = ((octave_idx_type) thread_n) * B_N/nthreads;
+    col_stop =  ((octave_idx_type) thread_n+1) * B_N/nthreads;
 
     // Init local data.
     D[thread_n].col_start = col_start; // Local start index;
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index eabc8e1..3501877 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -268,9 +268,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     }
   }
 
-  // nthreads can't be larger then the number of columns in the A matrix.
-  if (nthreads > A_N) {
-    nthreads = A_N;
+  // nthreads can't be larger then the number of columns in the B matrix.
+  if (nthreads > B_N) {
+    nthreads = B_N;
   }
 
   if (nthreads < 1) {
@@ -315,8 +315,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
-    line_start = ((octave_idx_type) thread_n) * A_N/nthreads;
-    line_stop =  ((octave_idx_type) thread_n+1) * A_N/nthreads;
+    line_start = ((octave_idx_type) thread_n) * B_N/nthreads;
+    line_stop =  ((octave_idx_type) thread_n+1) * B_N/nthreads;
 
     // Init local data.
     D[thread_n].line_start = line_start; // Local start index;
-- 
2.43.0


From 5ed4e77b1d282ccbe31a9afa9df9ace8a107afa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:03 +0000
Subject: [PATCH 22/80] fix: copy_p and add_p accept row and column ranges
 outside the matrix

---
 extra_src/oct_add_p.cc  | 6 +++---
 extra_src/oct_copy_p.cc | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index 7ee01c7..4c659ed 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -217,7 +217,7 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) r[1] < 1) {
+  if ( (octave_idx_type) r[0] < 1) {
     error("1st element of argument 2 must be > 1!");
     return oct_retval;
   }
@@ -233,7 +233,7 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) k[1] < 1) {
+  if ( (octave_idx_type) k[0] < 1) {
     error("1st element of argument 3 must be > 1!");
     return oct_retval;
   }
@@ -244,7 +244,7 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
   }
 
   // Check that arg 4.
-  if (B_M < (octave_idx_type) (r[1]-r[0])+1 ) {
+  if (B_M != (octave_idx_type) (r[1]-r[0])+1 ) {
     error("Argument 4 has not the number of rows as given by arg 2!");
     return oct_retval;
   }
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index 3501877..fe234b1 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -215,7 +215,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) r[1] < 1) {
+  if ( (octave_idx_type) r[0] < 1) {
     error("1st element of argument 2 must be > 1!");
     return oct_retval;
   }
@@ -231,7 +231,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) k[1] < 1) {
+  if ( (octave_idx_type) k[0] < 1) {
     error("1st element of argument 3 must be > 1!");
     return oct_retval;
   }
@@ -242,7 +242,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   }
 
   // Check that arg 4.
-  if (B_M < (octave_idx_type) (r[1]-r[0])+1 ) {
+  if (B_M != (octave_idx_type) (r[1]-r[0])+1 ) {
     error("Argument 4 has not the number of rows as given by arg 2!");
     return oct_retval;
   }
-- 
2.43.0


From 4bfbb561bf1826796d04c7c8fbf4695abc2b4a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:19 +0000
Subject: [PATCH 23/80] fix: convolution functions leave their signal handlers
 installed

The handlers were registered before the remaining argument checks so they
were never restored when an argument was refused.
---
 extra_src/oct_conv_p.cc      | 32 ++++++++++++++++----------------
 extra_src/oct_fftconv_ola.cc | 32 ++++++++++++++++----------------
 extra_src/oct_fftconv_p.cc   | 32 ++++++++++++++++----------------
 extra_src/oct_sum_fftconv.cc | 32 ++++++++++++++++----------------
 4 files changed, 64 insertions(+), 64 deletions(-)

diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index e50b9ed..bac4bfd 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -281,22 +281,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     nthreads = 1;
   }
 
-  //
-  // Register signal handlers.
-  //
-
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
-
   Matrix Ymat; // NB. Must stay in scope until the computation is done.
 
   if (nrhs == 2) { // Test for in-place/normal mode.
@@ -338,6 +322,22 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   // Call the CONV subroutine.
   //
 
+  //
+  // Register signal handlers.
+  //
+
+  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
+  }
+
+  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
+  }
+
+  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
+  }
+
   running = true;
 
   // Allocate local data.
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index c69b49c..1dd5829 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -585,22 +585,6 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     nthreads = 1;
   }
 
-  //
-  // Register signal handlers.
-  //
-
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
-
   // ********************************************
   //
   // Init the FFTW plans.
@@ -670,6 +654,22 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  //
+  // Register signal handlers.
+  //
+
+  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
+  }
+
+  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
+  }
+
+  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
+  }
+
   running = true;
 
   for (dream_idx_type thread_n=0; thread_n<nthreads; thread_n++) {
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index 5e01158..c55c420 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -459,22 +459,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     nthreads = 1;
   }
 
-  //
-  // Register signal handlers.
-  //
-
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
-
   //
   // Init the FFTW plans.
   //
@@ -530,6 +514,22 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   // Call the CONV subroutine.
   //
 
+  //
+  // Register signal handlers.
+  //
+
+  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
+  }
+
+  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
+  }
+
+  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
+  }
+
   running = true;
 
   // Allocate local data.
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 8033d1e..16fa1f0 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -420,22 +420,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     nthreads = 1;
   }
 
-  //
-  // Register signal handlers.
-  //
-
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
-
   //
   // Init the FFTW plans.
   //
@@ -492,6 +476,22 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   // Call the CONV subroutine.
   //
 
+  //
+  // Register signal handlers.
+  //
+
+  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
+  }
+
+  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
+  }
+
+  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
+  }
+
   running = true;
 
   // Allocate local data.
-- 
2.43.0


From c9f3bad3c4867f38a7f280a4d8abecc6204e909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:53 +0000
Subject: [PATCH 24/80] fix: transducer and imaging functions leave their
 signal handlers installed

After a call an interrupt was still delivered to the abort function of the
function that was called last instead of to the handler of the host.
---
 extra_src/oct_das.cc              | 10 +++----
 extra_src/oct_rect_sir.cc         |  5 ++--
 include/signal_guard.h            | 49 +++++++++++++++++++++++++++++++
 oct/oct_dream_arr_annu.cc         |  4 +++
 oct/oct_dream_arr_circ.cc         |  5 ++--
 oct/oct_dream_arr_cylind.cc       |  5 ++--
 oct/oct_dream_arr_rect.cc         |  5 ++--
 oct/oct_dreamcirc.cc              |  5 ++--
 oct/oct_dreamcirc_f.cc            |  5 ++--
 oct/oct_dreamcylind.cc            |  5 ++--
 oct/oct_dreamline.cc              |  5 ++--
 oct/oct_dreamrect.cc              |  5 ++--
 oct/oct_dreamrect_f.cc            |  5 ++--
 oct/oct_dreamsphere.cc            |  5 ++--
 python/src/py_dream_arr_annu.cc   |  5 ++--
 python/src/py_dream_arr_circ.cc   |  5 ++--
 python/src/py_dream_arr_cylind.cc |  5 ++--
 python/src/py_dream_arr_rect.cc   |  5 ++--
 python/src/py_dreamcirc.cc        |  5 ++--
 python/src/py_dreamcirc_f.cc      |  5 ++--
 python/src/py_dreamcylind.cc      |  5 ++--
 python/src/py_dreamline.cc        |  5 ++--
 python/src/py_dreamrect.cc        |  5 ++--
 python/src/py_dreamrect_f.cc      |  5 ++--
 python/src/py_dreamsphere.cc      |  5 ++--
 25 files changed, 123 insertions(+), 50 deletions(-)
 create mode 100644 include/signal_guard.h

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 1c4c660..bbe3bc2 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -24,6 +24,7 @@
 #include<csignal>
 
 #include "das.h"
+#include "signal_guard.h"
 #include "arg_parser.h"
 
 #include <octave/oct.h>
@@ -466,9 +467,6 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
 
     das_d->set_running();
 
-    // Register signal handler.
-    std::signal(SIGABRT, DAS<float>::abort);
-
   } else {
 
     //
@@ -502,11 +500,11 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     }
 
     das_d->set_running();
-
-    // Register signal handler.
-    std::signal(SIGABRT, DAS<double>::abort);
   }
 
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGABRT, use_float ? DAS<float>::abort : DAS<double>::abort);
+
   SIRError err = SIRError::none;
 
 #ifdef USE_OPENCL
diff --git a/extra_src/oct_rect_sir.cc b/extra_src/oct_rect_sir.cc
index 69ce2b6..24660ab 100644
--- a/extra_src/oct_rect_sir.cc
+++ b/extra_src/oct_rect_sir.cc
@@ -24,6 +24,7 @@
 #include <csignal>
 
 #include "rect_sir.h"
+#include "signal_guard.h"
 #include "arg_parser.h"
 
 #include <octave/oct.h>
@@ -223,8 +224,8 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
 
   RectSir rect_sir;
 
-  // Register signal handler.
-  std::signal(SIGABRT, RectSir::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGABRT, RectSir::abort);
 
   //
   // Call the rect_sir subroutine.
diff --git a/include/signal_guard.h b/include/signal_guard.h
new file mode 100644
index 0000000..35890b3
--- /dev/null
+++ b/include/signal_guard.h
@@ -0,0 +1,49 @@
+/***
+*
+* Copyright (C) 2026 Fredrik Lingvall
+*
+* This file is part of the DREAM Toolbox.
+*
+* The DREAM Toolbox is free software; you can redistribute it and/or modify
+* it under the terms of the GNU General Public License as published by the
+* Free Software Foundation; either version 2, or (at your option) any
+* later version.
+*
+* The DREAM Toolbox is distributed in the hope that it will be useful, but
+* WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY or
+* FITNESS FOR A PARTICULAR PURPOSE. See the GNU General Public License
+* for more details.
+*
+* You should have received a copy of the GNU General Public License
+* along with the DREAM Toolbox; see the file COPYING.  If not, write to the
+* Free Software Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA
+* 02110-1301, USA.
+*
+***/
+#pragma once
+
+#include <csignal>
+
+//! Installs a signal handler and restores the previous handler when leaving the scope.
+class SignalGuard
+{
+public:
+
+  SignalGuard(int signum, void (*handler)(int))
+    : m_signum(signum)
+    , m_old_handler(std::signal(signum, handler)) {};
+
+  ~SignalGuard() {
+    if (m_old_handler != SIG_ERR) {
+      std::signal(m_signum, m_old_handler);
+    }
+  };
+
+  SignalGuard(const SignalGuard&) = delete;
+  SignalGuard& operator=(const SignalGuard&) = delete;
+
+private:
+
+  int m_signum;
+  void (*m_old_handler)(int);
+};
diff --git a/oct/oct_dream_arr_annu.cc b/oct/oct_dream_arr_annu.cc
index 991a3af..d084c7b 100644
--- a/oct/oct_dream_arr_annu.cc
+++ b/oct/oct_dream_arr_annu.cc
@@ -24,6 +24,7 @@
 #include <csignal>
 
 #include "dream_arr_annu.h"
+#include "signal_guard.h"
 #include "arg_parser.h"
 
 //
@@ -293,6 +294,9 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   ArrAnnu arr_annu;
 
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, ArrAnnu::abort);
+
   //
   // Call the DREAM subroutine.
   //
diff --git a/oct/oct_dream_arr_circ.cc b/oct/oct_dream_arr_circ.cc
index 453128e..3855acc 100644
--- a/oct/oct_dream_arr_circ.cc
+++ b/oct/oct_dream_arr_circ.cc
@@ -24,6 +24,7 @@
 #include <csignal>
 
 #include "dream_arr_circ.h"
+#include "signal_guard.h"
 #include "arg_parser.h"
 
 //
@@ -333,8 +334,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   ArrCirc arr_circ;
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrCirc::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, ArrCirc::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dream_arr_cylind.cc b/oct/oct_dream_arr_cylind.cc
index dc47b8f..2635d1e 100644
--- a/oct/oct_dream_arr_cylind.cc
+++ b/oct/oct_dream_arr_cylind.cc
@@ -24,6 +24,7 @@
 #include <csignal>
 
 #include "dream_arr_cylind.h"
+#include "signal_guard.h"
 #include "arg_parser.h"
 
 //
@@ -337,8 +338,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   ArrCylind arr_cylind;
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrCylind::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, ArrCylind::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dream_arr_rect.cc b/oct/oct_dream_arr_rect.cc
index 6df3e5f..8229770 100644
--- a/oct/oct_dream_arr_rect.cc
+++ b/oct/oct_dream_arr_rect.cc
@@ -24,6 +24,7 @@
 #include <csignal>
 
 #include "dream_arr_rect.h"
+#include "signal_guard.h"
 #include "arg_parser.h"
 
 //
@@ -335,8 +336,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   ArrRect arr_rect;
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrRect::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, ArrRect::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamcirc.cc b/oct/oct_dreamcirc.cc
index 4e5d165..bfb478c 100644
--- a/oct/oct_dreamcirc.cc
+++ b/oct/oct_dreamcirc.cc
@@ -24,6 +24,7 @@
 #include <csignal>
 
 #include "dreamcirc.h"
+#include "signal_guard.h"
 #include "arg_parser.h"
 
 #include <octave/oct.h>
@@ -220,8 +221,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   Circ circ;
 
-  // Register signal handler.
-  std::signal(SIGINT, Circ::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, Circ::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamcirc_f.cc b/oct/oct_dreamcirc_f.cc
index 21774ac..ebbf70f 100644
--- a/oct/oct_dreamcirc_f.cc
+++ b/oct/oct_dreamcirc_f.cc
@@ -24,6 +24,7 @@
 #include <csignal>
 
 #include "dreamcirc_f.h"
+#include "signal_guard.h"
 #include "arg_parser.h"
 
 #include <octave/oct.h>
@@ -226,8 +227,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   Circ_f circ_f;
 
-  // Register signal handler.
-  std::signal(SIGINT, Circ_f::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, Circ_f::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamcylind.cc b/oct/oct_dreamcylind.cc
index 1bf8104..33b2822 100644
--- a/oct/oct_dreamcylind.cc
+++ b/oct/oct_dreamcylind.cc
@@ -24,6 +24,7 @@
 #include <csignal>
 
 #include "dreamcylind.h"
+#include "signal_guard.h"
 #include "arg_parser.h"
 
 //
@@ -212,8 +213,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   Cylind cylind;
 
-  // Register signal handler.
-  std::signal(SIGINT, Cylind::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, Cylind::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamline.cc b/oct/oct_dreamline.cc
index 1e46c26..0119f7a 100644
--- a/oct/oct_dreamline.cc
+++ b/oct/oct_dreamline.cc
@@ -25,6 +25,7 @@
 #include <atomic>
 
 #include "dreamline.h"
+#include "signal_guard.h"
 #include "arg_parser.h"
 
 #include <octave/oct.h>
@@ -191,8 +192,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   Line line;
 
-  // Register signal handler.
-  std::signal(SIGINT, Line::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, Line::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamrect.cc b/oct/oct_dreamrect.cc
index a5851f8..882d044 100644
--- a/oct/oct_dreamrect.cc
+++ b/oct/oct_dreamrect.cc
@@ -24,6 +24,7 @@
 #include <csignal>
 
 #include "dreamrect.h"
+#include "signal_guard.h"
 #include "arg_parser.h"
 
 #include <octave/oct.h>
@@ -223,8 +224,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   Rect rect;
 
-  // Register signal handler.
-  std::signal(SIGINT, Rect::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, Rect::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamrect_f.cc b/oct/oct_dreamrect_f.cc
index 3161f94..80b5d47 100644
--- a/oct/oct_dreamrect_f.cc
+++ b/oct/oct_dreamrect_f.cc
@@ -24,6 +24,7 @@
 #include <csignal>
 
 #include "dreamrect_f.h"
+#include "signal_guard.h"
 #include "arg_parser.h"
 
 #include <octave/oct.h>
@@ -229,8 +230,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   Rect_f rect_f;
 
-  // Register signal handler.
-  std::signal(SIGINT, Rect_f::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, Rect_f::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamsphere.cc b/oct/oct_dreamsphere.cc
index cf8d5fc..d70f0db 100644
--- a/oct/oct_dreamsphere.cc
+++ b/oct/oct_dreamsphere.cc
@@ -24,6 +24,7 @@
 #include <csignal>
 
 #include "dreamsphere.h"
+#include "signal_guard.h"
 #include "arg_parser.h"
 
 #include <octave/oct.h>
@@ -204,8 +205,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   Sphere sphere;
 
-  // Register signal handler.
-  std::signal(SIGINT, Sphere::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, Sphere::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index cfaefdc..1bd15bf 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "dream_arr_annu.h"
+#include "signal_guard.h"
 #include "arg_parser_python.h"
 
 #include <pybind11/pybind11.h>
@@ -164,8 +165,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
   SIRData hsir(h, nt, no);
   hsir.clear();
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrAnnu::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, ArrAnnu::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dream_arr_circ.cc b/python/src/py_dream_arr_circ.cc
index e3b2efc..87b91e4 100644
--- a/python/src/py_dream_arr_circ.cc
+++ b/python/src/py_dream_arr_circ.cc
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "dream_arr_circ.h"
+#include "signal_guard.h"
 #include "arg_parser_python.h"
 
 #include <pybind11/pybind11.h>
@@ -188,8 +189,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_circ(py::array_t<double,py::
   SIRData hsir(h, nt, no);
   hsir.clear();
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrCirc::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, ArrCirc::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dream_arr_cylind.cc b/python/src/py_dream_arr_cylind.cc
index 1a72585..504d1ea 100644
--- a/python/src/py_dream_arr_cylind.cc
+++ b/python/src/py_dream_arr_cylind.cc
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "dream_arr_cylind.h"
+#include "signal_guard.h"
 #include "arg_parser_python.h"
 
 #include <pybind11/pybind11.h>
@@ -188,8 +189,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_cylind(py::array_t<double,py
   SIRData hsir(h, nt, no);
   hsir.clear();
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrCylind::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, ArrCylind::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dream_arr_rect.cc b/python/src/py_dream_arr_rect.cc
index 4d4aac3..5f8ef38 100644
--- a/python/src/py_dream_arr_rect.cc
+++ b/python/src/py_dream_arr_rect.cc
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "dream_arr_rect.h"
+#include "signal_guard.h"
 #include "arg_parser_python.h"
 
 #include <pybind11/pybind11.h>
@@ -188,8 +189,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_rect(py::array_t<double,py::
   SIRData hsir(h, nt, no);
   hsir.clear();
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrRect::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, ArrRect::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamcirc.cc b/python/src/py_dreamcirc.cc
index 6cc4009..67f086a 100644
--- a/python/src/py_dreamcirc.cc
+++ b/python/src/py_dreamcirc.cc
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "dreamcirc.h"
+#include "signal_guard.h"
 #include "arg_parser_python.h"
 
 #include <pybind11/pybind11.h>
@@ -126,8 +127,8 @@ py::array_t<double,py::array::f_style> py_dreamcirc(py::array_t<double,py::array
   SIRData hsir(h, nt, no);
   hsir.clear();
 
-  // Register signal handler.
-  std::signal(SIGINT, Circ::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, Circ::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamcirc_f.cc b/python/src/py_dreamcirc_f.cc
index ac66b1f..17d3ca5 100644
--- a/python/src/py_dreamcirc_f.cc
+++ b/python/src/py_dreamcirc_f.cc
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "dreamcirc_f.h"
+#include "signal_guard.h"
 #include "arg_parser_python.h"
 
 #include <pybind11/pybind11.h>
@@ -141,8 +142,8 @@ py::array_t<double,py::array::f_style> py_dreamcirc_f(py::array_t<double,py::arr
 
   Circ_f circ_f;
 
-  // Register signal handler.
-  std::signal(SIGINT, Circ_f::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, Circ_f::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamcylind.cc b/python/src/py_dreamcylind.cc
index 1e8b19f..e3eaffc 100644
--- a/python/src/py_dreamcylind.cc
+++ b/python/src/py_dreamcylind.cc
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "dreamcylind.h"
+#include "signal_guard.h"
 #include "arg_parser_python.h"
 
 #include <pybind11/pybind11.h>
@@ -126,8 +127,8 @@ py::array_t<double,py::array::f_style> py_dreamcylind(py::array_t<double,py::arr
   SIRData hsir(h, nt, no);
   hsir.clear();
 
-  // Register signal handler.
-  std::signal(SIGINT, Cylind::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, Cylind::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamline.cc b/python/src/py_dreamline.cc
index f0d8591..cf01c01 100644
--- a/python/src/py_dreamline.cc
+++ b/python/src/py_dreamline.cc
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "dreamline.h"
+#include "signal_guard.h"
 #include "arg_parser_python.h"
 
 #include <pybind11/pybind11.h>
@@ -128,8 +129,8 @@ py::array_t<double,py::array::f_style> py_dreamline(py::array_t<double,py::array
 
   Line line;
 
-  // Register signal handler.
-  std::signal(SIGINT, Line::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, Line::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamrect.cc b/python/src/py_dreamrect.cc
index be1e020..4969f23 100644
--- a/python/src/py_dreamrect.cc
+++ b/python/src/py_dreamrect.cc
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "dreamrect.h"
+#include "signal_guard.h"
 #include "arg_parser_python.h"
 
 #include <pybind11/pybind11.h>
@@ -128,8 +129,8 @@ py::array_t<double,py::array::f_style> py_dreamrect(py::array_t<double,py::array
 
   Rect rect;
 
-  // Register signal handler.
-  std::signal(SIGINT, Rect::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, Rect::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamrect_f.cc b/python/src/py_dreamrect_f.cc
index 5e4223e..52b8aef 100644
--- a/python/src/py_dreamrect_f.cc
+++ b/python/src/py_dreamrect_f.cc
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "dreamrect_f.h"
+#include "signal_guard.h"
 #include "arg_parser_python.h"
 
 #include <pybind11/pybind11.h>
@@ -141,8 +142,8 @@ py::array_t<double,py::array::f_style> py_dreamrect_f(py::array_t<double,py::arr
 
   Rect_f rect_f;
 
-  // Register signal handler.
-  std::signal(SIGINT, Rect_f::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, Rect_f::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamsphere.cc b/python/src/py_dreamsphere.cc
index c3bee38..6d2a806 100644
--- a/python/src/py_dreamsphere.cc
+++ b/python/src/py_dreamsphere.cc
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "dreamsphere.h"
+#include "signal_guard.h"
 #include "arg_parser_python.h"
 
 #include <pybind11/pybind11.h>
@@ -126,8 +127,8 @@ py::array_t<double,py::array::f_style> py_dreamsphere(py::array_t<double,py::arr
   SIRData hsir(h, nt, no);
   hsir.clear();
 
-  // Register signal handler.
-  std::signal(SIGINT, Sphere::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, Sphere::abort);
 
   //
   // Call DREAM function
-- 
2.43.0


From 10d6cc0ae5415c5547ef998ccb4197b28e2f8ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 25/80] fix: arguments that are not full double matrices are
 read after they are freed

---
 include/arg_parser.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/arg_parser.h b/include/arg_parser.h
index d750ba6..6ac555a 100644
--- a/include/arg_parser.h
+++ b/include/arg_parser.h
@@ -33,6 +33,7 @@
 #include "dream_error.h"
 
 #ifdef DREAM_OCTAVE
+#include <list>
 #include <octave/oct.h>
 typedef octave_value_list args_t;
 #endif
@@ -604,8 +605,10 @@ public:
   };
 
   double* get_data(const args_t args, dream_idx_type arg_num) {
-    const Matrix tmp_mat = args(arg_num).matrix_value();
-    return (double*) tmp_mat.data();
+    // Keep a reference to the matrix since matrix_value() returns a temporary when
+    // the argument is not stored as a (full, double precision) matrix.
+    m_mats.push_back(args(arg_num).matrix_value());
+    return (double*) m_mats.back().data();
   };
 
   double get_scalar(const args_t args, dream_idx_type arg_num) {
@@ -620,6 +623,12 @@ public:
     return args(arg_num).string_value();
   };
 
+private:
+
+  std::list<Matrix> m_mats;
+
+public:
+
 #endif
 
 #ifdef DREAM_MATLAB
-- 
2.43.0


From 26b81ec3207ada4ec4dea6e2f3df16ab834ae499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:29 +0000
Subject: [PATCH 26/80] fix: argument checks accept delay and annular array
 arguments of the wrong shape

---
 include/arg_parser.h        | 18 ++++++++++--------
 include/arg_parser_python.h | 18 ++++++++----------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/arg_parser.h b/include/arg_parser.h
index 6ac555a..590ca53 100644
--- a/include/arg_parser.h
+++ b/include/arg_parser.h
@@ -110,7 +110,8 @@ public:
   bool check_array_annu(const char *func_name, args_t args, dream_idx_type arg_num) {
     bool retval=true;
     std::ostringstream s;
-    if ( (get_m(args, arg_num) != 1) && (get_n(args, arg_num) != 1) && (get_n(args, arg_num)*get_n(args, arg_num) % 2 == 0) ) {
+    dream_idx_type m = get_m(args, arg_num), n = get_n(args, arg_num);
+    if ( ((m != 1) && (n != 1)) || (m*n % 2 == 0) ) {
       s << func_name <<  " requires that arg " << arg_num+1 << "  must be a (number of radii) vector with an odd number of elements!";
       dream_err_msg(s.str().c_str());
       retval=false;
@@ -238,13 +239,12 @@ public:
     bool retval=true;
     std::ostringstream s;
 
-    dream_idx_type delay_len = get_m(args, arg_num)*get_n(args, arg_num);
-    if ( (delay_len > 1) && (delay_len != No) ) { // delay is a vector
-
-      if (!((get_m(args, arg_num)==delay_len && get_n(args, arg_num)==1) || (get_m(args, arg_num)==1 && get_n(args, arg_num)==delay_len))) {
-        s << func_name <<  " requires that arg " << arg_num+1 << " (delay) must be a " << delay_len << " element vector";
-        s << " (with a length equal to the number of observation points) or a scalar!";
-      }
+    dream_idx_type m = get_m(args, arg_num), n = get_n(args, arg_num);
+    bool is_scalar = (m == 1 && n == 1);
+    bool is_vector = ((m == No && n == 1) || (m == 1 && n == No));
+    if (!is_scalar && !is_vector) {
+      s << func_name <<  " requires that arg " << arg_num+1 << " (delay) must be a " << No << " element vector";
+      s << " (with a length equal to the number of observation points) or a scalar!";
       dream_err_msg(s.str().c_str());
       retval=false;
     }
@@ -513,6 +513,7 @@ public:
         // Vector of apodization weights.
         if (get_m(args, arg_num+1) * get_n(args, arg_num+1) != num_elements) {
           s << func_name <<  " the length of argument arg " << arg_num+1 << " (apodization vector) must be the same as the number of array elements!";
+          dream_err_msg(s.str().c_str());
           retval=false;
         } else { // Copy the user defined apodization weights.
           double *tmp_apod = get_data(args, arg_num+1);
@@ -520,6 +521,7 @@ public:
             std::memcpy(apod, tmp_apod, num_elements*sizeof(double));
           } else {
             s << func_name << " apodization vector not initialzed!";
+            dream_err_msg(s.str().c_str());
             retval=false;
           }
         }
diff --git a/include/arg_parser_python.h b/include/arg_parser_python.h
index 57bac5d..d6dfb17 100644
--- a/include/arg_parser_python.h
+++ b/include/arg_parser_python.h
@@ -116,8 +116,8 @@ public:
     bool retval=true;
     std::ostringstream s;
 
-    if ( (get_m(py_G) != 1) && (get_n(py_G) != 1) &&
-         (get_n(py_G)*get_n(py_G) % 2 == 0) ) {
+    dream_idx_type m = get_m(py_G), n = get_n(py_G);
+    if ( ((m != 1) && (n != 1)) || (m*n % 2 == 0) ) {
       s << func_name <<  " requires that array grid arg must be a (number of radii) vector with an odd number of elements!";
       dream_err_msg(s.str().c_str());
       retval=false;
@@ -258,14 +258,12 @@ public:
     bool retval=true;
     std::ostringstream s;
 
-    dream_idx_type delay_len = get_m(py_focal)*get_n(py_focal);
-    if ( (delay_len > 1) && (delay_len != No) ) { // delay is a vector
-
-      if (!((get_m(py_focal) == delay_len && get_n(py_focal) == 1) ||
-            (get_m(py_focal) == 1 && get_n(py_focal) == delay_len))) {
-        s << func_name <<  " requires that delay arg must be a " << delay_len << " element vector";
-        s << " (with a length equal to the number of observation points) or a scalar!";
-      }
+    dream_idx_type m = get_m(py_focal), n = get_n(py_focal);
+    bool is_scalar = (m == 1 && n == 1);
+    bool is_vector = ((m == No && n == 1) || (m == 1 && n == No));
+    if (!is_scalar && !is_vector) {
+      s << func_name <<  " requires that delay arg must be a " << No << " element vector";
+      s << " (with a length equal to the number of observation points) or a scalar!";
       dream_err_msg(s.str().c_str());
       retval=false;
     }
-- 
2.43.0


From dc5b1ddb72d2e6bb0bb819e3111e22e6421ddb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:04 +0000
Subject: [PATCH 27/80] fix: das reads arguments that are not full matrices
 after they are freed

---
 extra_src/oct_das.cc | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index bbe3bc2..7ecd613 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -200,16 +200,21 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   // Data
   //
 
+  // Keep the argument matrices alive during the whole call (the xxx_matrix_value() functions
+  // return a temporary when the argument is not stored as a full matrix).
+  FloatMatrix tmp0f, tmp1f, tmp2f, tmp3f, tmp5f;
+  Matrix tmp0d, tmp1d, tmp2d, tmp3d, tmp5d;
+
   dream_idx_type a_scan_len = mxGetM(0); // A-scan length
 
   float *Yf = nullptr;
   double *Yd = nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp0f= args(0).float_matrix_value();
+    tmp0f = args(0).float_matrix_value();
     Yf = (float*) tmp0f.data();
   } else {
-    const Matrix tmp0d = args(0).matrix_value();
+    tmp0d = args(0).matrix_value();
     Yd = (double*) tmp0d.data();
   }
 
@@ -228,10 +233,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   const double *Gt_d=nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp1f = args(1).float_matrix_value();
+    tmp1f = args(1).float_matrix_value();
     Gt_f = tmp1f.data();
   } else {
-    const Matrix tmp1d = args(1).matrix_value();
+    tmp1d = args(1).matrix_value();
     Gt_d = tmp1d.data();
   }
 
@@ -253,10 +258,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     num_r_elements = mxGetM(2);
 
     if (use_float) {
-      const FloatMatrix tmp2f = args(2).float_matrix_value();
+      tmp2f = args(2).float_matrix_value();
       Gr_f = tmp2f.data();
     } else {
-      const Matrix tmp2d = args(2).matrix_value();
+      tmp2d = args(2).matrix_value();
       Gr_d = tmp2d.data();
     }
 
@@ -278,10 +283,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   const double *Ro_d = nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp3f= args(3).float_matrix_value();
+    tmp3f = args(3).float_matrix_value();
     Ro_f = tmp3f.data();
   } else {
-    const Matrix tmp3d = args(3).matrix_value();
+    tmp3d = args(3).matrix_value();
     Ro_d = tmp3d.data();
   }
 
@@ -324,10 +329,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   const double *delay_d = nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp5f = args(5).float_matrix_value();
+    tmp5f = args(5).float_matrix_value();
     delay_f = tmp5f.data();
   } else {
-    const Matrix tmp5d = args(5).matrix_value();
+    tmp5d = args(5).matrix_value();
     delay_d = tmp5d.data();
   }
 
-- 
2.43.0


From 56129646c05b48aabf75373132c2856ab70277f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:04 +0000
Subject: [PATCH 28/80] fix: single precision das marks the (not existing)
 double precision object as running

---
 extra_src/oct_das.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 7ecd613..0579ece 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -470,7 +470,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
       }
     }
 
-    das_d->set_running();
+    das_f->set_running();
 
   } else {
 
-- 
2.43.0


From 2fc07eb12c6a58ad11c6671db4dbfb0d91c5157c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:04 +0000
Subject: [PATCH 29/80] fix: das ignores the compute device when the verbose
 argument is also given

---
 extra_src/oct_das.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 0579ece..2a67189 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -389,7 +389,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
 
   std::string device;
 
-  if (nrhs == 10) {
+  if (nrhs >= 10) {
 
     if (!mxIsChar(9)) {
       error("Argument 10 must be a string");
@@ -408,7 +408,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   if (nrhs == 11) {
 
     if (!mxIsChar(10)) {
-      error("Argument 10 must be a string");
+      error("Argument 11 must be a string");
       return oct_retval;
     }
 
@@ -495,7 +495,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
       }
 
       try {
-        das_d = std::make_unique<DAS<double>>(das_type, a_scan_len, No, num_t_elements, num_r_elements, use_gpu);
+        das_d = std::make_unique<DAS<double>>(das_type, a_scan_len, No, num_t_elements, num_r_elements, use_gpu, verbose);
       }
 
       catch (std::runtime_error &std_err) {
-- 
2.43.0


From a04fbdde713b8549810435f4d05d6c033493dd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 30/80] fix: das reads outside the data matrix when it has too
 few A-scans

---
 extra_src/oct_das.cc      | 10 ++++++++++
 python/include/py_das.hpp |  9 +++++++++
 2 files changed, 19 insertions(+)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 2a67189..0012862 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -369,6 +369,16 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  // Check that there is one A-scan for each element (SAFT), or for each pair of elements.
+  dream_idx_type num_a_scans = num_t_elements;
+  if (das_type != DASType::saft && num_r_elements > 0) {
+    num_a_scans = num_t_elements*num_r_elements;
+  }
+  if (mxGetN(0) != num_a_scans) {
+    error("The number of A-scans (columns) in argument 1 does not match the number of elements!");
+    return oct_retval;
+  }
+
   //
   // Error reporting.
   //
diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index 7b7d5e5..cb0cd18 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -91,6 +91,15 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
     Gr = static_cast<T*>(ap.get_data(py_Gr));
   }
 
+  // Check that there is one A-scan for each element (SAFT), or for each pair of elements.
+  dream_idx_type num_a_scans = num_t_elements;
+  if (num_r_elements > 0) {
+    num_a_scans = num_t_elements*num_r_elements;
+  }
+  if (ap.get_n(py_Y) != num_a_scans) {
+    throw std::runtime_error("The number of A-scans (columns) in argument 1 does not match the number of elements!");
+  }
+
   //
   // Observation point.
   //
-- 
2.43.0


From a84e23062e81cd7c7564abbc08593b1ec8a09393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 31/80] fix: Python front ends read outside the shape of
 one-dimensional arrays

---
 include/arg_parser_python.h       | 21 +++++++--------------
 python/src/py_dream_arr_annu.cc   |  4 ++--
 python/src/py_dream_arr_circ.cc   |  4 ++--
 python/src/py_dream_arr_cylind.cc |  4 ++--
 python/src/py_dream_arr_rect.cc   |  4 ++--
 python/src/py_dreamcirc.cc        |  4 ++--
 python/src/py_dreamcirc_f.cc      |  4 ++--
 python/src/py_dreamcylind.cc      |  4 ++--
 python/src/py_dreamline.cc        |  4 ++--
 python/src/py_dreamrect.cc        |  4 ++--
 python/src/py_dreamrect_f.cc      |  4 ++--
 python/src/py_dreamsphere.cc      |  4 ++--
 12 files changed, 29 insertions(+), 36 deletions(-)

diff --git a/include/arg_parser_python.h b/include/arg_parser_python.h
index d6dfb17..35d41ee 100644
--- a/include/arg_parser_python.h
+++ b/include/arg_parser_python.h
@@ -84,10 +84,7 @@ public:
     bool retval=true;
     std::ostringstream s;
 
-    py::buffer_info ro_info = py_ro->request();
-    auto ro_n = ro_info.shape[1];
-
-    if (ro_n != 3) {
+    if (get_n(py_ro) != 3) {
       s << func_name <<  " requires that observation point arg must be a (number of observation points) x 3 matrix!";
       dream_err_msg(s.str().c_str());
       retval=false;
@@ -100,10 +97,7 @@ public:
     bool retval=true;
     std::ostringstream s;
 
-    py::buffer_info G_info = py_G->request();
-    auto G_n = G_info.shape[1];
-
-    if ( G_n != 3 ) {
+    if ( get_n(py_G) != 3 ) {
       s << func_name <<  " requires that array grid arg must be a (number of array elements) x 3 matrix!";
       dream_err_msg(s.str().c_str());
       retval=false;
@@ -590,24 +584,23 @@ public:
 
   dream_idx_type get_m(const py::array_t<T,py::array::f_style> *py_arg) {
     py::buffer_info py_arg_info = py_arg->request();
-    auto m = py_arg_info.shape[0];
+    // Scalars are 0-dim.
+    auto m = (py_arg_info.ndim > 0) ? py_arg_info.shape[0] : 1;
 
     return (dream_idx_type) m;
   };
 
   dream_idx_type get_n(const py::array_t<T,py::array::f_style> *py_arg) {
     py::buffer_info py_arg_info = py_arg->request();
-    auto n = py_arg_info.shape[1];
+    // Vectors can be 1-dim.
+    auto n = (py_arg_info.ndim > 1) ? py_arg_info.shape[1] : 1;
 
     return (dream_idx_type) n;
   };
 
   // Assume vector here. We do not care it is a row or column vector.
   dream_idx_type get_len(const py::array_t<T,py::array::f_style> *py_arg) {
-    py::buffer_info py_arg_info = py_arg->request();
-    auto len = py_arg_info.shape[0] * py_arg_info.shape[1];
-
-    return (dream_idx_type) len;
+    return get_m(py_arg) * get_n(py_arg);
   };
 
   T* get_data(const py::array_t<T,py::array::f_style> *py_arg) {
diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index 1bd15bf..b6c1515 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -100,8 +100,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dream_arr_circ.cc b/python/src/py_dream_arr_circ.cc
index 87b91e4..9e9e780 100644
--- a/python/src/py_dream_arr_circ.cc
+++ b/python/src/py_dream_arr_circ.cc
@@ -113,8 +113,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_circ(py::array_t<double,py::
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dream_arr_cylind.cc b/python/src/py_dream_arr_cylind.cc
index 504d1ea..c91b27b 100644
--- a/python/src/py_dream_arr_cylind.cc
+++ b/python/src/py_dream_arr_cylind.cc
@@ -113,8 +113,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_cylind(py::array_t<double,py
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dream_arr_rect.cc b/python/src/py_dream_arr_rect.cc
index 5f8ef38..7127055 100644
--- a/python/src/py_dream_arr_rect.cc
+++ b/python/src/py_dream_arr_rect.cc
@@ -113,8 +113,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_rect(py::array_t<double,py::
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamcirc.cc b/python/src/py_dreamcirc.cc
index 67f086a..49b1d06 100644
--- a/python/src/py_dreamcirc.cc
+++ b/python/src/py_dreamcirc.cc
@@ -91,8 +91,8 @@ py::array_t<double,py::array::f_style> py_dreamcirc(py::array_t<double,py::array
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamcirc_f.cc b/python/src/py_dreamcirc_f.cc
index 17d3ca5..b51c4b8 100644
--- a/python/src/py_dreamcirc_f.cc
+++ b/python/src/py_dreamcirc_f.cc
@@ -93,8 +93,8 @@ py::array_t<double,py::array::f_style> py_dreamcirc_f(py::array_t<double,py::arr
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamcylind.cc b/python/src/py_dreamcylind.cc
index e3eaffc..ab3339a 100644
--- a/python/src/py_dreamcylind.cc
+++ b/python/src/py_dreamcylind.cc
@@ -91,8 +91,8 @@ py::array_t<double,py::array::f_style> py_dreamcylind(py::array_t<double,py::arr
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamline.cc b/python/src/py_dreamline.cc
index cf01c01..021c7f4 100644
--- a/python/src/py_dreamline.cc
+++ b/python/src/py_dreamline.cc
@@ -91,8 +91,8 @@ py::array_t<double,py::array::f_style> py_dreamline(py::array_t<double,py::array
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamrect.cc b/python/src/py_dreamrect.cc
index 4969f23..c626893 100644
--- a/python/src/py_dreamrect.cc
+++ b/python/src/py_dreamrect.cc
@@ -91,8 +91,8 @@ py::array_t<double,py::array::f_style> py_dreamrect(py::array_t<double,py::array
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamrect_f.cc b/python/src/py_dreamrect_f.cc
index 52b8aef..530b5d2 100644
--- a/python/src/py_dreamrect_f.cc
+++ b/python/src/py_dreamrect_f.cc
@@ -93,8 +93,8 @@ py::array_t<double,py::array::f_style> py_dreamrect_f(py::array_t<double,py::arr
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamsphere.cc b/python/src/py_dreamsphere.cc
index 6d2a806..d35c685 100644
--- a/python/src/py_dreamsphere.cc
+++ b/python/src/py_dreamsphere.cc
@@ -91,8 +91,8 @@ py::array_t<double,py::array::f_style> py_dreamsphere(py::array_t<double,py::arr
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
-- 
2.43.0


From 06727324b5e015e203db2c30243d0e0472330f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 32/80] fix: Python annular array ignores all radii but the
 first of a row vector

---
 python/src/py_dream_arr_annu.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index b6c1515..733e57e 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -76,10 +76,9 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
   }
 
   py::buffer_info G_info = py_G->request();
-  auto G_m = G_info.shape[0];
   double *G = static_cast<double*>(G_info.ptr);
 
-  dream_idx_type num_elements = (dream_idx_type) G_m;
+  dream_idx_type num_elements = (dream_idx_type) ap.get_len(py_G); // Number of radii.
 
   //
   // Temporal and spatial sampling parameters.
-- 
2.43.0


From a6ecc4fabf1d978e1c68586e409e2ee5a6e65e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 33/80] fix: Python array functions ignore the apodization
 window parameter

---
 python/src/py_dream_arr_annu.cc   | 2 +-
 python/src/py_dream_arr_circ.cc   | 2 +-
 python/src/py_dream_arr_cylind.cc | 2 +-
 python/src/py_dream_arr_rect.cc   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index 733e57e..058227c 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -140,7 +140,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_annu", apod_str, py_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_annu!");
diff --git a/python/src/py_dream_arr_circ.cc b/python/src/py_dream_arr_circ.cc
index 9e9e780..ba2f3a7 100644
--- a/python/src/py_dream_arr_circ.cc
+++ b/python/src/py_dream_arr_circ.cc
@@ -165,7 +165,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_circ(py::array_t<double,py::
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_circ", apod_str, py_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_circ!");
diff --git a/python/src/py_dream_arr_cylind.cc b/python/src/py_dream_arr_cylind.cc
index c91b27b..95a0a1b 100644
--- a/python/src/py_dream_arr_cylind.cc
+++ b/python/src/py_dream_arr_cylind.cc
@@ -165,7 +165,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_cylind(py::array_t<double,py
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_cylind", apod_str, py_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_cylind!");
diff --git a/python/src/py_dream_arr_rect.cc b/python/src/py_dream_arr_rect.cc
index 7127055..bb4ce87 100644
--- a/python/src/py_dream_arr_rect.cc
+++ b/python/src/py_dream_arr_rect.cc
@@ -165,7 +165,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_rect(py::array_t<double,py::
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_rect", apod_str, py_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_rect!");
-- 
2.43.0


From f40946ff28bea0dbd7adb120a67df2298fa98d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 34/80] fix: Python das accepts unknown compute devices

---
 python/include/py_das.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index cb0cd18..76170c3 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -152,7 +152,7 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
   // Compute device
   //
 
-  if (device_str != "cpu" && device_str == "gpu") {
+  if (device_str != "cpu" && device_str != "gpu") {
     throw std::runtime_error("Error in das - unkown compute device string!");
   }
 
-- 
2.43.0


From 26a8418345631a53b7a7e6461189abdb58768fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 35/80] fix: misspelled verbose keyword argument of the Python
 das

---
 python/src/py_das.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/py_das.cc b/python/src/py_das.cc
index 3c23496..dbcf00d 100644
--- a/python/src/py_das.cc
+++ b/python/src/py_das.cc
@@ -84,6 +84,6 @@ Copyright 2006-2025 Fredrik Lingvall.";
         py::arg("method"),
         py::arg("err_level"),
         py::arg("device"),
-        py::arg("vebose"));
+        py::arg("verbose"));
 }
 #endif
-- 
2.43.0


From 5ae6d606c9cbcb48ccf9c223eb5e4d9233fd012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 36/80] fix: Python das leaves its signal handler installed

---
 python/include/py_das.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index 76170c3..f441a36 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "arg_parser_python.h"
+#include "signal_guard.h"
 
 #include <pybind11/pybind11.h>
 #include <pybind11/numpy.h>
@@ -214,8 +215,8 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
 
   das->set_running();
 
-  // Register signal handler.
-  std::signal(SIGABRT, DAS<T>::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGABRT, DAS<T>::abort);
 
 #ifdef USE_OPENCL
 
-- 
2.43.0


From eeedcbd7ec0d9829123795f10a16eb0992ef9a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 37/80] fix: dream_apodwin without apodization and with user
 defined weights

---
 oct/oct_dream_apodwin.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/oct/oct_dream_apodwin.cc b/oct/oct_dream_apodwin.cc
index af6a2aa..109f6c9 100644
--- a/oct/oct_dream_apodwin.cc
+++ b/oct/oct_dream_apodwin.cc
@@ -108,7 +108,20 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   //
 
   const Matrix tmp1 = args(1).matrix_value();
-  dream_idx_type num_elements = (dream_idx_type) tmp1.data()[0];
+  dream_idx_type num_elements = (dream_idx_type) tmp1.numel(); // Number of 'ud' weights.
+
+  if (args(0).is_string() && args(0).string_value() != "ud") {
+    if (tmp1.numel() != 1) {
+      error("Argument 2 (the window length) must be a scalar!");
+      return oct_retval;
+    }
+    num_elements = (dream_idx_type) tmp1.data()[0];
+  }
+
+  if (num_elements < 1) {
+    error("Argument 2 must be a vector of weights or a positive window length!");
+    return oct_retval;
+  }
 
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
@@ -132,6 +145,10 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
       apodization(apod_met, n, apod.get(), &weight, xs, ys, ramax, apod_par);
       h[n] = weight;
     }
+  } else {
+    for (dream_idx_type n=0; n<num_elements; n++) {
+      h[n] = 1.0; // No apodization.
+    }
   }
 
   oct_retval.append(h_mat);
-- 
2.43.0


From 34b4f6b2ebb12b7ec8aca214bd7fef988ab1bb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:19 +0000
Subject: [PATCH 38/80] fix: Python annular array wants one user defined delay
 and weight per radius instead of per ring

---
 python/src/py_dream_arr_annu.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index 058227c..f7f2952 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -78,7 +78,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
   py::buffer_info G_info = py_G->request();
   double *G = static_cast<double*>(G_info.ptr);
 
-  dream_idx_type num_elements = (dream_idx_type) ap.get_len(py_G); // Number of radii.
+  dream_idx_type num_radii = (dream_idx_type) ap.get_len(py_G);
+  dream_idx_type num_elements = (num_radii+1)/2;
 
   //
   // Temporal and spatial sampling parameters.
@@ -178,7 +179,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
                                         dx, dy,  dt, nt,
                                         delay_type, delay,
                                         v, cp,
-                                        num_elements, G,
+                                        num_radii, G,
                                         foc_met, focal.get(),
                                         apod.get(), do_apod, apod_met, apod_par,
                                         h, err_level);
-- 
2.43.0


From 6229160a910b24583e3f65129a6ce808453b90c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:19 +0000
Subject: [PATCH 39/80] fix: restoring a signal handler loses the flags it was
 installed with

---
 include/signal_guard.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/signal_guard.h b/include/signal_guard.h
index 35890b3..f9f593b 100644
--- a/include/signal_guard.h
+++ b/include/signal_guard.h
@@ -29,6 +29,8 @@ class SignalGuard
 {
 public:
 
+#ifdef _WIN32
+
   SignalGuard(int signum, void (*handler)(int))
     : m_signum(signum)
     , m_old_handler(std::signal(signum, handler)) {};
@@ -39,11 +41,33 @@ public:
     }
   };
 
+#else
+
+  // Use sigaction() so that the flags of the old handler are restored too.
+  SignalGuard(int signum, void (*handler)(int))
+    : m_signum(signum)
+    , m_saved(sigaction(signum, nullptr, &m_old_action) == 0) {
+    std::signal(signum, handler);
+  };
+
+  ~SignalGuard() {
+    if (m_saved) {
+      sigaction(m_signum, &m_old_action, nullptr);
+    }
+  };
+
+#endif
+
   SignalGuard(const SignalGuard&) = delete;
   SignalGuard& operator=(const SignalGuard&) = delete;
 
 private:
 
   int m_signum;
+#ifdef _WIN32
   void (*m_old_handler)(int);
+#else
+  struct sigaction m_old_action;
+  bool m_saved;
+#endif
 };
-- 
2.43.0


From c769a2b648b18aec17e14b449d9354d27aefea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:24 +0000
Subject: [PATCH 40/80] fix: Python front ends accept three-dimensional arrays
 and ignore the rest of the data

---
 include/arg_parser_python.h     | 9 ++++++---
 python/include/py_fftconv_p.hpp | 4 ++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/arg_parser_python.h b/include/arg_parser_python.h
index 35d41ee..c9b600c 100644
--- a/include/arg_parser_python.h
+++ b/include/arg_parser_python.h
@@ -592,10 +592,13 @@ public:
 
   dream_idx_type get_n(const py::array_t<T,py::array::f_style> *py_arg) {
     py::buffer_info py_arg_info = py_arg->request();
-    // Vectors can be 1-dim.
-    auto n = (py_arg_info.ndim > 1) ? py_arg_info.shape[1] : 1;
+    // Vectors can be 1-dim (and a 3-dim array is never a matrix with the right number of columns).
+    dream_idx_type n = 1;
+    for (py::ssize_t k=1; k<py_arg_info.ndim; k++) {
+      n *= (dream_idx_type) py_arg_info.shape[k];
+    }
 
-    return (dream_idx_type) n;
+    return n;
   };
 
   // Assume vector here. We do not care it is a row or column vector.
diff --git a/python/include/py_fftconv_p.hpp b/python/include/py_fftconv_p.hpp
index 7fe3cce..09fa735 100644
--- a/python/include/py_fftconv_p.hpp
+++ b/python/include/py_fftconv_p.hpp
@@ -58,6 +58,10 @@ py::array_t<T,py::array::f_style> py_fftconv_p(py::array_t<T,py::array::f_style>
   }
   T *B = static_cast<T*>(ap.get_data(py_B));
 
+  if (A_ndim > 2 || B_ndim > 2) {
+    throw std::runtime_error("Argument 1 and 2 must be vectors or matrices!");
+  }
+
   // Check that arg 2 has the correct dim (matrix or vector allowed).
   if ( B_M != 1 && B_N !=1 && B_N != A_N) {
     throw std::runtime_error("Argument 2 must be a vector or a matrix with the same number of columns as arg 1!");
-- 
2.43.0


From 361bcb11d14a811ce02b9c139fa67f47783249c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:24 +0000
Subject: [PATCH 41/80] fix: Octave front ends accept unknown compute devices

---
 extra_src/oct_das.cc      | 5 +++++
 extra_src/oct_rect_sir.cc | 5 +++++
 oct/oct_dreamcirc.cc      | 5 +++++
 oct/oct_dreamrect.cc      | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 0012862..8100afc 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -407,6 +407,11 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     }
 
     device = args(9).string_value();
+
+    if (device != "cpu" && device != "gpu") {
+      error("Argument 10 (device) must be 'cpu' or 'gpu'!");
+      return oct_retval;
+    }
   }
 
   //
diff --git a/extra_src/oct_rect_sir.cc b/extra_src/oct_rect_sir.cc
index 24660ab..c47088d 100644
--- a/extra_src/oct_rect_sir.cc
+++ b/extra_src/oct_rect_sir.cc
@@ -210,6 +210,11 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
     }
 
     device = args(5).string_value();
+
+    if (device != "cpu" && device != "gpu") {
+      error("Argument 6 (device) must be 'cpu' or 'gpu'!");
+      return oct_retval;
+    }
   }
 
   //
diff --git a/oct/oct_dreamcirc.cc b/oct/oct_dreamcirc.cc
index bfb478c..52a2e27 100644
--- a/oct/oct_dreamcirc.cc
+++ b/oct/oct_dreamcirc.cc
@@ -210,6 +210,11 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
     }
 
     device = args(6).string_value();
+
+    if (device != "cpu" && device != "gpu") {
+      error("Argument 7 (device) must be 'cpu' or 'gpu'!");
+      return oct_retval;
+    }
   }
 
   // Create an output matrix for the impulse response
diff --git a/oct/oct_dreamrect.cc b/oct/oct_dreamrect.cc
index 882d044..c9d2d5c 100644
--- a/oct/oct_dreamrect.cc
+++ b/oct/oct_dreamrect.cc
@@ -213,6 +213,11 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
     }
 
     device = args(6).string_value();
+
+    if (device != "cpu" && device != "gpu") {
+      error("Argument 7 (device) must be 'cpu' or 'gpu'!");
+      return oct_retval;
+    }
   }
 
   // Create an output matrix for the impulse response
-- 
2.43.0


From bef26f2012b5dc79a27d354a9377f76e9a854596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:04 +0000
Subject: [PATCH 42/80] fix: restoring a signal handler in the convolution
 functions loses its flags

---
 extra_src/oct_add_p.cc       | 35 ++++-------------------------------
 extra_src/oct_circ_sir.cc    | 34 ++++------------------------------
 extra_src/oct_conv_p.cc      | 34 ++++------------------------------
 extra_src/oct_copy_p.cc      | 35 ++++-------------------------------
 extra_src/oct_fftconv_ola.cc | 34 ++++------------------------------
 extra_src/oct_fftconv_p.cc   | 34 ++++------------------------------
 extra_src/oct_scirc_sir.cc   | 34 ++++------------------------------
 extra_src/oct_sum_fftconv.cc | 34 ++++------------------------------
 8 files changed, 32 insertions(+), 242 deletions(-)

diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index 4c659ed..c65fe5f 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -32,6 +32,7 @@
 #include <octave/oct.h>
 
 #include "dream.h"
+#include "signal_guard.h"
 #include "inplace.h"
 #include "affinity.h"
 
@@ -66,8 +67,6 @@ typedef struct
   octave_idx_type len;
 } DATA;
 
-typedef void (*sighandler_t)(int);
-
 //
 // Function prototypes.
 //
@@ -105,7 +104,6 @@ void* smp_dream_add_p(void *arg)
   return(NULL);
 }
 
-
 /***
  *
  * Signal handlers.
@@ -163,7 +161,6 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
 @end deftypefn")
 {
   double         *A,*B;
-  sighandler_t   old_handler, old_handler_abrt, old_handler_keyint;
   octave_idx_type col_start, col_stop, A_M, A_N, B_M, B_N;
   octave_idx_type r_M, r_N, k_M, k_N;
   double         *r, *k;
@@ -283,17 +280,9 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard term_guard(SIGTERM, sighandler);
+  SignalGuard abrt_guard(SIGABRT, sighandler);
+  SignalGuard int_guard(SIGINT, sighandler);
 
   //
   // Call the add subroutine.
@@ -345,22 +334,6 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
   // Free memory.
   free((void*) D);
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
diff --git a/extra_src/oct_circ_sir.cc b/extra_src/oct_circ_sir.cc
index 5d39561..cb3b9ab 100644
--- a/extra_src/oct_circ_sir.cc
+++ b/extra_src/oct_circ_sir.cc
@@ -27,6 +27,7 @@
 #include <mutex>
 
 #include "affinity.h"
+#include "signal_guard.h"
 #include "circ_sir.h"
 #include "arg_parser.h"
 
@@ -66,8 +67,6 @@ typedef struct
   //ErrorLevel err_level;
 } DATA;
 
-typedef void (*sighandler_t)(int);
-
 /***
  *
  * Thread function.
@@ -225,7 +224,6 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   octave_idx_type start, stop;
   std::thread *threads;
   unsigned int thread_n, nthreads;
-  sighandler_t  old_handler, old_handler_abrt, old_handler_keyint;
   octave_value_list oct_retval;
 
   int nrhs = args.length ();
@@ -341,17 +339,9 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard term_guard(SIGTERM, sighandler);
+  SignalGuard abrt_guard(SIGABRT, sighandler);
+  SignalGuard int_guard(SIGINT, sighandler);
 
   //
   // Call the analytic SIR subroutine.
@@ -404,22 +394,6 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   // Free memory.
   free((void*) D);
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
   }
diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index bac4bfd..97ed21e 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -27,6 +27,7 @@
 #include <octave/oct.h>
 
 #include "dream.h"
+#include "signal_guard.h"
 #include "inplace.h"
 #include "affinity.h"
 #include "conv.h"
@@ -61,8 +62,6 @@ typedef struct
   ConvMode conv_mode;
 } DATA;
 
-typedef void (*sighandler_t)(int);
-
 //
 // Function prototypes.
 //
@@ -159,7 +158,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 @end deftypefn")
 {
   double *A = nullptr, *B = nullptr, *Y = nullptr;
-  sighandler_t old_handler, old_handler_abrt, old_handler_keyint;
   octave_idx_type col_start, col_stop, A_M, A_N, B_M, B_N;
   bool is_set = false;
   DATA *D = nullptr;
@@ -326,17 +324,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard term_guard(SIGTERM, sighandler);
+  SignalGuard abrt_guard(SIGABRT, sighandler);
+  SignalGuard int_guard(SIGINT, sighandler);
 
   running = true;
 
@@ -392,22 +382,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     free((void*) D);
   }
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index fe234b1..d31ebd8 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -32,6 +32,7 @@
 #include <octave/oct.h>
 
 #include "dream.h"
+#include "signal_guard.h"
 #include "inplace.h"
 #include "affinity.h"
 
@@ -66,8 +67,6 @@ typedef struct
   octave_idx_type len;
 } DATA;
 
-typedef void (*sighandler_t)(int);
-
 //
 // Function prototypes.
 //
@@ -103,7 +102,6 @@ void* smp_dream_copy_p(void *arg)
   return(NULL);
 }
 
-
 /***
  *
  * Signal handlers.
@@ -161,7 +159,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 @end deftypefn")
 {
   double         *A,*B;
-  sighandler_t   old_handler, old_handler_abrt, old_handler_keyint;
   octave_idx_type line_start, line_stop, A_M, A_N, B_M, B_N;
   octave_idx_type r_M, r_N, k_M, k_N;
   double         *r=nullptr, *k=nullptr;
@@ -281,17 +278,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard term_guard(SIGTERM, sighandler);
+  SignalGuard abrt_guard(SIGABRT, sighandler);
+  SignalGuard int_guard(SIGINT, sighandler);
 
   //
   // Call the mem_copy subroutine.
@@ -343,22 +332,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   // Free memory.
   free((void*) D);
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 1dd5829..72c57c2 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -29,6 +29,7 @@
 #include <octave/oct.h>
 
 #include "dream.h"
+#include "signal_guard.h"
 #include "inplace.h"
 //#include "affinity.h"
 #include "fftconv.h"
@@ -65,8 +66,6 @@ typedef struct
   ConvMode conv_mode;
 } DATA;
 
-typedef void (*sighandler_t)(int);
-
 //
 // Function prototypes.
 //
@@ -346,7 +345,6 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
 @seealso {conv_p, fftconv_p, fftconv, conv, fftw_wisdom}\n\
 @end deftypefn")
 {
-  sighandler_t old_handler, old_handler_abrt, old_handler_keyint;
   std::thread *threads;
   double *Y = nullptr;
   DATA  *D = nullptr;
@@ -658,17 +656,9 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard term_guard(SIGTERM, sighandler);
+  SignalGuard abrt_guard(SIGABRT, sighandler);
+  SignalGuard int_guard(SIGINT, sighandler);
 
   running = true;
 
@@ -714,22 +704,6 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     free((void*) D);
   }
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index c55c420..b9cb9fc 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -28,6 +28,7 @@
 #include <octave/oct.h>
 
 #include "dream.h"
+#include "signal_guard.h"
 #include "inplace.h"
 #include "affinity.h"
 #include "fftconv.h"
@@ -68,8 +69,6 @@ typedef struct
   ConvMode conv_mode;
 } DATA;
 
-typedef void (*sighandler_t)(int);
-
 //
 // Function prototypes.
 //
@@ -242,7 +241,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 @end deftypefn")
 {
   double *A=nullptr,*B=nullptr, *Y=nullptr;
-  sighandler_t    old_handler, old_handler_abrt, old_handler_keyint;
   std::thread     *threads;
   dream_idx_type  thread_n, nthreads;
   dream_idx_type col_start, col_stop, A_M, A_N, B_M, B_N;
@@ -518,17 +516,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard term_guard(SIGTERM, sighandler);
+  SignalGuard abrt_guard(SIGABRT, sighandler);
+  SignalGuard int_guard(SIGINT, sighandler);
 
   running = true;
 
@@ -594,22 +584,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     free((void*) D);
   }
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
diff --git a/extra_src/oct_scirc_sir.cc b/extra_src/oct_scirc_sir.cc
index 82a6aaf..ac40764 100644
--- a/extra_src/oct_scirc_sir.cc
+++ b/extra_src/oct_scirc_sir.cc
@@ -26,6 +26,7 @@
 
 #include "scirc_sir.h"
 #include "arg_parser.h"
+#include "signal_guard.h"
 
 //
 // Octave headers.
@@ -64,8 +65,6 @@ typedef struct
   //ErrorLevel err_level;
 } DATA;
 
-typedef void (*sighandler_t)(int);
-
 /***
  *
  * Thread function.
@@ -230,7 +229,6 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   octave_idx_type start, stop;
   std::thread *threads;
   dream_idx_type thread_n, nthreads;
-  sighandler_t  old_handler, old_handler_abrt, old_handler_keyint;
   octave_value_list oct_retval;
 
   int nrhs = args.length ();
@@ -356,17 +354,9 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   // Register signal handlers.
   //
 
-  if ((old_handler = signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    printf("Couldn't register SIGTERM signal handler.\n");
-  }
-
-  if (( old_handler_abrt=signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    printf("Couldn't register SIGABRT signal handler.\n");
-  }
-
-  if (( old_handler_keyint=signal(SIGINT, &sighandler)) == SIG_ERR) {
-    printf("Couldn't register SIGINT signal handler.\n");
-  }
+  SignalGuard term_guard(SIGTERM, sighandler);
+  SignalGuard abrt_guard(SIGABRT, sighandler);
+  SignalGuard int_guard(SIGINT, sighandler);
 
   //
   // Call the sampled analytic SIR subroutine.
@@ -421,22 +411,6 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   // Free memory.
   free((void*) D);
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (signal(SIGTERM, old_handler) == SIG_ERR) {
-    printf("Couldn't register old SIGTERM signal handler.\n");
-  }
-
-  if (signal(SIGABRT,  old_handler_abrt) == SIG_ERR) {
-    printf("Couldn't register old SIGABRT signal handler.\n");
-  }
-
-  if (signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    printf("Couldn't register old SIGINT signal handler.\n");
-  }
-
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
   }
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 16fa1f0..58ac476 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -28,6 +28,7 @@
 #include <octave/oct.h>
 
 #include "dream.h"
+#include "signal_guard.h"
 #include "inplace.h"
 #include "affinity.h"
 #include "fftconv.h"
@@ -64,8 +65,6 @@ typedef struct
   ConvMode conv_mode;
 } DATA;
 
-typedef void (*sighandler_t)(int);
-
 //
 // Function prototypes.
 //
@@ -260,7 +259,6 @@ sum_fftconv is a part of the DREAM Toolbox available at\n\
 Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 @seealso {conv, conv_p, fftconv, fftconv_p, fftw_wisdom}")
 {
-  sighandler_t old_handler, old_handler_abrt, old_handler_keyint;
   dream_idx_type col_start, col_stop, H_M, H_N, H_L, U_M, U_N;
   double *Y = nullptr;
   std::thread *threads;
@@ -480,17 +478,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard term_guard(SIGTERM, sighandler);
+  SignalGuard abrt_guard(SIGABRT, sighandler);
+  SignalGuard int_guard(SIGINT, sighandler);
 
   running = true;
 
@@ -547,22 +537,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     free((void*) D);
   }
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
-- 
2.43.0


From 345bfc30cd9e151e6c196dc93bf8e00cc7a99924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:26 +0000
Subject: [PATCH 43/80] fix: scirc_sir ignores DREAM_NUM_THREADS

---
 extra_src/oct_scirc_sir.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/extra_src/oct_scirc_sir.cc b/extra_src/oct_scirc_sir.cc
index ac40764..9c18077 100644
--- a/extra_src/oct_scirc_sir.cc
+++ b/extra_src/oct_scirc_sir.cc
@@ -331,6 +331,14 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   // Get number of CPU cores (including hypethreading, C++11)
   nthreads = std::thread::hardware_concurrency();
 
+  // Read DREAM_NUM_THREADS env var
+  if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
+    dream_idx_type dream_threads = std::stoul(env_p);
+    if (dream_threads < nthreads) {
+      nthreads = dream_threads;
+    }
+  }
+
   // nthreads can't be larger then the number of observation points.
   if (nthreads > No) {
     nthreads = No;
-- 
2.43.0


From 4cbd73459e6fb9e09870494cf8037a583af0e803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:53 +0000
Subject: [PATCH 44/80] fix: cancelled analytic response calls return an
 unfinished result

---
 extra_src/oct_circ_sir.cc  | 3 ++-
 extra_src/oct_rect_sir.cc  | 3 ++-
 extra_src/oct_scirc_sir.cc | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/extra_src/oct_circ_sir.cc b/extra_src/oct_circ_sir.cc
index cb3b9ab..a8a4ba2 100644
--- a/extra_src/oct_circ_sir.cc
+++ b/extra_src/oct_circ_sir.cc
@@ -395,7 +395,8 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   free((void*) D);
 
   if (!running) {
-    dream_err_msg("CTRL-C pressed!\n"); // Bail out.
+    error("CTRL-C pressed!\n"); // Bail out.
+    return oct_retval;
   }
 
   oct_retval.append(h_mat);
diff --git a/extra_src/oct_rect_sir.cc b/extra_src/oct_rect_sir.cc
index c47088d..ce397f7 100644
--- a/extra_src/oct_rect_sir.cc
+++ b/extra_src/oct_rect_sir.cc
@@ -253,7 +253,8 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
                                        h);
 
     if (!rect_sir.is_running()) {
-      dream_err_msg("CTRL-C pressed!\n"); // Bail out.
+      error("CTRL-C pressed!\n"); // Bail out.
+      return oct_retval;
     }
 
     //
diff --git a/extra_src/oct_scirc_sir.cc b/extra_src/oct_scirc_sir.cc
index 9c18077..5813d2c 100644
--- a/extra_src/oct_scirc_sir.cc
+++ b/extra_src/oct_scirc_sir.cc
@@ -420,7 +420,8 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   free((void*) D);
 
   if (!running) {
-    dream_err_msg("CTRL-C pressed!\n"); // Bail out.
+    error("CTRL-C pressed!\n"); // Bail out.
+    return oct_retval;
   }
 
   oct_retval.append(h_mat);
-- 
2.43.0


From b241592f5f1a2393981d977b3c9ffbc3ca4f310f Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 00:15:57 +0000
Subject: [PATCH 45/80] fix: GPU calls fail when the number of points is not a
 multiple of 64

---
 opencl/cl_das.cc       | 2 +-
 opencl/cl_das_uni.cc   | 2 +-
 opencl/cl_dreamcirc.cc | 5 ++---
 opencl/cl_dreamrect.cc | 5 ++---
 opencl/cl_rect_sir.cc  | 5 ++---
 5 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/opencl/cl_das.cc b/opencl/cl_das.cc
index b9d0197..b262b50 100644
--- a/opencl/cl_das.cc
+++ b/opencl/cl_das.cc
@@ -132,7 +132,7 @@ int DAS<T>::cl_das(const T *Y, // Data
   //
 
   cl::NDRange global(m_No);
-  cl::NDRange local(64); // Works on both Nvidia and AMD GPUs.
+  cl::NDRange local = cl::NullRange; // Any number of points: let the OpenCL runtime choose.
   try {
     m_queue.enqueueNDRangeKernel(m_kernel, cl::NullRange, global, local);
   }
diff --git a/opencl/cl_das_uni.cc b/opencl/cl_das_uni.cc
index 1074874..df0e2af 100644
--- a/opencl/cl_das_uni.cc
+++ b/opencl/cl_das_uni.cc
@@ -159,7 +159,7 @@ int DAS_UNI<T>::cl_das_uni(const T *Y, // Data
   //
 
   cl::NDRange global(m_No);
-  cl::NDRange local(64); // Works on both Nvidia and AMD GPUs.
+  cl::NDRange local = cl::NullRange; // Any number of points: let the OpenCL runtime choose.
   try {
     m_queue.enqueueNDRangeKernel(m_kernel, cl::NullRange, global, local);
   }
diff --git a/opencl/cl_dreamcirc.cc b/opencl/cl_dreamcirc.cc
index f656dad..27b9b2d 100644
--- a/opencl/cl_dreamcirc.cc
+++ b/opencl/cl_dreamcirc.cc
@@ -202,9 +202,8 @@ int Circ::cl_dreamcirc(const double *Ro,
   // Execute the OpenCL kernel
   //
 
-  size_t global_item_size = No; // Process the entire number of observation points
-  size_t local_item_size = 64; // NB No must be dividable by the local item  size (work group size).
-  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, &local_item_size, 0, NULL, NULL);
+  size_t global_item_size = No; // Process the entire number of observation points (the runtime chooses the work group size).
+  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, NULL, 0, NULL, NULL);
   if (ret < 0) std::cout << "cl enqueue ret: " << ret << std::endl;
 
   //
diff --git a/opencl/cl_dreamrect.cc b/opencl/cl_dreamrect.cc
index 1fd85a5..b14152b 100644
--- a/opencl/cl_dreamrect.cc
+++ b/opencl/cl_dreamrect.cc
@@ -205,9 +205,8 @@ int Rect::cl_dreamrect(const double *Ro,
   // Execute the OpenCL kernel
   //
 
-  size_t global_item_size = No; // Process the entire number of observation points
-  size_t local_item_size = 64; // NB No must be dividable by the local item size (work group size).
-  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, &local_item_size, 0, NULL, NULL);
+  size_t global_item_size = No; // Process the entire number of observation points (the runtime chooses the work group size).
+  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, NULL, 0, NULL, NULL);
   if (ret < 0) std::cout << "cl enqueue ret: " << ret << std::endl;
 
   //
diff --git a/opencl/cl_rect_sir.cc b/opencl/cl_rect_sir.cc
index 8d6b0a4..fa6838d 100644
--- a/opencl/cl_rect_sir.cc
+++ b/opencl/cl_rect_sir.cc
@@ -192,9 +192,8 @@ int RectSir::cl_rect_sir(const double *Ro,
   // Execute the OpenCL kernel
   //
 
-  size_t global_item_size = No; // Process the entire number of observation points
-  size_t local_item_size = 64; // NB No must be dividable by the local item  size (work group size).
-  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, &local_item_size, 0, NULL, NULL);
+  size_t global_item_size = No; // Process the entire number of observation points (the runtime chooses the work group size).
+  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, NULL, 0, NULL, NULL);
   if (ret < 0) std::cout << "cl enqueue ret: " << ret << std::endl;
 
   //
-- 
2.43.0


From 34523286946391c4b21e46f7c8db9320b4a5ad9b Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 46/80] fix: failing OpenCL calls are ignored by the GPU
 functions

---
 extra_src/oct_das.cc      | 23 ++++++++++------
 extra_src/oct_das_uni.cc  | 55 ++++++++++++++++++++++-----------------
 extra_src/oct_rect_sir.cc | 10 ++++++-
 oct/oct_dreamcirc.cc      |  9 ++++++-
 oct/oct_dreamrect.cc      | 10 ++++++-
 opencl/cl_das.cc          | 10 +++++--
 opencl/cl_das_uni.cc      | 10 +++++--
 opencl/cl_dreamcirc.cc    | 53 ++++++++++++++++++++++---------------
 opencl/cl_dreamrect.cc    | 55 +++++++++++++++++++++++----------------
 opencl/cl_rect_sir.cc     | 51 ++++++++++++++++++++++--------------
 10 files changed, 184 insertions(+), 102 deletions(-)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 8100afc..b09fb76 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -479,8 +479,8 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
         das_f = std::make_unique<DAS<float>>(das_type, a_scan_len, No, num_t_elements, num_r_elements, use_gpu, verbose);
       }
 
-      catch (std::runtime_error &std_err) {
-        std::cout << std_err.what();
+      catch (const std::exception &std_err) {
+        error("%s", std_err.what());
         return oct_retval;
       }
     }
@@ -513,8 +513,8 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
         das_d = std::make_unique<DAS<double>>(das_type, a_scan_len, No, num_t_elements, num_r_elements, use_gpu, verbose);
       }
 
-      catch (std::runtime_error &std_err) {
-        std::cout << std_err.what();
+      catch (const std::exception &std_err) {
+        error("%s", std_err.what());
         return oct_retval;
       }
     }
@@ -532,10 +532,17 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   // Check if we should use the GPU
   if (device == "gpu") {
 
-    if (use_float) { // Single precision
-      das_f->cl_das(Yf, Ro_f, Gt_f, Gr_f, dt_f, delay_f[0], cp_f, Im_f);
-    } else { // Double precision
-      das_d->cl_das(Yd, Ro_d, Gt_d, Gr_d, dt_d, delay_d[0], cp_d, Im_d);
+    try {
+      if (use_float) { // Single precision
+        das_f->cl_das(Yf, Ro_f, Gt_f, Gr_f, dt_f, delay_f[0], cp_f, Im_f);
+      } else { // Double precision
+        das_d->cl_das(Yd, Ro_d, Gt_d, Gr_d, dt_d, delay_d[0], cp_d, Im_d);
+      }
+    }
+
+    catch (const std::exception &std_err) {
+      error("%s", std_err.what());
+      return oct_retval;
     }
 
   } else { // Otherwise use the cpu
diff --git a/extra_src/oct_das_uni.cc b/extra_src/oct_das_uni.cc
index f851617..07f4400 100644
--- a/extra_src/oct_das_uni.cc
+++ b/extra_src/oct_das_uni.cc
@@ -414,8 +414,8 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
                                                      min_Rz_f, dz_f, max_Rz_f);
       }
 
-      catch (std::runtime_error &err) {
-        std::cout << err.what();
+      catch (const std::exception &err) {
+        error("%s", err.what());
         return oct_retval;
       }
     }
@@ -456,33 +456,40 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
                                             min_Rz_d, dz_d, max_Rz_d);
       }
 
-      catch (std::runtime_error &err) {
-        std::cout << err.what();
+      catch (const std::exception &err) {
+        error("%s", err.what());
         return oct_retval;
       }
     }
   }
 
-  if (use_float) { // Single precision
-    das_uni_f->cl_das_uni(Yf,
-                          min_t_f, pitch_t_f, max_t_f,
-                          min_r_f, pitch_r_f, max_r_f,
-                          min_Rx_f, dx_f, max_Rx_f,
-                          min_Ry_f, dy_f, max_Ry_f,
-                          min_Rz_f, dz_f, max_Rz_f,
-                          dt_f,
-                          delay_f[0], cp_f,
-                          Im_f);
-  } else { // Double precision
-    das_uni_d->cl_das_uni(Yd,
-                          min_t_d, pitch_t_d, max_t_d,
-                          min_r_d, pitch_r_d, max_r_d,
-                          min_Rx_d, dx_d, max_Rx_d,
-                          min_Ry_d, dy_d, max_Ry_d,
-                          min_Rz_d, dz_d, max_Rz_d,
-                          dt_d,
-                          delay_d[0], cp_d,
-                          Im_d);
+  try {
+    if (use_float) { // Single precision
+      das_uni_f->cl_das_uni(Yf,
+                            min_t_f, pitch_t_f, max_t_f,
+                            min_r_f, pitch_r_f, max_r_f,
+                            min_Rx_f, dx_f, max_Rx_f,
+                            min_Ry_f, dy_f, max_Ry_f,
+                            min_Rz_f, dz_f, max_Rz_f,
+                            dt_f,
+                            delay_f[0], cp_f,
+                            Im_f);
+    } else { // Double precision
+      das_uni_d->cl_das_uni(Yd,
+                            min_t_d, pitch_t_d, max_t_d,
+                            min_r_d, pitch_r_d, max_r_d,
+                            min_Rx_d, dx_d, max_Rx_d,
+                            min_Ry_d, dy_d, max_Ry_d,
+                            min_Rz_d, dz_d, max_Rz_d,
+                            dt_d,
+                            delay_d[0], cp_d,
+                            Im_d);
+    }
+  }
+
+  catch (const std::exception &err) {
+    error("%s", err.what());
+    return oct_retval;
   }
 
   if (use_float) {
diff --git a/extra_src/oct_rect_sir.cc b/extra_src/oct_rect_sir.cc
index ce397f7..e642828 100644
--- a/extra_src/oct_rect_sir.cc
+++ b/extra_src/oct_rect_sir.cc
@@ -240,7 +240,15 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
 
 #ifdef USE_OPENCL
   if (device == "gpu") {
-    rect_sir.cl_rect_sir(Ro, No, a, b, dt, nt, delay[0], v, cp, h);
+
+    try {
+      rect_sir.cl_rect_sir(Ro, No, a, b, dt, nt, delay[0], v, cp, h);
+    }
+
+    catch (const std::exception &std_err) {
+      error("%s", std_err.what());
+      return oct_retval;
+    }
 
   } else { // Otherwise use the cpu
 #endif
diff --git a/oct/oct_dreamcirc.cc b/oct/oct_dreamcirc.cc
index 52a2e27..0a022a7 100644
--- a/oct/oct_dreamcirc.cc
+++ b/oct/oct_dreamcirc.cc
@@ -240,7 +240,14 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   // Check if we should use the GPU
   if (device == "gpu") {
 
-    circ.cl_dreamcirc(Ro, No, R,  dx, dy, dt, nt,  delay[0], v, cp, h);
+    try {
+      circ.cl_dreamcirc(Ro, No, R,  dx, dy, dt, nt,  delay[0], v, cp, h);
+    }
+
+    catch (const std::exception &std_err) {
+      error("%s", std_err.what());
+      return oct_retval;
+    }
 
   } else { // Otherwise use the cpu
 #endif
diff --git a/oct/oct_dreamrect.cc b/oct/oct_dreamrect.cc
index c9d2d5c..9053916 100644
--- a/oct/oct_dreamrect.cc
+++ b/oct/oct_dreamrect.cc
@@ -242,7 +242,15 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   // Check if we should use the GPU
   if (device == "gpu") {
-    rect.cl_dreamrect(Ro, No, a, b, dx, dy, dt, nt, delay[0], v, cp, h);
+
+    try {
+      rect.cl_dreamrect(Ro, No, a, b, dx, dy, dt, nt, delay[0], v, cp, h);
+    }
+
+    catch (const std::exception &std_err) {
+      error("%s", std_err.what());
+      return oct_retval;
+    }
 
   } else { // Otherwise use the cpu
 #endif
diff --git a/opencl/cl_das.cc b/opencl/cl_das.cc
index b262b50..edc8666 100644
--- a/opencl/cl_das.cc
+++ b/opencl/cl_das.cc
@@ -138,7 +138,10 @@ int DAS<T>::cl_das(const T *Y, // Data
   }
 
   catch (const cl::Error &err) {
-    std::cerr << "OpenCL kernel run failed: " << err.what() << std::endl;
+    std::string the_err = "OpenCL kernel run failed: ";
+    the_err += err.what();
+    the_err += "\n";
+    throw std::runtime_error(the_err);
   }
 
   //
@@ -150,7 +153,10 @@ int DAS<T>::cl_das(const T *Y, // Data
   }
 
   catch (const cl::Error &err) {
-    std::cerr << "Failed to get results buffer from GPU: " << err.what() << std::endl;
+    std::string the_err = "Failed to get results buffer from GPU: ";
+    the_err += err.what();
+    the_err += "\n";
+    throw std::runtime_error(the_err);
   }
 
   int retval = 0;
diff --git a/opencl/cl_das_uni.cc b/opencl/cl_das_uni.cc
index df0e2af..82c8888 100644
--- a/opencl/cl_das_uni.cc
+++ b/opencl/cl_das_uni.cc
@@ -165,7 +165,10 @@ int DAS_UNI<T>::cl_das_uni(const T *Y, // Data
   }
 
   catch (const cl::Error &err) {
-    std::cerr << "OpenCL kernel run failed: " << err.what() << std::endl;
+    std::string the_err = "OpenCL kernel run failed: ";
+    the_err += err.what();
+    the_err += "\n";
+    throw std::runtime_error(the_err);
   }
 
   //
@@ -177,7 +180,10 @@ int DAS_UNI<T>::cl_das_uni(const T *Y, // Data
   }
 
   catch (const cl::Error &err) {
-    std::cerr << "Failed to get results buffer from GPU: " << err.what() << std::endl;
+    std::string the_err = "Failed to get results buffer from GPU: ";
+    the_err += err.what();
+    the_err += "\n";
+    throw std::runtime_error(the_err);
   }
 
   int retval = 0;
diff --git a/opencl/cl_dreamcirc.cc b/opencl/cl_dreamcirc.cc
index 27b9b2d..5ea08cf 100644
--- a/opencl/cl_dreamcirc.cc
+++ b/opencl/cl_dreamcirc.cc
@@ -26,6 +26,8 @@
 #include <iostream>
 #include <fstream>
 #include <streambuf>
+#include <stdexcept>
+#include <string>
 
 #include "dreamcirc.h"
 #include "dream_error.h"
@@ -34,6 +36,13 @@
 #include <CL/cl.h>
 
 
+static void check_cl(cl_int ret, const char *what)
+{
+  if (ret != CL_SUCCESS) {
+    throw std::runtime_error("Error in dreamcirc - OpenCL error: " + std::string(what) + " failed (" + std::to_string(ret) + ")!");
+  }
+}
+
 /***
  *
  * OpenCL version of dreamcirc
@@ -88,18 +97,19 @@ int Circ::cl_dreamcirc(const double *Ro,
   cl_uint ret_num_platforms;
 
   cl_int ret = clGetPlatformIDs(1, &platform_id, &ret_num_platforms);
+  check_cl(ret, "platform");
 
   //ret = clGetDeviceIDs(platform_id, CL_DEVICE_TYPE_DEFAULT, 1, &device_id, &ret_num_devices);
   ret = clGetDeviceIDs(platform_id, CL_DEVICE_TYPE_GPU, 1, &device_id, &ret_num_devices);
-  if (ret < 0) std::cout << "ret: " << ret << " num devices: " << ret_num_devices << std::endl;
+  check_cl(ret, "device");
 
   // Create an OpenCL context
   cl_context context = clCreateContext( NULL, 1, &device_id, NULL, NULL, &ret);
-  if (ret < 0) std::cout << "cl context ret: " << ret << std::endl;
+  check_cl(ret, "context");
 
   // Create a command queue
   cl_command_queue command_queue = clCreateCommandQueue(context, device_id, 0, &ret);
-  if (ret < 0) std::cout << "cl command queue ret: " << ret << std::endl;
+  check_cl(ret, "command queue");
 
   //
   // Create memory buffers on the device for arguement to the  kernel
@@ -108,7 +118,7 @@ int Circ::cl_dreamcirc(const double *Ro,
   // Read
 
   cl_mem Ro_mo = clCreateBuffer(context, CL_MEM_READ_ONLY, No*3*sizeof(double), NULL, &ret);
-  if (ret < 0) std::cout << "cl Ro mem ret: " << ret << std::endl;
+  check_cl(ret, "Ro mem");
   cl_int No_mo = No;
 
   cl_double r_mo = r;
@@ -123,13 +133,14 @@ int Circ::cl_dreamcirc(const double *Ro,
   // Write
 
   cl_mem H_mo = clCreateBuffer(context, CL_MEM_WRITE_ONLY, nt * No * sizeof(double), NULL, &ret);
-  if (ret < 0) std::cout << "cl H mem ret: " << ret << std::endl;
+  check_cl(ret, "H mem");
 
   //
   // Copy input arguments to their respective memory buffers
   //
 
   ret = clEnqueueWriteBuffer(command_queue, Ro_mo, CL_TRUE, 0, No*3 * sizeof(double), Ro,  0, NULL, NULL);
+  check_cl(ret, "write");
 
   //
   // Create a program from the kernel source
@@ -137,14 +148,13 @@ int Circ::cl_dreamcirc(const double *Ro,
 
   const char *k_c_str = kernel_str.c_str();
   cl_program program = clCreateProgramWithSource(context, 1, (const char **) &k_c_str, (const size_t *) &source_size, &ret);
-  if (ret < 0) std::cout << "cl program ret: " << ret << std::endl;
+  check_cl(ret, "program");
 
   //
   // Build the program
   //
 
   ret = clBuildProgram(program, 1, &device_id, NULL, NULL, NULL);
-  if (ret < 0) std::cout << "cl build program ret: " << ret << std::endl;
 
   if (ret == CL_BUILD_PROGRAM_FAILURE) {
     // Determine the size of the log
@@ -162,41 +172,42 @@ int Circ::cl_dreamcirc(const double *Ro,
 
     free(log);
   }
+  check_cl(ret, "build program");
 
   // Create the OpenCL kernel
   cl_kernel kernel = clCreateKernel(program, "dreamcirc", &ret);
-  if (ret < 0) std::cout << "cl kernel ret: " << ret << std::endl;
+  check_cl(ret, "kernel");
 
   // Set the arguments of the kernel
 
   ret = clSetKernelArg(kernel, 0, sizeof(cl_mem), (void *) &Ro_mo);
-  if (ret < 0) std::cout << "cl kernel arg Ro ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg Ro");
 
   ret = clSetKernelArg(kernel, 1, sizeof(cl_int), (void *) &No_mo);
-  if (ret < 0) std::cout << "cl kernel arg No ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg No");
 
   ret = clSetKernelArg(kernel, 2, sizeof(cl_double), (void *) &r_mo);
-  if (ret < 0) std::cout << "cl kernel arg r ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg r");
 
   ret = clSetKernelArg(kernel, 3, sizeof(cl_double), (void *) &dx_mo);
-  if (ret < 0) std::cout << "cl kernel arg dx ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg dx");
   ret = clSetKernelArg(kernel, 4, sizeof(cl_double), (void *) &dy_mo);
-  if (ret < 0) std::cout << "cl kernel arg dy ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg dy");
   ret = clSetKernelArg(kernel, 5, sizeof(cl_double), (void *) &dt_mo);
-  if (ret < 0) std::cout << "cl kernel arg dt ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg dt");
 
   ret = clSetKernelArg(kernel, 6, sizeof(cl_int), (void *) &nt_mo);
-  if (ret < 0) std::cout << "cl kernel arg nt ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg nt");
 
   ret = clSetKernelArg(kernel, 7, sizeof(cl_double), (void *) &delay_mo);
-  if (ret < 0) std::cout << "cl kernel arg delay ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg delay");
   ret = clSetKernelArg(kernel, 8, sizeof(cl_double), (void *) &v_mo);
-  if (ret < 0) std::cout << "cl kernel arg v ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg v");
   ret = clSetKernelArg(kernel, 9, sizeof(cl_double), (void *) &cp_mo);
-  if (ret < 0) std::cout << "cl kernel arg cp ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg cp");
 
   ret = clSetKernelArg(kernel, 10, sizeof(cl_mem), (void *) &H_mo);
-  if (ret < 0) std::cout << "cl kernel arg H ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg H");
 
   //
   // Execute the OpenCL kernel
@@ -204,14 +215,14 @@ int Circ::cl_dreamcirc(const double *Ro,
 
   size_t global_item_size = No; // Process the entire number of observation points (the runtime chooses the work group size).
   ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, NULL, 0, NULL, NULL);
-  if (ret < 0) std::cout << "cl enqueue ret: " << ret << std::endl;
+  check_cl(ret, "enqueue");
 
   //
   // Read the memory buffer C on the device to the local variable C
   //
 
   ret = clEnqueueReadBuffer(command_queue, H_mo, CL_TRUE, 0, nt*No*sizeof(double), H, 0, NULL, NULL);
-  if (ret < 0) std::cout << "cl read ret: " << ret << std::endl;
+  check_cl(ret, "read");
 
   //
   // Clean up
diff --git a/opencl/cl_dreamrect.cc b/opencl/cl_dreamrect.cc
index b14152b..e92474b 100644
--- a/opencl/cl_dreamrect.cc
+++ b/opencl/cl_dreamrect.cc
@@ -26,6 +26,8 @@
 #include <iostream>
 #include <fstream>
 #include <streambuf>
+#include <stdexcept>
+#include <string>
 
 #include "dreamrect.h"
 #include "dream_error.h"
@@ -33,6 +35,13 @@
 #define CL_TARGET_OPENCL_VERSION 120
 #include <CL/cl.h>
 
+static void check_cl(cl_int ret, const char *what)
+{
+  if (ret != CL_SUCCESS) {
+    throw std::runtime_error("Error in dreamrect - OpenCL error: " + std::string(what) + " failed (" + std::to_string(ret) + ")!");
+  }
+}
+
 /***
  *
  * OpenCL version of dreamrect
@@ -88,18 +97,19 @@ int Rect::cl_dreamrect(const double *Ro,
   cl_uint ret_num_platforms;
 
   cl_int ret = clGetPlatformIDs(1, &platform_id, &ret_num_platforms);
+  check_cl(ret, "platform");
 
   //ret = clGetDeviceIDs(platform_id, CL_DEVICE_TYPE_DEFAULT, 1, &device_id, &ret_num_devices);
   ret = clGetDeviceIDs(platform_id, CL_DEVICE_TYPE_GPU, 1, &device_id, &ret_num_devices);
-  if (ret < 0) std::cout << "ret: " << ret << " num devices: " << ret_num_devices << std::endl;
+  check_cl(ret, "device");
 
   // Create an OpenCL context
   cl_context context = clCreateContext( NULL, 1, &device_id, NULL, NULL, &ret);
-  if (ret < 0) std::cout << "cl context ret: " << ret << std::endl;
+  check_cl(ret, "context");
 
   // Create a command queue
   cl_command_queue command_queue = clCreateCommandQueue(context, device_id, 0, &ret);
-  if (ret < 0) std::cout << "cl command queue ret: " << ret << std::endl;
+  check_cl(ret, "command queue");
 
   //
   // Create memory buffers on the device for arguement to the  kernel
@@ -108,7 +118,7 @@ int Rect::cl_dreamrect(const double *Ro,
   // Read
 
   cl_mem Ro_mo = clCreateBuffer(context, CL_MEM_READ_ONLY, No*3*sizeof(double), NULL, &ret);
-  if (ret < 0) std::cout << "cl Ro mem ret: " << ret << std::endl;
+  check_cl(ret, "Ro mem");
   cl_int No_mo = No;
 
   cl_double a_mo = a;
@@ -124,13 +134,14 @@ int Rect::cl_dreamrect(const double *Ro,
   // Write
 
   cl_mem H_mo = clCreateBuffer(context, CL_MEM_WRITE_ONLY, nt * No * sizeof(double), NULL, &ret);
-  if (ret < 0) std::cout << "cl H mem ret: " << ret << std::endl;
+  check_cl(ret, "H mem");
 
   //
   // Copy input arguments to their respective memory buffers
   //
 
   ret = clEnqueueWriteBuffer(command_queue, Ro_mo, CL_TRUE, 0, No*3 * sizeof(double), Ro,  0, NULL, NULL);
+  check_cl(ret, "write");
 
   //
   // Create a program from the kernel source
@@ -138,14 +149,13 @@ int Rect::cl_dreamrect(const double *Ro,
 
   const char *k_c_str = kernel_str.c_str();
   cl_program program = clCreateProgramWithSource(context, 1, (const char **) &k_c_str, (const size_t *) &source_size, &ret);
-  if (ret < 0) std::cout << "cl program ret: " << ret << std::endl;
+  check_cl(ret, "program");
 
   //
   // Build the program
   //
 
   ret = clBuildProgram(program, 1, &device_id, NULL, NULL, NULL);
-  if (ret < 0) std::cout << "cl build program ret: " << ret << std::endl;
 
   if (ret == CL_BUILD_PROGRAM_FAILURE) {
     // Determine the size of the log
@@ -163,43 +173,44 @@ int Rect::cl_dreamrect(const double *Ro,
 
     free(log);
   }
+  check_cl(ret, "build program");
 
   // Create the OpenCL kernel
   cl_kernel kernel = clCreateKernel(program, "dreamrect", &ret);
-  if (ret < 0) std::cout << "cl kernel ret: " << ret << std::endl;
+  check_cl(ret, "kernel");
 
   // Set the arguments of the kernel
 
   ret = clSetKernelArg(kernel, 0, sizeof(cl_mem), (void *) &Ro_mo);
-  if (ret < 0) std::cout << "cl kernel arg Ro ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg Ro");
 
   ret = clSetKernelArg(kernel, 1, sizeof(cl_int), (void *) &No_mo);
-  if (ret < 0) std::cout << "cl kernel arg No ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg No");
 
   ret = clSetKernelArg(kernel, 2, sizeof(cl_double), (void *) &a_mo);
-  if (ret < 0) std::cout << "cl kernel arg a ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg a");
   ret = clSetKernelArg(kernel, 3, sizeof(cl_double), (void *) &b_mo);
-  if (ret < 0) std::cout << "cl kernel arg b ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg b");
 
   ret = clSetKernelArg(kernel, 4, sizeof(cl_double), (void *) &dx_mo);
-  if (ret < 0) std::cout << "cl kernel arg dx ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg dx");
   ret = clSetKernelArg(kernel, 5, sizeof(cl_double), (void *) &dy_mo);
-  if (ret < 0) std::cout << "cl kernel arg dy ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg dy");
   ret = clSetKernelArg(kernel, 6, sizeof(cl_double), (void *) &dt_mo);
-  if (ret < 0) std::cout << "cl kernel arg dt ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg dt");
 
   ret = clSetKernelArg(kernel, 7, sizeof(cl_int), (void *) &nt_mo);
-  if (ret < 0) std::cout << "cl kernel arg nt ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg nt");
 
   ret = clSetKernelArg(kernel, 8, sizeof(cl_double), (void *) &delay_mo);
-  if (ret < 0) std::cout << "cl kernel arg delay ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg delay");
   ret = clSetKernelArg(kernel, 9, sizeof(cl_double), (void *) &v_mo);
-  if (ret < 0) std::cout << "cl kernel arg v ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg v");
   ret = clSetKernelArg(kernel, 10, sizeof(cl_double), (void *) &cp_mo);
-  if (ret < 0) std::cout << "cl kernel arg cp ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg cp");
 
   ret = clSetKernelArg(kernel, 11, sizeof(cl_mem), (void *) &H_mo);
-  if (ret < 0) std::cout << "cl kernel arg H ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg H");
 
   //
   // Execute the OpenCL kernel
@@ -207,14 +218,14 @@ int Rect::cl_dreamrect(const double *Ro,
 
   size_t global_item_size = No; // Process the entire number of observation points (the runtime chooses the work group size).
   ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, NULL, 0, NULL, NULL);
-  if (ret < 0) std::cout << "cl enqueue ret: " << ret << std::endl;
+  check_cl(ret, "enqueue");
 
   //
   // Read the memory buffer C on the device to the local variable C
   //
 
   ret = clEnqueueReadBuffer(command_queue, H_mo, CL_TRUE, 0, nt*No*sizeof(double), H, 0, NULL, NULL);
-  if (ret < 0) std::cout << "cl read ret: " << ret << std::endl;
+  check_cl(ret, "read");
 
   //
   // Clean up
diff --git a/opencl/cl_rect_sir.cc b/opencl/cl_rect_sir.cc
index fa6838d..9833261 100644
--- a/opencl/cl_rect_sir.cc
+++ b/opencl/cl_rect_sir.cc
@@ -26,12 +26,21 @@
 #include <iostream>
 #include <fstream>
 #include <streambuf>
+#include <stdexcept>
+#include <string>
 
 #include "rect_sir.h"
 
 #define CL_TARGET_OPENCL_VERSION 120
 #include <CL/cl.h>
 
+static void check_cl(cl_int ret, const char *what)
+{
+  if (ret != CL_SUCCESS) {
+    throw std::runtime_error("Error in rect_sir - OpenCL error: " + std::string(what) + " failed (" + std::to_string(ret) + ")!");
+  }
+}
+
 /***
  *
  * OpenCL version of rect_sir
@@ -81,18 +90,19 @@ int RectSir::cl_rect_sir(const double *Ro,
   cl_uint ret_num_platforms;
 
   cl_int ret = clGetPlatformIDs(1, &platform_id, &ret_num_platforms);
+  check_cl(ret, "platform");
 
   //ret = clGetDeviceIDs(platform_id, CL_DEVICE_TYPE_DEFAULT, 1, &device_id, &ret_num_devices);
   ret = clGetDeviceIDs(platform_id, CL_DEVICE_TYPE_GPU, 1, &device_id, &ret_num_devices);
-  if (ret < 0) std::cout << "ret: " << ret << " num devices: " << ret_num_devices << std::endl;
+  check_cl(ret, "device");
 
   // Create an OpenCL context
   cl_context context = clCreateContext( NULL, 1, &device_id, NULL, NULL, &ret);
-  if (ret < 0) std::cout << "cl context ret: " << ret << std::endl;
+  check_cl(ret, "context");
 
   // Create a command queue
   cl_command_queue command_queue = clCreateCommandQueue(context, device_id, 0, &ret);
-  if (ret < 0) std::cout << "cl command queue ret: " << ret << std::endl;
+  check_cl(ret, "command queue");
 
   //
   // Create memory buffers on the device for arguement to the  kernel
@@ -101,7 +111,7 @@ int RectSir::cl_rect_sir(const double *Ro,
   // Read
 
   cl_mem Ro_mo = clCreateBuffer(context, CL_MEM_READ_ONLY, No*3*sizeof(double), NULL, &ret);
-  if (ret < 0) std::cout << "cl Ro mem ret: " << ret << std::endl;
+  check_cl(ret, "Ro mem");
   cl_int No_mo = No;
 
   cl_double a_mo = a;
@@ -115,13 +125,14 @@ int RectSir::cl_rect_sir(const double *Ro,
   // Write
 
   cl_mem H_mo = clCreateBuffer(context, CL_MEM_WRITE_ONLY, nt * No * sizeof(double), NULL, &ret);
-  if (ret < 0) std::cout << "cl H mem ret: " << ret << std::endl;
+  check_cl(ret, "H mem");
 
   //
   // Copy input arguments to their respective memory buffers
   //
 
   ret = clEnqueueWriteBuffer(command_queue, Ro_mo, CL_TRUE, 0, No*3 * sizeof(double), Ro,  0, NULL, NULL);
+  check_cl(ret, "write");
 
   //
   // Create a program from the kernel source
@@ -129,14 +140,13 @@ int RectSir::cl_rect_sir(const double *Ro,
 
   const char *k_c_str = kernel_str.c_str();
   cl_program program = clCreateProgramWithSource(context, 1, (const char **) &k_c_str, (const size_t *) &source_size, &ret);
-  if (ret < 0) std::cout << "cl program ret: " << ret << std::endl;
+  check_cl(ret, "program");
 
   //
   // Build the program
   //
 
   ret = clBuildProgram(program, 1, &device_id, NULL, NULL, NULL);
-  if (ret < 0) std::cout << "cl build program ret: " << ret << std::endl;
 
   if (ret == CL_BUILD_PROGRAM_FAILURE) {
     // Determine the size of the log
@@ -154,39 +164,40 @@ int RectSir::cl_rect_sir(const double *Ro,
 
     free(log);
   }
+  check_cl(ret, "build program");
 
   // Create the OpenCL kernel
   cl_kernel kernel = clCreateKernel(program, "rect_sir", &ret);
-  if (ret < 0) std::cout << "cl kernel ret: " << ret << std::endl;
+  check_cl(ret, "kernel");
 
   // Set the arguments of the kernel
 
   ret = clSetKernelArg(kernel, 0, sizeof(cl_mem), (void *) &Ro_mo);
-  if (ret < 0) std::cout << "cl kernel arg Ro ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg Ro");
 
   ret = clSetKernelArg(kernel, 1, sizeof(cl_int), (void *) &No_mo);
-  if (ret < 0) std::cout << "cl kernel arg No ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg No");
 
   ret = clSetKernelArg(kernel, 2, sizeof(cl_double), (void *) &a_mo);
-  if (ret < 0) std::cout << "cl kernel arg a ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg a");
   ret = clSetKernelArg(kernel, 3, sizeof(cl_double), (void *) &b_mo);
-  if (ret < 0) std::cout << "cl kernel arg b ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg b");
 
   ret = clSetKernelArg(kernel, 4, sizeof(cl_double), (void *) &dt_mo);
-  if (ret < 0) std::cout << "cl kernel arg dt ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg dt");
 
   ret = clSetKernelArg(kernel, 5, sizeof(cl_int), (void *) &nt_mo);
-  if (ret < 0) std::cout << "cl kernel arg nt ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg nt");
 
   ret = clSetKernelArg(kernel, 6, sizeof(cl_double), (void *) &delay_mo);
-  if (ret < 0) std::cout << "cl kernel arg delay ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg delay");
   ret = clSetKernelArg(kernel, 7, sizeof(cl_double), (void *) &v_mo);
-  if (ret < 0) std::cout << "cl kernel arg v ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg v");
   ret = clSetKernelArg(kernel, 8, sizeof(cl_double), (void *) &cp_mo);
-  if (ret < 0) std::cout << "cl kernel arg cp ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg cp");
 
   ret = clSetKernelArg(kernel, 9, sizeof(cl_mem), (void *) &H_mo);
-  if (ret < 0) std::cout << "cl kernel arg H ret: " << ret << std::endl;
+  check_cl(ret, "kernel arg H");
 
   //
   // Execute the OpenCL kernel
@@ -194,14 +205,14 @@ int RectSir::cl_rect_sir(const double *Ro,
 
   size_t global_item_size = No; // Process the entire number of observation points (the runtime chooses the work group size).
   ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, NULL, 0, NULL, NULL);
-  if (ret < 0) std::cout << "cl enqueue ret: " << ret << std::endl;
+  check_cl(ret, "enqueue");
 
   //
   // Read the memory buffer C on the device to the local variable C
   //
 
   ret = clEnqueueReadBuffer(command_queue, H_mo, CL_TRUE, 0, nt*No*sizeof(double), h, 0, NULL, NULL);
-  if (ret < 0) std::cout << "cl read ret: " << ret << std::endl;
+  check_cl(ret, "read");
 
   //
   // Clean up
-- 
2.43.0


From 9b43f1b5ecbfd8eb0dee3ce266728d110980dc1a Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 47/80] fix: GPU calls ignore attenuation and one delay per
 observation point

---
 extra_src/oct_das.cc      | 7 +++++++
 extra_src/oct_rect_sir.cc | 8 ++++++++
 oct/oct_dreamcirc.cc      | 7 +++++++
 oct/oct_dreamrect.cc      | 7 +++++++
 4 files changed, 29 insertions(+)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index b09fb76..9795eb8 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -448,6 +448,13 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   // We use this to make the GPU init code run
   bool use_gpu = false;
 #ifdef USE_OPENCL
+  if (device == "gpu" && delay_type == DelayType::multiple) {
+    // The GPU kernels do not handle one delay per observation point.
+    std::cout << "Warning: The GPU backend does not support calls with one delay per observation point!" << std::endl;
+    std::cout << "Using the CPU backend!" << std::endl;
+    device = "cpu";
+  }
+
   if (device == "gpu") {
     use_gpu = true;
   }
diff --git a/extra_src/oct_rect_sir.cc b/extra_src/oct_rect_sir.cc
index e642828..cf631b7 100644
--- a/extra_src/oct_rect_sir.cc
+++ b/extra_src/oct_rect_sir.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <csignal>
+#include <iostream>
 
 #include "rect_sir.h"
 #include "signal_guard.h"
@@ -239,6 +240,13 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   // Check if we should use the GPU
 
 #ifdef USE_OPENCL
+
+  // The GPU kernel does not handle one delay per observation point.
+  if (device == "gpu" && delay_type == DelayType::multiple) {
+    std::cout << "Warning: The GPU backend does not support calls with one delay per observation point!" << std::endl;
+    std::cout << "Using the CPU backend!" << std::endl;
+    device = "cpu";
+  }
   if (device == "gpu") {
 
     try {
diff --git a/oct/oct_dreamcirc.cc b/oct/oct_dreamcirc.cc
index 0a022a7..ff0b620 100644
--- a/oct/oct_dreamcirc.cc
+++ b/oct/oct_dreamcirc.cc
@@ -237,6 +237,13 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
 #ifdef USE_OPENCL
 
+  // The GPU kernel handles neither one delay per observation point nor attenuation.
+  if (device == "gpu" && (delay_type == DelayType::multiple || alpha > 0.0)) {
+    std::cout << "Warning: The GPU backend does not support calls with one delay per observation point or with attenuation!" << std::endl;
+    std::cout << "Using the CPU backend!" << std::endl;
+    device = "cpu";
+  }
+
   // Check if we should use the GPU
   if (device == "gpu") {
 
diff --git a/oct/oct_dreamrect.cc b/oct/oct_dreamrect.cc
index 9053916..f4d44ed 100644
--- a/oct/oct_dreamrect.cc
+++ b/oct/oct_dreamrect.cc
@@ -240,6 +240,13 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
 #ifdef USE_OPENCL
 
+  // The GPU kernel handles neither one delay per observation point nor attenuation.
+  if (device == "gpu" && (delay_type == DelayType::multiple || alpha > 0.0)) {
+    std::cout << "Warning: The GPU backend does not support calls with one delay per observation point or with attenuation!" << std::endl;
+    std::cout << "Using the CPU backend!" << std::endl;
+    device = "cpu";
+  }
+
   // Check if we should use the GPU
   if (device == "gpu") {
 
-- 
2.43.0


From 0dfddbfe023c9c98bbfa50fe320d20f749e7c0b8 Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 00:19:14 +0000
Subject: [PATCH 48/80] fix: das without receivers reads out of bounds on the
 GPU

---
 include/das.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/das.h b/include/das.h
index c79ad2d..9363315 100644
--- a/include/das.h
+++ b/include/das.h
@@ -100,11 +100,6 @@ public:
     std::string kernel_str;
     std::string kernel_name="das_tfm"; // Default function name of the OpenCL kernel
 
-    if (m_das_type == DASType::saft) {
-      kernel_name="das_saft";
-      m_num_r_elements = 0;
-    }
-
     if (m_das_type == DASType::tfm) {
       kernel_name="das_tfm";
     }
@@ -117,6 +112,12 @@ public:
       kernel_name="das_rca_rowtx";
     }
 
+    // SAFT is also used when there are no receivers.
+    if (m_das_type == DASType::saft || m_num_r_elements == 0) {
+      kernel_name="das_saft";
+      m_num_r_elements = 0;
+    }
+
     //
     // Read OpenCL kernels
     //
@@ -308,7 +309,7 @@ public:
     // Data
 
     dream_idx_type n_r_el = m_num_r_elements;
-    if (m_das_type == DASType::saft) {
+    if (m_num_r_elements == 0) { // SAFT
       n_r_el = 1; // So we do not multiply by 0.
     }
 
-- 
2.43.0


From d9ac0e6e523559dd22f4e8f32298103cb3ac237c Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 00:20:06 +0000
Subject: [PATCH 49/80] fix: das_uni cannot be loaded in Octave (undefined
 symbol dream_err_msg)

---
 oct/CMakeLists.txt | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oct/CMakeLists.txt b/oct/CMakeLists.txt
index 12d0378..da7dd3a 100644
--- a/oct/CMakeLists.txt
+++ b/oct/CMakeLists.txt
@@ -546,6 +546,7 @@ if (OpenCL_FOUND)
   set (oct_das_uni_SOURCE_FILES
     ../extra_src/oct_das_uni.cc
     ../opencl/cl_das_uni.cc
+    ../src/dream_error.cc
   )
 
   file (COPY ../opencl/das_uni_float.cl DESTINATION kernels)
-- 
2.43.0


From c946d5ffd6e812b0f1b7847200c3eb460a919fe0 Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 00:20:06 +0000
Subject: [PATCH 50/80] fix: das_uni reads freed memory and data of the wrong
 size

---
 extra_src/oct_das_uni.cc | 41 ++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/extra_src/oct_das_uni.cc b/extra_src/oct_das_uni.cc
index 07f4400..9bab457 100644
--- a/extra_src/oct_das_uni.cc
+++ b/extra_src/oct_das_uni.cc
@@ -179,14 +179,18 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
 
   dream_idx_type a_scan_len = mxGetM(0); // A-scan length
 
+  // Must live as long as the pointers to their data are used.
+  FloatMatrix tmp0f, tmp5f;
+  Matrix tmp0d, tmp5d;
+
   const float *Yf = nullptr;
   const double *Yd = nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp0f= args(0).float_matrix_value();
+    tmp0f = args(0).float_matrix_value();
     Yf = (float*) tmp0f.data();
   } else {
-    const Matrix tmp0d = args(0).matrix_value();
+    tmp0d = args(0).matrix_value();
     Yd = (double*) tmp0d.data();
   }
 
@@ -224,11 +228,11 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
   //
 
   float min_r_f = 0.0;
-  float pitch_r_f = 0.0;
+  float pitch_r_f = 1.0; // So we do not divide by 0 when Gr=[].
   float max_r_f = 0.0;
 
   double min_r_d = 0.0;
-  double pitch_r_d = 0.0;
+  double pitch_r_d = 1.0;
   double max_r_d = 0.0;
 
   if (mxGetM(2)*mxGetN(2) != 0) { // SAFT is using an empty gr.
@@ -326,10 +330,10 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
   const double *delay_d = nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp5f = args(5).float_matrix_value();
+    tmp5f = args(5).float_matrix_value();
     delay_f = tmp5f.data();
   } else {
-    const Matrix tmp5d = args(5).matrix_value();
+    tmp5d = args(5).matrix_value();
     delay_d = tmp5d.data();
   }
 
@@ -367,6 +371,31 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  // SAFT is also selected if Gr=[].
+  bool have_gr = (mxGetM(2)*mxGetN(2) != 0);
+  if (!have_gr) {
+    das_type = DASType::saft;
+  }
+
+  // Check that there is one A-scan for each element (SAFT), or for each pair of elements.
+  dream_idx_type num_t_elements = 0, num_r_elements = 1;
+  if (use_float) {
+    num_t_elements = (dream_idx_type) ((max_t_f - min_t_f)/pitch_t_f+1.0);
+    if (das_type != DASType::saft) {
+      num_r_elements = (dream_idx_type) ((max_r_f - min_r_f)/pitch_r_f+1.0);
+    }
+  } else {
+    num_t_elements = (dream_idx_type) ((max_t_d - min_t_d)/pitch_t_d+1.0);
+    if (das_type != DASType::saft) {
+      num_r_elements = (dream_idx_type) ((max_r_d - min_r_d)/pitch_r_d+1.0);
+    }
+  }
+
+  if (mxGetN(0) != num_t_elements*num_r_elements) {
+    error("The number of A-scans (columns) in argument 1 does not match the number of elements!");
+    return oct_retval;
+  }
+
   //
   // Init DAS_UNI and output arg.
   //
-- 
2.43.0


From 01361fbe92656e0835f2f5148627b63bb7f1eb1c Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 51/80] fix: das_uni grids lose their last point to rounding

---
 extra_src/mex_das_uni.cc | 12 ++++++------
 extra_src/oct_das_uni.cc | 20 ++++++++++----------
 include/das_uni.h        | 20 ++++++++++----------
 opencl/das_uni_double.cl | 38 +++++++++++++++++++-------------------
 opencl/das_uni_float.cl  | 38 +++++++++++++++++++-------------------
 5 files changed, 64 insertions(+), 64 deletions(-)

diff --git a/extra_src/mex_das_uni.cc b/extra_src/mex_das_uni.cc
index 17ac7e7..7295a63 100644
--- a/extra_src/mex_das_uni.cc
+++ b/extra_src/mex_das_uni.cc
@@ -175,16 +175,16 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     min_Rx_f = ((float*) mxGetData(prhs[3]))[0]; dx_f = ((float*) mxGetData(prhs[3]))[3]; max_Rx_f = ((float*) mxGetData(prhs[3]))[6];
     min_Ry_f = ((float*) mxGetData(prhs[3]))[1]; dy_f = ((float*) mxGetData(prhs[3]))[4]; max_Ry_f = ((float*) mxGetData(prhs[3]))[7];
 min_Rz_f = ((float*) mxGetData(prhs[3]))[2]; dz_f = ((float*) mxGetData(prhs[3]))[5]; max_Rz_f = ((float*) mxGetData(prhs[3]))[8];
-    Nx = (dream_idx_type) ((max_Rx_f - min_Rx_f)/dx_f+1.0);
-    Ny = (dream_idx_type) ((max_Ry_f - min_Ry_f)/dy_f+1.0);
-    Nz = (dream_idx_type) ((max_Rz_f - min_Rz_f)/dz_f+1.0);
+    Nx = (dream_idx_type) ((max_Rx_f - min_Rx_f)/dx_f+1.001);
+    Ny = (dream_idx_type) ((max_Ry_f - min_Ry_f)/dy_f+1.001);
+    Nz = (dream_idx_type) ((max_Rz_f - min_Rz_f)/dz_f+1.001);
   } else {
     min_Rx_d = mxGetPr(prhs[3])[0]; dx_d = mxGetPr(prhs[3])[3]; max_Rx_d = mxGetPr(prhs[3])[6];
     min_Ry_d = mxGetPr(prhs[3])[1]; dy_d = mxGetPr(prhs[3])[4]; max_Ry_d = mxGetPr(prhs[3])[7];
     min_Rz_d = mxGetPr(prhs[3])[2]; dz_d = mxGetPr(prhs[3])[5]; max_Rz_d = mxGetPr(prhs[3])[8];
-    Nx = (dream_idx_type) ((max_Rx_d - min_Rx_d)/dx_d+1.0);
-    Ny = (dream_idx_type) ((max_Ry_d - min_Ry_d)/dy_d+1.0);
-    Nz = (dream_idx_type) ((max_Rz_d - min_Rz_d)/dz_d+1.0);
+    Nx = (dream_idx_type) ((max_Rx_d - min_Rx_d)/dx_d+1.001);
+    Ny = (dream_idx_type) ((max_Ry_d - min_Ry_d)/dy_d+1.001);
+    Nz = (dream_idx_type) ((max_Rz_d - min_Rz_d)/dz_d+1.001);
   }
 
   dream_idx_type No = Nx*Ny*Nz;
diff --git a/extra_src/oct_das_uni.cc b/extra_src/oct_das_uni.cc
index 9bab457..a96fe24 100644
--- a/extra_src/oct_das_uni.cc
+++ b/extra_src/oct_das_uni.cc
@@ -281,17 +281,17 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
     min_Rx_f=tmp3f.data()[0]; dx_f=tmp3f.data()[3]; max_Rx_f=tmp3f.data()[6];
     min_Ry_f=tmp3f.data()[1]; dy_f=tmp3f.data()[4]; max_Ry_f=tmp3f.data()[7];
     min_Rz_f=tmp3f.data()[2]; dz_f=tmp3f.data()[5]; max_Rz_f=tmp3f.data()[8];
-    Nx = (dream_idx_type) ((max_Rx_f - min_Rx_f)/dx_f+1.0);
-    Ny = (dream_idx_type) ((max_Ry_f - min_Ry_f)/dy_f+1.0);
-    Nz = (dream_idx_type) ((max_Rz_f - min_Rz_f)/dz_f+1.0);
+    Nx = (dream_idx_type) ((max_Rx_f - min_Rx_f)/dx_f+1.001);
+    Ny = (dream_idx_type) ((max_Ry_f - min_Ry_f)/dy_f+1.001);
+    Nz = (dream_idx_type) ((max_Rz_f - min_Rz_f)/dz_f+1.001);
   } else {
     const Matrix tmp3d = args(3).matrix_value();
     min_Rx_d=tmp3d.data()[0]; dx_d=tmp3d.data()[3]; max_Rx_d=tmp3d.data()[6];
     min_Ry_d=tmp3d.data()[1]; dy_d=tmp3d.data()[4]; max_Ry_d=tmp3d.data()[7];
     min_Rz_d=tmp3d.data()[2]; dz_d=tmp3d.data()[5]; max_Rz_d=tmp3d.data()[8];
-    Nx = (dream_idx_type) ((max_Rx_d - min_Rx_d)/dx_d+1.0);
-    Ny = (dream_idx_type) ((max_Ry_d - min_Ry_d)/dy_d+1.0);
-    Nz = (dream_idx_type) ((max_Rz_d - min_Rz_d)/dz_d+1.0);
+    Nx = (dream_idx_type) ((max_Rx_d - min_Rx_d)/dx_d+1.001);
+    Ny = (dream_idx_type) ((max_Ry_d - min_Ry_d)/dy_d+1.001);
+    Nz = (dream_idx_type) ((max_Rz_d - min_Rz_d)/dz_d+1.001);
   }
 
   dream_idx_type No = Nx*Ny*Nz;
@@ -380,14 +380,14 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
   // Check that there is one A-scan for each element (SAFT), or for each pair of elements.
   dream_idx_type num_t_elements = 0, num_r_elements = 1;
   if (use_float) {
-    num_t_elements = (dream_idx_type) ((max_t_f - min_t_f)/pitch_t_f+1.0);
+    num_t_elements = (dream_idx_type) ((max_t_f - min_t_f)/pitch_t_f+1.001);
     if (das_type != DASType::saft) {
-      num_r_elements = (dream_idx_type) ((max_r_f - min_r_f)/pitch_r_f+1.0);
+      num_r_elements = (dream_idx_type) ((max_r_f - min_r_f)/pitch_r_f+1.001);
     }
   } else {
-    num_t_elements = (dream_idx_type) ((max_t_d - min_t_d)/pitch_t_d+1.0);
+    num_t_elements = (dream_idx_type) ((max_t_d - min_t_d)/pitch_t_d+1.001);
     if (das_type != DASType::saft) {
-      num_r_elements = (dream_idx_type) ((max_r_d - min_r_d)/pitch_r_d+1.0);
+      num_r_elements = (dream_idx_type) ((max_r_d - min_r_d)/pitch_r_d+1.001);
     }
   }
 
diff --git a/include/das_uni.h b/include/das_uni.h
index 7191f42..f668dfc 100644
--- a/include/das_uni.h
+++ b/include/das_uni.h
@@ -70,13 +70,13 @@ class DAS_UNI
                    unsigned char *cl_kernel_str, unsigned int cl_kernel_str_len)
   {
     // Array dims
-    m_num_t_elements = (dream_idx_type) ((max_t - min_t)/pitch_t+1.0);
-    m_num_r_elements = (dream_idx_type) ((max_r - min_r)/pitch_r+1.0);
+    m_num_t_elements = (dream_idx_type) ((max_t - min_t)/pitch_t+1.001);
+    m_num_r_elements = (dream_idx_type) ((max_r - min_r)/pitch_r+1.001);
 
     // Image dims
-    dream_idx_type Nx = (dream_idx_type) ((max_Rx - min_Rx)/dx+1.0);
-    dream_idx_type Ny = (dream_idx_type) ((max_Ry - min_Ry)/dy+1.0);
-    dream_idx_type Nz = (dream_idx_type) ((max_Rz - min_Rz)/dz+1.0);
+    dream_idx_type Nx = (dream_idx_type) ((max_Rx - min_Rx)/dx+1.001);
+    dream_idx_type Ny = (dream_idx_type) ((max_Ry - min_Ry)/dy+1.001);
+    dream_idx_type Nz = (dream_idx_type) ((max_Rz - min_Rz)/dz+1.001);
     m_No = Nx*Ny*Nz;
 
     std::string kernel_str;
@@ -332,13 +332,13 @@ class DAS_UNI
     bool retval = false;
 
     // Array dims
-    dream_idx_type num_t_elements = (dream_idx_type) ((max_t - min_t)/pitch_t+1.0);
-    dream_idx_type num_r_elements = (dream_idx_type) ((max_r - min_r)/pitch_r+1.0);
+    dream_idx_type num_t_elements = (dream_idx_type) ((max_t - min_t)/pitch_t+1.001);
+    dream_idx_type num_r_elements = (dream_idx_type) ((max_r - min_r)/pitch_r+1.001);
 
     // Image dims
-    dream_idx_type Nx = (dream_idx_type) ((max_Rx - min_Rx)/dx+1.0);
-    dream_idx_type Ny = (dream_idx_type) ((max_Ry - min_Ry)/dy+1.0);
-    dream_idx_type Nz = (dream_idx_type) ((max_Rz - min_Rz)/dz+1.0);
+    dream_idx_type Nx = (dream_idx_type) ((max_Rx - min_Rx)/dx+1.001);
+    dream_idx_type Ny = (dream_idx_type) ((max_Ry - min_Ry)/dy+1.001);
+    dream_idx_type Nz = (dream_idx_type) ((max_Rz - min_Rz)/dz+1.001);
     dream_idx_type No = Nx*Ny*Nz;
 
     if ( das_type != m_das_type ||
diff --git a/opencl/das_uni_double.cl b/opencl/das_uni_double.cl
index 91d622e..b49d098 100644
--- a/opencl/das_uni_double.cl
+++ b/opencl/das_uni_double.cl
@@ -20,12 +20,12 @@ __kernel void das_uni_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
   int no = get_global_id(0); // Each thread computes one image point.
 
   // Array dims
-  int num_elements = (int) ((max_tr - min_tr)/pitch+1.0);
+  int num_elements = (int) ((max_tr - min_tr)/pitch+1.001);
 
   // Image dims
-  int Nx = (int) ((max_Rx - min_Rx)/dx+1.0);
-  int Ny = (int) ((max_Ry - min_Ry)/dy+1.0);
-  int Nz = (int) ((max_Rz - min_Rz)/dz+1.0);
+  int Nx = (int) ((max_Rx - min_Rx)/dx+1.001);
+  int Ny = (int) ((max_Ry - min_Ry)/dy+1.001);
+  int Nz = (int) ((max_Rz - min_Rz)/dz+1.001);
 
   // Convert linear indices to subscripts
   // (cf. the in2sub function in Octave/MATLAB).
@@ -96,13 +96,13 @@ __kernel void das_uni_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
   //
 
   // Array dims
-  int num_t_elements = (int) ((max_t - min_t)/pitch_t+1.0);
-  int num_r_elements = (int) ((max_r - min_r)/pitch_r+1.0);
+  int num_t_elements = (int) ((max_t - min_t)/pitch_t+1.001);
+  int num_r_elements = (int) ((max_r - min_r)/pitch_r+1.001);
 
   // Image dims
-  int Nx = (int) ((max_Rx - min_Rx)/dx+1.0);
-  int Ny = (int) ((max_Ry - min_Ry)/dy+1.0);
-  int Nz = (int) ((max_Rz - min_Rz)/dz+1.0);
+  int Nx = (int) ((max_Rx - min_Rx)/dx+1.001);
+  int Ny = (int) ((max_Ry - min_Ry)/dy+1.001);
+  int Nz = (int) ((max_Rz - min_Rz)/dz+1.001);
 
   // Convert linear indices to subscripts
   // (cf. the in2sub function in Octave/MATLAB).
@@ -186,13 +186,13 @@ __kernel void das_uni_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_
   //
 
   // Array dims
-  int num_cols = (int) ((max_c - min_c)/pitch_c+1.0);
-  int num_rows = (int) ((max_r - min_r)/pitch_r+1.0);
+  int num_cols = (int) ((max_c - min_c)/pitch_c+1.001);
+  int num_rows = (int) ((max_r - min_r)/pitch_r+1.001);
 
   // Image dims
-  int Nx = (int) ((max_Rx - min_Rx)/dx+1.0);
-  int Ny = (int) ((max_Ry - min_Ry)/dy+1.0);
-  int Nz = (int) ((max_Rz - min_Rz)/dz+1.0);
+  int Nx = (int) ((max_Rx - min_Rx)/dx+1.001);
+  int Ny = (int) ((max_Ry - min_Ry)/dy+1.001);
+  int Nz = (int) ((max_Rz - min_Rz)/dz+1.001);
 
   // Convert linear indices to subscripts
   // (cf. the in2sub function in Octave/MATLAB).
@@ -300,13 +300,13 @@ __kernel void das_uni_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_
   //
 
   // Array dims
-  int num_cols = (int) ((max_c - min_c)/pitch_c+1.0);
-  int num_rows = (int) ((max_r - min_r)/pitch_r+1.0);
+  int num_cols = (int) ((max_c - min_c)/pitch_c+1.001);
+  int num_rows = (int) ((max_r - min_r)/pitch_r+1.001);
 
   // Image dims
-  int Nx = (int) ((max_Rx - min_Rx)/dx+1.0);
-  int Ny = (int) ((max_Ry - min_Ry)/dy+1.0);
-  int Nz = (int) ((max_Rz - min_Rz)/dz+1.0);
+  int Nx = (int) ((max_Rx - min_Rx)/dx+1.001);
+  int Ny = (int) ((max_Ry - min_Ry)/dy+1.001);
+  int Nz = (int) ((max_Rz - min_Rz)/dz+1.001);
 
   // Convert linear indices to subscripts
   // (cf. the in2sub function in Octave/MATLAB).
diff --git a/opencl/das_uni_float.cl b/opencl/das_uni_float.cl
index 66ad315..01282a4 100644
--- a/opencl/das_uni_float.cl
+++ b/opencl/das_uni_float.cl
@@ -21,12 +21,12 @@ __kernel void das_uni_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
   int no = get_global_id(0); // Each thread computes one image point.
 
   // Array dims
-  int num_elements = (int) ((max_tr - min_tr)/pitch+1.0);
+  int num_elements = (int) ((max_tr - min_tr)/pitch+F_SFX(1.001));
 
   // Image dims
-  int Nx = (int) ((max_Rx - min_Rx)/dx+1.0);
-  int Ny = (int) ((max_Ry - min_Ry)/dy+1.0);
-  int Nz = (int) ((max_Rz - min_Rz)/dz+1.0);
+  int Nx = (int) ((max_Rx - min_Rx)/dx+F_SFX(1.001));
+  int Ny = (int) ((max_Ry - min_Ry)/dy+F_SFX(1.001));
+  int Nz = (int) ((max_Rz - min_Rz)/dz+F_SFX(1.001));
 
   // Convert linear indices to subscripts
   // (cf. the in2sub function in Octave/MATLAB).
@@ -97,13 +97,13 @@ __kernel void das_uni_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
   //
 
   // Array dims
-  int num_t_elements = (int) ((max_t - min_t)/pitch_t+1.0);
-  int num_r_elements = (int) ((max_r - min_r)/pitch_r+1.0);
+  int num_t_elements = (int) ((max_t - min_t)/pitch_t+F_SFX(1.001));
+  int num_r_elements = (int) ((max_r - min_r)/pitch_r+F_SFX(1.001));
 
   // Image dims
-  int Nx = (int) ((max_Rx - min_Rx)/dx+1.0);
-  int Ny = (int) ((max_Ry - min_Ry)/dy+1.0);
-  int Nz = (int) ((max_Rz - min_Rz)/dz+1.0);
+  int Nx = (int) ((max_Rx - min_Rx)/dx+F_SFX(1.001));
+  int Ny = (int) ((max_Ry - min_Ry)/dy+F_SFX(1.001));
+  int Nz = (int) ((max_Rz - min_Rz)/dz+F_SFX(1.001));
 
   // Convert linear indices to subscripts
   // (cf. the in2sub function in Octave/MATLAB).
@@ -187,13 +187,13 @@ __kernel void das_uni_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_
   //
 
   // Array dims
-  int num_cols = (int) ((max_c - min_c)/pitch_c+1.0);
-  int num_rows = (int) ((max_r - min_r)/pitch_r+1.0);
+  int num_cols = (int) ((max_c - min_c)/pitch_c+F_SFX(1.001));
+  int num_rows = (int) ((max_r - min_r)/pitch_r+F_SFX(1.001));
 
   // Image dims
-  int Nx = (int) ((max_Rx - min_Rx)/dx+1.0);
-  int Ny = (int) ((max_Ry - min_Ry)/dy+1.0);
-  int Nz = (int) ((max_Rz - min_Rz)/dz+1.0);
+  int Nx = (int) ((max_Rx - min_Rx)/dx+F_SFX(1.001));
+  int Ny = (int) ((max_Ry - min_Ry)/dy+F_SFX(1.001));
+  int Nz = (int) ((max_Rz - min_Rz)/dz+F_SFX(1.001));
 
   // Convert linear indices to subscripts
   // (cf. the in2sub function in Octave/MATLAB).
@@ -301,13 +301,13 @@ __kernel void das_uni_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_
   //
 
   // Array dims
-  int num_cols = (int) ((max_c - min_c)/pitch_c+1.0);
-  int num_rows = (int) ((max_r - min_r)/pitch_r+1.0);
+  int num_cols = (int) ((max_c - min_c)/pitch_c+F_SFX(1.001));
+  int num_rows = (int) ((max_r - min_r)/pitch_r+F_SFX(1.001));
 
   // Image dims
-  int Nx = (int) ((max_Rx - min_Rx)/dx+1.0);
-  int Ny = (int) ((max_Ry - min_Ry)/dy+1.0);
-  int Nz = (int) ((max_Rz - min_Rz)/dz+1.0);
+  int Nx = (int) ((max_Rx - min_Rx)/dx+F_SFX(1.001));
+  int Ny = (int) ((max_Ry - min_Ry)/dy+F_SFX(1.001));
+  int Nz = (int) ((max_Rz - min_Rz)/dz+F_SFX(1.001));
 
   // Convert linear indices to subscripts
   // (cf. the in2sub function in Octave/MATLAB).
-- 
2.43.0


From 58b211ae0f38df6d270d86a991f69153e7a91ded Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 00:20:38 +0000
Subject: [PATCH 52/80] fix: rect_sir loses samples on the GPU at the corner
 arrival times

---
 opencl/rect_sir.cl | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/opencl/rect_sir.cl b/opencl/rect_sir.cl
index 2353149..9e741e4 100644
--- a/opencl/rect_sir.cl
+++ b/opencl/rect_sir.cl
@@ -175,22 +175,23 @@ __kernel void rect_sir(__global const double *Ro,
 
       t = (((double) it) * dt + delay)/1.0e6; // in [s].
 
+      // Radius of the arc. NB. s_k/ct and l_k/ct can be slightly above 1.0, or 0/0, when t is at tau_1-tau_3.
+      double ct = (t > t_z) ? cp * native_sqrt(t*t - t_z*t_z) : 0.0;
+
       a_k = 0.0;
       if ( (t >= tau_1) && (t <= tau_4) ) {
         a_k += cp/4.0;
       }
 
       if ( (t >= tau_2) && (t <= tau_4) ) {
-        a_k -= cp_2pi * acos( s_k / (cp * native_sqrt(t*t - t_z*t_z)));
+        a_k -= cp_2pi * acos( (s_k < ct) ? s_k / ct : 1.0);
       }
 
       if ( (t >= tau_3) && (t <= tau_4) ) {
-        a_k -= cp_2pi * acos( l_k / (cp * native_sqrt(t*t - t_z*t_z)));
+        a_k -= cp_2pi * acos( (l_k < ct) ? l_k / ct : 1.0);
       }
 
-      if (a_k > 0.0) {
-        h[it] += v * g_k * a_k; // This hits global memory
-      }
+      h[it] += v * g_k * a_k; // This hits global memory
 
     } // for it
   } // for k
-- 
2.43.0


From a0a21f86ec9e15ea8e9d8f841950415653b9fe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:41 +0000
Subject: [PATCH 53/80] fix: free the thread array after each call

Every parallel function allocated an array of std::thread with new[] and
never released it, so each call leaked memory.
---
 extra_src/das.cc             | 1 +
 extra_src/fftconv_p.cc       | 1 +
 extra_src/oct_add_p.cc       | 1 +
 extra_src/oct_circ_sir.cc    | 1 +
 extra_src/oct_conv_p.cc      | 1 +
 extra_src/oct_copy_p.cc      | 1 +
 extra_src/oct_fftconv_ola.cc | 1 +
 extra_src/oct_fftconv_p.cc   | 1 +
 extra_src/oct_scirc_sir.cc   | 1 +
 extra_src/oct_sum_fftconv.cc | 1 +
 extra_src/rect_sir.cc        | 1 +
 src/dream_arr_annu.cc        | 1 +
 src/dream_arr_circ.cc        | 1 +
 src/dream_arr_cylind.cc      | 1 +
 src/dream_arr_rect.cc        | 1 +
 src/dreamcirc.cc             | 1 +
 src/dreamcirc_f.cc           | 1 +
 src/dreamcylind.cc           | 1 +
 src/dreamline.cc             | 1 +
 src/dreamrect.cc             | 1 +
 src/dreamrect_f.cc           | 1 +
 src/dreamsphere.cc           | 1 +
 22 files changed, 22 insertions(+)

diff --git a/extra_src/das.cc b/extra_src/das.cc
index 04f56df..b721cfd 100644
--- a/extra_src/das.cc
+++ b/extra_src/das.cc
@@ -292,6 +292,7 @@ SIRError DAS<T>::das(const T *Y, const T *Ro, const T *Gt, const T *Gr,
   if (D) {
     free((void*) D);
   }
+  delete[] threads;
 
   return err;
 }
diff --git a/extra_src/fftconv_p.cc b/extra_src/fftconv_p.cc
index 63603d8..6d3ac84 100644
--- a/extra_src/fftconv_p.cc
+++ b/extra_src/fftconv_p.cc
@@ -390,6 +390,7 @@ ErrorLevel FFTConvP::run(double *Y,
   if (D) {
     free((void*) D);
   }
+  delete[] threads;
 
   // FIXME: Return the FFTW Wisdom so that the plans can be re-used.
   /*
diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index c65fe5f..de4d6c2 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -333,6 +333,7 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
 
   // Free memory.
   free((void*) D);
+  delete[] threads;
 
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
diff --git a/extra_src/oct_circ_sir.cc b/extra_src/oct_circ_sir.cc
index a8a4ba2..94ac27a 100644
--- a/extra_src/oct_circ_sir.cc
+++ b/extra_src/oct_circ_sir.cc
@@ -393,6 +393,7 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
 
   // Free memory.
   free((void*) D);
+  delete[] threads;
 
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 97ed21e..9e6b5b0 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -381,6 +381,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   if (D) {
     free((void*) D);
   }
+  delete[] threads;
 
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index d31ebd8..339f1fa 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -331,6 +331,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   // Free memory.
   free((void*) D);
+  delete[] threads;
 
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 72c57c2..8c987ac 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -703,6 +703,7 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
   if (D) {
     free((void*) D);
   }
+  delete[] threads;
 
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index b9cb9fc..d76d0f6 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -583,6 +583,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   if (D) {
     free((void*) D);
   }
+  delete[] threads;
 
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
diff --git a/extra_src/oct_scirc_sir.cc b/extra_src/oct_scirc_sir.cc
index 5813d2c..1b5f884 100644
--- a/extra_src/oct_scirc_sir.cc
+++ b/extra_src/oct_scirc_sir.cc
@@ -418,6 +418,7 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
 
   // Free memory.
   free((void*) D);
+  delete[] threads;
 
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 58ac476..b45f243 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -536,6 +536,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   if (D) {
     free((void*) D);
   }
+  delete[] threads;
 
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index 4a8cdee..94a3f7d 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -222,6 +222,7 @@ ErrorLevel RectSir::rect_sir(double *Ro, dream_idx_type No,
   if (D) {
     free((void*) D);
   }
+  delete[] threads;
 
   return m_out_err;
 }
diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index c2dd9e2..57c69d9 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -638,6 +638,7 @@ SIRError ArrAnnu::dream_arr_annu(double alpha,
   if (D) {
     free((void*) D);
   }
+  delete[] threads;
 
   return err;
 }
diff --git a/src/dream_arr_circ.cc b/src/dream_arr_circ.cc
index 67a9d32..2580a23 100644
--- a/src/dream_arr_circ.cc
+++ b/src/dream_arr_circ.cc
@@ -430,6 +430,7 @@ SIRError ArrCirc::dream_arr_circ(double alpha,
 
   // Free memory.
   free((void*) D);
+  delete[] threads;
 
   return err;
 }
diff --git a/src/dream_arr_cylind.cc b/src/dream_arr_cylind.cc
index f76a7e0..339eaa8 100644
--- a/src/dream_arr_cylind.cc
+++ b/src/dream_arr_cylind.cc
@@ -440,6 +440,7 @@ SIRError ArrCylind::dream_arr_cylind(double alpha,
   if (D) {
     free((void*) D);
   }
+  delete[] threads;
 
   return  err;
 }
diff --git a/src/dream_arr_rect.cc b/src/dream_arr_rect.cc
index c191ea8..1990536 100644
--- a/src/dream_arr_rect.cc
+++ b/src/dream_arr_rect.cc
@@ -434,6 +434,7 @@ SIRError ArrRect::dream_arr_rect(double alpha,
   if (D) {
     free((void*) D);
   }
+  delete[] threads;
 
   return err;
 }
diff --git a/src/dreamcirc.cc b/src/dreamcirc.cc
index ec7a3b5..4d08c63 100644
--- a/src/dreamcirc.cc
+++ b/src/dreamcirc.cc
@@ -269,6 +269,7 @@ SIRError Circ::dreamcirc(double alpha,
   if (D) {
     free((void*) D);
   }
+  delete[] threads;
 
   return err;
 }
diff --git a/src/dreamcirc_f.cc b/src/dreamcirc_f.cc
index 9e63610..e12d516 100644
--- a/src/dreamcirc_f.cc
+++ b/src/dreamcirc_f.cc
@@ -270,6 +270,7 @@ SIRError Circ_f::dreamcirc_f(double alpha,
   if (D) {
     free((void*) D);
   }
+  delete[] threads;
 
   return err;
 }
diff --git a/src/dreamcylind.cc b/src/dreamcylind.cc
index 89cab4c..8df6c3f 100644
--- a/src/dreamcylind.cc
+++ b/src/dreamcylind.cc
@@ -267,6 +267,7 @@ SIRError Cylind::dreamcylind(double alpha,
   if (D) {
     free((void*) D);
   }
+  delete[] threads;
 
   return err;
 }
diff --git a/src/dreamline.cc b/src/dreamline.cc
index b04e647..22c06d0 100644
--- a/src/dreamline.cc
+++ b/src/dreamline.cc
@@ -254,6 +254,7 @@ SIRError Line::dreamline(double alpha,
   if (D) {
     free((void*) D);
   }
+  delete[] threads;
 
   return err;
 }
diff --git a/src/dreamrect.cc b/src/dreamrect.cc
index 7ffd301..585a9fe 100644
--- a/src/dreamrect.cc
+++ b/src/dreamrect.cc
@@ -266,6 +266,7 @@ SIRError Rect::dreamrect(double alpha,
   if (D) {
     free((void*) D);
   }
+  delete[] threads;
 
   return err;
 }
diff --git a/src/dreamrect_f.cc b/src/dreamrect_f.cc
index 44a801a..ad21bd8 100644
--- a/src/dreamrect_f.cc
+++ b/src/dreamrect_f.cc
@@ -270,6 +270,7 @@ SIRError Rect_f::dreamrect_f(double alpha,
   if (D) {
     free((void*) D);
   }
+  delete[] threads;
 
   return err;
 }
diff --git a/src/dreamsphere.cc b/src/dreamsphere.cc
index fb4f1a3..98596f9 100644
--- a/src/dreamsphere.cc
+++ b/src/dreamsphere.cc
@@ -265,6 +265,7 @@ SIRError Sphere::dreamsphere(double alpha,
   if (D) {
     free((void*) D);
   }
+  delete[] threads;
 
   return err;
 }
-- 
2.43.0


From 2d1523238d640f935caea3d8184b35ac8831f3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:51 +0000
Subject: [PATCH 54/80] fix: destroy the FFTW plans and free the wisdom strings

An FFT object never destroyed its two plans, so every call of a transducer,
attenuation or convolution function leaked them; the exported wisdom string
and the H pointer table of a refused or cancelled sum_fftconv leaked too.
The convolution workers use the caller's FFT object instead of a copy.
---
 extra_src/fftconv_p.cc       |  2 +-
 extra_src/oct_fftconv_ola.cc |  2 +-
 extra_src/oct_fftconv_p.cc   |  2 +-
 extra_src/oct_sum_fftconv.cc |  9 +++------
 include/fft.h                | 30 ++++++++++++++++++++++--------
 5 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/extra_src/fftconv_p.cc b/extra_src/fftconv_p.cc
index 6d3ac84..38d6b9c 100644
--- a/extra_src/fftconv_p.cc
+++ b/extra_src/fftconv_p.cc
@@ -81,7 +81,7 @@ void* FFTConvP::smp_dream_fftconv(void *arg)
   const double *A = D.A, *B = D.B;
   double *Y = D.Y;
   dream_idx_type A_M = D.A_M, B_M = D.B_M, B_N = D.B_N;
-  FFT fft = *D.fft;
+  FFT &fft = *D.fft; // The FFTW execute functions are thread safe.
   ConvMode conv_mode = D.conv_mode;
   dream_idx_type fft_len = A_M+B_M-1;
 
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 8c987ac..bdd82bd 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -104,7 +104,7 @@ void* smp_dream_fftconv_ola(void *arg)
   dream_idx_type col_start=D.col_start, col_stop=D.col_stop;
   double *A = D.A, *B = D.B;
   double *Y = D.Y;
-  FFT fft = *D.fft;
+  FFT &fft = *D.fft; // The FFTW execute functions are thread safe.
   dream_idx_type A_M = D.A_M, B_M = D.B_M, B_N = D.B_N;
   dream_idx_type block_len = D.block_len;
   ConvMode conv_mode = D.conv_mode;
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index d76d0f6..230bda2 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -90,7 +90,7 @@ void* smp_dream_fftconv(void *arg)
   dream_idx_type col_start=D.col_start, col_stop=D.col_stop, n;
   double *A = D.A, *B = D.B, *Y = D.Y;
   dream_idx_type A_M = D.A_M, B_M = D.B_M, B_N = D.B_N;
-  FFT fft = *D.fft;
+  FFT &fft = *D.fft; // The FFTW execute functions are thread safe.
   ConvMode conv_mode = D.conv_mode;
   dream_idx_type fft_len = A_M+B_M-1;
 
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index b45f243..ee268e9 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -87,7 +87,7 @@ void* smp_dream_sum_fftconv(void *arg)
   double **H = D.H, *U = D.U, *Y = D.Y;
   dream_idx_type H_M = D.H_M, U_M = D.U_M; //, U_N = D.U_N;
   dream_idx_type L = D.L;
-  FFT fft = *D.fft;
+  FFT &fft = *D.fft; // The FFTW execute functions are thread safe.
   ConvMode conv_mode = D.conv_mode;
 
   dream_idx_type fft_len = H_M + U_M - 1;
@@ -317,7 +317,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   H_L = dv(2);
 
   // Store pointers to the L A-matrices in a vector.
-  double **H = (double**) malloc(H_L*sizeof(double*));
+  std::unique_ptr<double*[]> H_ptr = std::make_unique<double*[]>(H_L); // Freed on all returns.
+  double **H = H_ptr.get();
   for (dream_idx_type k=0; k<H_L; k++) {
     H[k] = (double*) &(tmp0.data()[H_M*H_N*k]);
   }
@@ -543,10 +544,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if (H) {
-    free(H);
-  }
-
   if (nrhs == 2 ||  (nrhs == 3 && load_wisdom)) {
     oct_retval.append(Ymat);
   }
diff --git a/include/fft.h b/include/fft.h
index 6d99259..4eaf2a2 100644
--- a/include/fft.h
+++ b/include/fft.h
@@ -25,8 +25,11 @@
 
 #include <complex> // Must be included before fftw3.h
 #include <mutex>
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
+#include <memory>
+#include <type_traits>
 
 #include "dream.h"
 
@@ -117,6 +120,15 @@ class FFT
     FFTVec x(fft_len);
     FFTCVec xc(fft_len);
 
+    // FFTW's destroy function is not thread safe either.
+    auto destroy_plan = [fft_mutex](fftw_plan p) {
+      std::unique_lock<std::mutex> lock;
+      if (fft_mutex) {
+        lock = std::unique_lock<std::mutex>(*fft_mutex);
+      }
+      fftw_destroy_plan(p);
+    };
+
     unsigned int pm = FFTW_ESTIMATE;
 
     switch (plan_method) {
@@ -143,24 +155,24 @@ class FFT
 
       const std::lock_guard<std::mutex> lock(m_fft_mutex[0]);
 
-      m_p_forward = fftw_plan_dft_r2c_1d( (int) fft_len, x.get(), reinterpret_cast<fftw_complex*>(xc.get()), pm);
-      m_p_backward = fftw_plan_dft_c2r_1d( (int) fft_len, reinterpret_cast<fftw_complex*>(xc.get()), x.get(), pm);
+      m_p_forward.reset(fftw_plan_dft_r2c_1d( (int) fft_len, x.get(), reinterpret_cast<fftw_complex*>(xc.get()), pm), destroy_plan);
+      m_p_backward.reset(fftw_plan_dft_c2r_1d( (int) fft_len, reinterpret_cast<fftw_complex*>(xc.get()), x.get(), pm), destroy_plan);
 
     } else { // Don't use a mutex
 
-      m_p_forward = fftw_plan_dft_r2c_1d( (int) fft_len, x.get(), reinterpret_cast<fftw_complex*>(xc.get()), pm);
-      m_p_backward = fftw_plan_dft_c2r_1d( (int)fft_len, reinterpret_cast<fftw_complex*>(xc.get()), x.get(), pm);
+      m_p_forward.reset(fftw_plan_dft_r2c_1d( (int) fft_len, x.get(), reinterpret_cast<fftw_complex*>(xc.get()), pm), destroy_plan);
+      m_p_backward.reset(fftw_plan_dft_c2r_1d( (int)fft_len, reinterpret_cast<fftw_complex*>(xc.get()), x.get(), pm), destroy_plan);
     }
   };
 
   ~FFT() = default;
 
   void fft(FFTVec &x, FFTCVec &yc) {
-    fftw_execute_dft_r2c(m_p_forward, x.get(), reinterpret_cast<fftw_complex*>(yc.get()));
+    fftw_execute_dft_r2c(m_p_forward.get(), x.get(), reinterpret_cast<fftw_complex*>(yc.get()));
   }
 
   void ifft(FFTCVec &xc, FFTVec &y) {
-    fftw_execute_dft_c2r(m_p_backward, reinterpret_cast<fftw_complex*>(xc.get()), y.get());
+    fftw_execute_dft_c2r(m_p_backward.get(), reinterpret_cast<fftw_complex*>(xc.get()), y.get());
 
     // FFTW's FFT's are not normalized so normalize it:
     for (dream_idx_type k=0; k<m_fft_len; k++) {
@@ -178,6 +190,7 @@ class FFT
   std::string get_wisdom() {
     char *str = fftw_export_wisdom_to_string();
     std::string w_str(str);
+    free(str);
     return w_str;
   }
 
@@ -185,8 +198,9 @@ class FFT
 
   dream_idx_type m_fft_len;
   std::mutex *m_fft_mutex;
-  fftw_plan m_p_forward;
-  fftw_plan m_p_backward;
+  // The worker threads have copies of the FFT object, the last one destroys the plans.
+  std::shared_ptr<std::remove_pointer<fftw_plan>::type> m_p_forward;
+  std::shared_ptr<std::remove_pointer<fftw_plan>::type> m_p_backward;
 };
 
 #endif
-- 
2.43.0


From 3f90da23da54233f26f47e61dfb720a2df9d8f26 Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 02:29:32 +0000
Subject: [PATCH 55/80] fix: worker threads write to Octave's output stream

When a call is cancelled every worker thread of the convolution, copy and
circular response functions printed through octave_stdout, which is an object
of the interpreter and not thread safe. Use std::cout as the transducer
functions do.
---
 extra_src/oct_add_p.cc       | 2 +-
 extra_src/oct_circ_sir.cc    | 4 ++--
 extra_src/oct_conv_p.cc      | 3 ++-
 extra_src/oct_copy_p.cc      | 2 +-
 extra_src/oct_fftconv_ola.cc | 5 +++--
 extra_src/oct_fftconv_p.cc   | 5 +++--
 extra_src/oct_scirc_sir.cc   | 6 ++++--
 extra_src/oct_sum_fftconv.cc | 3 ++-
 8 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index de4d6c2..1bc0e65 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -96,7 +96,7 @@ void* smp_dream_add_p(void *arg)
     }
 
     if (running==false) {
-      octave_stdout << "add_p: thread for column " << col_start+1 << " -> " << col_stop << " bailing out!\n";
+      std::cout << "add_p: thread for column " << col_start+1 << " -> " << col_stop << " bailing out!\n";
       break;
     }
 
diff --git a/extra_src/oct_circ_sir.cc b/extra_src/oct_circ_sir.cc
index 94ac27a..5d45a6c 100644
--- a/extra_src/oct_circ_sir.cc
+++ b/extra_src/oct_circ_sir.cc
@@ -102,7 +102,7 @@ void* smp_dream_circ_sir(void *arg)
       circ_sir(xo,yo,zo,r,dt,nt,delay[0],v,cp,&h[n*nt]); // TODO: Add attenuation.
 
       if (!running) {
-        octave_stdout << "Thread for observation points " << start+1 << " -> " << stop << " bailing out!\n";
+        std::cout << "Thread for observation points " << start+1 << " -> " << stop << " bailing out!\n";
         return(NULL);
       }
 
@@ -116,7 +116,7 @@ void* smp_dream_circ_sir(void *arg)
       circ_sir(xo,yo,zo,r,dt,nt,delay[n],v,cp,&h[n*nt]); // TODO: Add attenuation.
 
       if (!running) {
-        octave_stdout << "Thread for observation points " << start+1 << " -> " << stop << " bailing out!\n";
+        std::cout << "Thread for observation points " << start+1 << " -> " << stop << " bailing out!\n";
         return(NULL);
       }
 
diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 9e6b5b0..c7e1767 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <csignal>
+#include <iostream>
 #include <thread>
 
 #include <octave/oct.h>
@@ -95,7 +96,7 @@ void* smp_dream_conv(void *arg)
       conv( &A[0+n*A_M], A_M, B, B_M, &Y[0+n*(A_M+B_M-1)], conv_mode);
 
     if (running == false) {
-      octave_stdout << "conv_p: thread for column " << col_start+1 << " -> " << col_stop << "bailing out!\n";
+      std::cout << "conv_p: thread for column " << col_start+1 << " -> " << col_stop << "bailing out!\n";
       break;
       //return(NULL);
     }
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index 339f1fa..902e9b9 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -94,7 +94,7 @@ void* smp_dream_copy_p(void *arg)
     memcpy( &A[r+(k+n)*A_M], &B[0+n*B_M], len*sizeof(double));
 
     if (running==false) {
-      octave_stdout << "copy_p: thread for column " << line_start+1 << " -> " << line_stop << " bailing out!\n";
+      std::cout << "copy_p: thread for column " << line_start+1 << " -> " << line_stop << " bailing out!\n";
       break;
     }
 
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index bdd82bd..fe7297f 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -23,6 +23,7 @@
 
 #include <algorithm>
 #include <csignal>
+#include <iostream>
 #include <thread>
 #include <complex>
 
@@ -192,7 +193,7 @@ void* smp_dream_fftconv_ola(void *arg)
       }
 
       if (running==false) {
-        octave_stdout << "fftconv_ola: thread for column " << col_start+1 << " -> " <<
+        std::cout << "fftconv_ola: thread for column " << col_start+1 << " -> " <<
           col_stop << " bailing out at column = " << n <<"!\n";
         break;
       }
@@ -255,7 +256,7 @@ void* smp_dream_fftconv_ola(void *arg)
       } // while
 
       if (running==false) {
-        octave_stdout << "fftconv_ola: thread for column " << col_start+1 << " -> " <<
+        std::cout << "fftconv_ola: thread for column " << col_start+1 << " -> " <<
           col_stop << " bailing out at column = " << n <<"!\n";
         break;
       }
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index 230bda2..7bc69cc 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <csignal>
+#include <iostream>
 #include <thread>
 #include <complex>
 
@@ -126,7 +127,7 @@ void* smp_dream_fftconv(void *arg)
       Yp += fft_len;
 
       if (running==false) {
-        octave_stdout << "fftconv_p: thread for column " << col_start+1 << " -> " << col_stop << " bailing out!\n";
+        std::cout << "fftconv_p: thread for column " << col_start+1 << " -> " << col_stop << " bailing out!\n";
         break;
       }
 
@@ -144,7 +145,7 @@ void* smp_dream_fftconv(void *arg)
       Yp += fft_len;
 
       if (running==false) {
-        octave_stdout << "fftconv_p: thread for column " << col_start+1 << " -> " << col_stop << " bailing out!\n";
+        std::cout << "fftconv_p: thread for column " << col_start+1 << " -> " << col_stop << " bailing out!\n";
         break;
       }
 
diff --git a/extra_src/oct_scirc_sir.cc b/extra_src/oct_scirc_sir.cc
index 1b5f884..f5a9822 100644
--- a/extra_src/oct_scirc_sir.cc
+++ b/extra_src/oct_scirc_sir.cc
@@ -21,6 +21,8 @@
 *
 ***/
 
+#include <csignal>
+#include <iostream>
 #include <thread>
 #include <mutex>
 
@@ -100,7 +102,7 @@ void* smp_dream_scirc_sir(void *arg)
       scirc_sir(xo,yo,zo,r,dt,nt,delay[0],v,cp,int_len,&h[n*nt]); // TODO: Add attenuation.
 
       if (!running) {
-        octave_stdout << "Thread for observation points " << start+1 << " -> " << stop << " bailing out!\n";
+        std::cout << "Thread for observation points " << start+1 << " -> " << stop << " bailing out!\n";
         return(NULL);
       }
 
@@ -114,7 +116,7 @@ void* smp_dream_scirc_sir(void *arg)
       scirc_sir(xo,yo,zo,r,dt,nt,delay[n],v,cp,int_len,&h[n*nt]); // TODO: Add attenuation.
 
       if (!running) {
-        octave_stdout << "Thread for observation points " << start+1 << " -> " << stop << " bailing out!\n";
+        std::cout << "Thread for observation points " << start+1 << " -> " << stop << " bailing out!\n";
         return(NULL);
       }
 
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index ee268e9..c3cc9fe 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <csignal>
+#include <iostream>
 #include <thread>
 #include <complex>
 
@@ -121,7 +122,7 @@ void* smp_dream_sum_fftconv(void *arg)
                 conv_mode);
 
     if (running==false) {
-      octave_stdout << "sum_fftconv: thread for column " << col_start+1 << " -> " << col_stop << " bailing out!\n";
+      std::cout << "sum_fftconv: thread for column " << col_start+1 << " -> " << col_stop << " bailing out!\n";
       break;
     }
   }
-- 
2.43.0


From bdddbe021ebb8d5126d9e191d6a601080b5d28ea Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 02:29:32 +0000
Subject: [PATCH 56/80] fix: cancel flag of circ_sir and scirc_sir is not
 atomic

The signal handler may run in any thread while the workers poll the flag,
which was a plain int.
---
 extra_src/oct_circ_sir.cc  | 3 ++-
 extra_src/oct_scirc_sir.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/extra_src/oct_circ_sir.cc b/extra_src/oct_circ_sir.cc
index 5d45a6c..6722619 100644
--- a/extra_src/oct_circ_sir.cc
+++ b/extra_src/oct_circ_sir.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <iostream>
+#include <atomic>
 #include <csignal>
 #include <thread>
 #include <mutex>
@@ -43,7 +44,7 @@
 
 //volatile ErrorLevel out_err=ErrorLevel::none;
 //std::mutex err_lock;
-int running;
+std::atomic<int> running;
 
 //
 // typedef:s
diff --git a/extra_src/oct_scirc_sir.cc b/extra_src/oct_scirc_sir.cc
index f5a9822..8b797a6 100644
--- a/extra_src/oct_scirc_sir.cc
+++ b/extra_src/oct_scirc_sir.cc
@@ -21,6 +21,7 @@
 *
 ***/
 
+#include <atomic>
 #include <csignal>
 #include <iostream>
 #include <thread>
@@ -42,7 +43,7 @@
 
 //volatile ErrorLevel out_err=ErrorLevel::none;
 //std::mutex err_lock;
-int running;
+std::atomic<int> running;
 
 //
 // typedef:s
-- 
2.43.0


From 2df1f1c27060239fb21fdbf231f956dc8d3acccf Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 02:33:31 +0000
Subject: [PATCH 57/80] fix: cancelled conv_p and sum_fftconv calls return
 without an error

Only a message was printed, so a script went on with the incomplete in-place
result. Raise an error as all other functions do.
---
 extra_src/oct_conv_p.cc      | 2 +-
 extra_src/oct_sum_fftconv.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index c7e1767..ffef9e7 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -385,7 +385,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   delete[] threads;
 
   if (!running) {
-    dream_err_msg("CTRL-C pressed!\n"); // Bail out.
+    error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
   }
 
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index c3cc9fe..1251d30 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -541,7 +541,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   delete[] threads;
 
   if (!running) {
-    dream_err_msg("CTRL-C pressed!\n"); // Bail out.
+    error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
   }
 
-- 
2.43.0


From 0be669c5ba0f72020f790c6e54b432924f68d893 Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 03:08:25 +0000
Subject: [PATCH 58/80] fix: MATLAB front ends leave their signal handlers
 installed

---
 extra_src/mex_circ_sir.cc    | 36 +++++-------------------------------
 extra_src/mex_conv_p.cc      | 36 +++++-------------------------------
 extra_src/mex_copy_p.cc      | 36 +++++-------------------------------
 extra_src/mex_das.cc         | 10 ++++------
 extra_src/mex_fftconv_ola.cc | 36 +++++-------------------------------
 extra_src/mex_fftconv_p.cc   | 36 +++++-------------------------------
 extra_src/mex_rect_sir.cc    |  5 +++--
 extra_src/mex_scirc_sir.cc   | 36 +++++-------------------------------
 extra_src/mex_sum_fftconv.cc | 36 +++++-------------------------------
 mex/mex_dream_arr_circ.cc    |  5 +++--
 mex/mex_dream_arr_cylind.cc  |  5 +++--
 mex/mex_dream_arr_rect.cc    |  5 +++--
 mex/mex_dreamcirc.cc         |  5 +++--
 mex/mex_dreamcirc_f.cc       |  5 +++--
 mex/mex_dreamcylind.cc       |  5 +++--
 mex/mex_dreamline.cc         |  5 +++--
 mex/mex_dreamrect.cc         |  5 +++--
 mex/mex_dreamrect_f.cc       |  5 +++--
 mex/mex_dreamsphere.cc       |  5 +++--
 19 files changed, 72 insertions(+), 245 deletions(-)

diff --git a/extra_src/mex_circ_sir.cc b/extra_src/mex_circ_sir.cc
index 9bd827c..b830560 100644
--- a/extra_src/mex_circ_sir.cc
+++ b/extra_src/mex_circ_sir.cc
@@ -31,6 +31,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 //
 // Globals
@@ -62,8 +63,6 @@ typedef struct
   //ErrorLevel err_level;
 } DATA;
 
-typedef void (*sighandler_t)(int);
-
 /***
  *
  * Thread function.
@@ -169,7 +168,6 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   size_t start, stop;
   std::thread *threads;
   dream_idx_type thread_n, nthreads;
-  sighandler_t  old_handler, old_handler_abrt, old_handler_keyint;
 
   ArgParser ap;
 
@@ -254,20 +252,12 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   hsir.clear();
 
   //
-  // Register signal handlers.
+  // Register signal handlers (restored on return).
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard guard_term(SIGTERM, &sighandler);
+  SignalGuard guard_abrt(SIGABRT, &sighandler);
+  SignalGuard guard_int(SIGINT, &sighandler);
 
   //
   // Call the analytic SIR subroutine.
@@ -321,22 +311,6 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   // Free memory.
   free((void*) D);
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
   }
diff --git a/extra_src/mex_conv_p.cc b/extra_src/mex_conv_p.cc
index 756ce4b..c243e9b 100644
--- a/extra_src/mex_conv_p.cc
+++ b/extra_src/mex_conv_p.cc
@@ -29,6 +29,7 @@
 #include "dream.h"
 #include "affinity.h"
 #include "conv.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -60,8 +61,6 @@ typedef struct
   ConvMode conv_mode;
 } DATA;
 
-typedef void (*sighandler_t)(int);
-
 //
 // Function prototypes.
 //
@@ -131,7 +130,6 @@ void sig_keyint_handler(int signum) {
 void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 {
   double *A = nullptr,*B = nullptr, *Y = nullptr;
-  sighandler_t   old_handler, old_handler_abrt, old_handler_keyint;
   size_t col_start, col_stop, A_M, A_N, B_M, B_N;
   bool is_set = false;
   DATA *D = nullptr;
@@ -269,20 +267,12 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   }
 
   //
-  // Register signal handlers.
+  // Register signal handlers (restored on return).
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard guard_term(SIGTERM, &sighandler);
+  SignalGuard guard_abrt(SIGABRT, &sighandler);
+  SignalGuard guard_int(SIGINT, &sighandler);
 
   //
   // Call the CONV subroutine.
@@ -339,22 +329,6 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     free((void*) D);
   }
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
   }
diff --git a/extra_src/mex_copy_p.cc b/extra_src/mex_copy_p.cc
index 11b260a..5d0c61e 100644
--- a/extra_src/mex_copy_p.cc
+++ b/extra_src/mex_copy_p.cc
@@ -33,6 +33,7 @@
 #include "dream_error.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -65,8 +66,6 @@ typedef struct
   size_t len;
 } DATA;
 
-typedef void (*sighandler_t)(int);
-
 //
 // Function prototypes.
 //
@@ -132,7 +131,6 @@ extern void _main();
 void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 {
   double         *A,*B;
-  sighandler_t   old_handler, old_handler_abrt, old_handler_keyint;
   size_t line_start, line_stop, A_M, A_N, B_M, B_N;
   size_t r_M, r_N, k_M, k_N;
   double         *r, *k;
@@ -218,20 +216,12 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   }
 
   //
-  // Register signal handlers.
+  // Register signal handlers (restored on return).
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard guard_term(SIGTERM, &sighandler);
+  SignalGuard guard_abrt(SIGABRT, &sighandler);
+  SignalGuard guard_int(SIGINT, &sighandler);
 
   //
   // Call the mem_copy subroutine.
@@ -281,22 +271,6 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     free((void*) D);
   }
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     // This may kill Matlab 7 release 14 (bug in Matlab).
     mexErrMsgTxt("CTRL-C pressed!\n"); // Bail out.
diff --git a/extra_src/mex_das.cc b/extra_src/mex_das.cc
index 014c312..960f6ee 100644
--- a/extra_src/mex_das.cc
+++ b/extra_src/mex_das.cc
@@ -27,6 +27,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 // Persistent smart pointer to DAS object.
 // This one is only cleared when we do a
@@ -322,9 +323,6 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
     das_d->set_running();
 
-    // Register signal handler.
-    std::signal(SIGABRT, DAS<float>::abort);
-
   } else {
 
     //
@@ -358,11 +356,11 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     }
 
     das_d->set_running();
-
-    // Register signal handler.
-    std::signal(SIGABRT, DAS<double>::abort);
   }
 
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGABRT, use_float ? DAS<float>::abort : DAS<double>::abort);
+
   SIRError err = SIRError::none;
 
 #ifdef USE_OPENCL
diff --git a/extra_src/mex_fftconv_ola.cc b/extra_src/mex_fftconv_ola.cc
index 7e0a712..30dbe1c 100644
--- a/extra_src/mex_fftconv_ola.cc
+++ b/extra_src/mex_fftconv_ola.cc
@@ -30,6 +30,7 @@
 #include "dream.h"
 #include "affinity.h"
 #include "fftconv.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -63,8 +64,6 @@ typedef struct
   ConvMode conv_mode;
 } DATA;
 
-typedef void (*sighandler_t)(int);
-
 //
 // Function prototypes.
 //
@@ -287,7 +286,6 @@ extern void _main();
 
 void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 {
-  sighandler_t old_handler, old_handler_abrt, old_handler_keyint;
   std::thread *threads;
   double *Y = nullptr;
   DATA *D = nullptr;
@@ -494,20 +492,12 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   }
 
   //
-  // Register signal handlers.
+  // Register signal handlers (restored on return).
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard guard_term(SIGTERM, &sighandler);
+  SignalGuard guard_abrt(SIGABRT, &sighandler);
+  SignalGuard guard_int(SIGINT, &sighandler);
 
   // ********************************************
   //
@@ -608,22 +598,6 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     free((void*) D);
   }
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
   }
diff --git a/extra_src/mex_fftconv_p.cc b/extra_src/mex_fftconv_p.cc
index e982699..c676b79 100644
--- a/extra_src/mex_fftconv_p.cc
+++ b/extra_src/mex_fftconv_p.cc
@@ -30,6 +30,7 @@
 #include "dream.h"
 #include "affinity.h"
 #include "fftconv.h"
+#include "signal_guard.h"
 
 #ifdef DEBUG
 #include <mutex>
@@ -67,8 +68,6 @@ typedef struct
   ConvMode conv_mode;
 } DATA;
 
-typedef void (*sighandler_t)(int);
-
 //
 // Function prototypes.
 //
@@ -194,7 +193,6 @@ extern void _main();
 void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 {
   double *A=nullptr,*B=nullptr, *Y=nullptr;
-  sighandler_t   old_handler, old_handler_abrt, old_handler_keyint;
   std::thread     *threads;
   dream_idx_type thread_n, nthreads;
   dream_idx_type col_start, col_stop, A_M, A_N, B_M, B_N;
@@ -381,20 +379,12 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   }
 
   //
-  // Register signal handlers.
+  // Register signal handlers (restored on return).
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard guard_term(SIGTERM, &sighandler);
+  SignalGuard guard_abrt(SIGABRT, &sighandler);
+  SignalGuard guard_int(SIGINT, &sighandler);
 
   //
   // Init the FFTW plans.
@@ -502,22 +492,6 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     free((void*) D);
   }
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
   }
diff --git a/extra_src/mex_rect_sir.cc b/extra_src/mex_rect_sir.cc
index 737c51e..dc6beab 100644
--- a/extra_src/mex_rect_sir.cc
+++ b/extra_src/mex_rect_sir.cc
@@ -27,6 +27,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -109,8 +110,8 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   RectSir rect_sir;
 
-  // Register signal handler.
-  std::signal(SIGABRT, RectSir::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGABRT, RectSir::abort);
 
   //
   // Call the analytic rect_sir subroutine.
diff --git a/extra_src/mex_scirc_sir.cc b/extra_src/mex_scirc_sir.cc
index d22b974..3a8e641 100644
--- a/extra_src/mex_scirc_sir.cc
+++ b/extra_src/mex_scirc_sir.cc
@@ -31,6 +31,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 //
 // Globals
@@ -63,8 +64,6 @@ typedef struct
   //ErrorLevel err_level;
 } DATA;
 
-typedef void (*sighandler_t)(int);
-
 /***
  *
  * Thread function.
@@ -170,7 +169,6 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   size_t start, stop;
   std::thread *threads;
   dream_idx_type thread_n, nthreads;
-  sighandler_t old_handler, old_handler_abrt, old_handler_keyint;
 
   ArgParser ap;
 
@@ -269,20 +267,12 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   hsir.clear();
 
   //
-  // Register signal handlers.
+  // Register signal handlers (restored on return).
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard guard_term(SIGTERM, &sighandler);
+  SignalGuard guard_abrt(SIGABRT, &sighandler);
+  SignalGuard guard_int(SIGINT, &sighandler);
 
   //
   // Call the sampled analytic SIR subroutine.
@@ -337,22 +327,6 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   // Free memory.
   free((void*) D);
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
   }
diff --git a/extra_src/mex_sum_fftconv.cc b/extra_src/mex_sum_fftconv.cc
index 8280b76..440506f 100644
--- a/extra_src/mex_sum_fftconv.cc
+++ b/extra_src/mex_sum_fftconv.cc
@@ -30,6 +30,7 @@
 #include "dream.h"
 #include "affinity.h"
 #include "fftconv.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -63,8 +64,6 @@ typedef struct
   ConvMode conv_mode;
 } DATA;
 
-typedef void (*sighandler_t)(int);
-
 //
 // Function prototypes.
 //
@@ -158,7 +157,6 @@ extern void _main();
 
 void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 {
-  sighandler_t old_handler, old_handler_abrt, old_handler_keyint;
   dream_idx_type col_start, col_stop, H_M, H_N, H_L, U_M, U_N;
   double *Y = nullptr;
   std::thread *threads;
@@ -319,20 +317,12 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   }
 
   //
-  // Register signal handlers.
+  // Register signal handlers (restored on return).
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard guard_term(SIGTERM, &sighandler);
+  SignalGuard guard_abrt(SIGABRT, &sighandler);
+  SignalGuard guard_int(SIGINT, &sighandler);
 
   //
   // Init the FFTW plans.
@@ -432,22 +422,6 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     free((void*) D);
   }
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
   }
diff --git a/mex/mex_dream_arr_circ.cc b/mex/mex_dream_arr_circ.cc
index f3f3a95..d9714cf 100644
--- a/mex/mex_dream_arr_circ.cc
+++ b/mex/mex_dream_arr_circ.cc
@@ -27,6 +27,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -164,8 +165,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ArrCirc arr_circ;
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrCirc::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, ArrCirc::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/mex/mex_dream_arr_cylind.cc b/mex/mex_dream_arr_cylind.cc
index 6d3b818..5ce1d96 100644
--- a/mex/mex_dream_arr_cylind.cc
+++ b/mex/mex_dream_arr_cylind.cc
@@ -27,6 +27,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -165,8 +166,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ArrCylind arr_cylind;
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrCylind::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, ArrCylind::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/mex/mex_dream_arr_rect.cc b/mex/mex_dream_arr_rect.cc
index 229a81a..6f4a8b9 100644
--- a/mex/mex_dream_arr_rect.cc
+++ b/mex/mex_dream_arr_rect.cc
@@ -27,6 +27,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -165,8 +166,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ArrRect arr_rect;
 
-  // Register signal handler.
-  std::signal(SIGINT, ArrRect::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, ArrRect::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/mex/mex_dreamcirc.cc b/mex/mex_dreamcirc.cc
index 8487182..ba7ca4d 100644
--- a/mex/mex_dreamcirc.cc
+++ b/mex/mex_dreamcirc.cc
@@ -27,6 +27,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -108,8 +109,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Circ circ;
 
-  // Register signal handler.
-  std::signal(SIGINT, Circ::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, Circ::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/mex/mex_dreamcirc_f.cc b/mex/mex_dreamcirc_f.cc
index ad92e8b..762ee9a 100644
--- a/mex/mex_dreamcirc_f.cc
+++ b/mex/mex_dreamcirc_f.cc
@@ -27,6 +27,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -121,8 +122,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Circ_f circ_f;
 
-  // Register signal handler.
-  std::signal(SIGINT, Circ_f::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, Circ_f::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/mex/mex_dreamcylind.cc b/mex/mex_dreamcylind.cc
index 9795813..4d810c6 100644
--- a/mex/mex_dreamcylind.cc
+++ b/mex/mex_dreamcylind.cc
@@ -27,6 +27,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -108,8 +109,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Cylind cylind;
 
-  // Register signal handler.
-  std::signal(SIGINT, Cylind::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, Cylind::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/mex/mex_dreamline.cc b/mex/mex_dreamline.cc
index 585fb1a..13fe29a 100644
--- a/mex/mex_dreamline.cc
+++ b/mex/mex_dreamline.cc
@@ -27,6 +27,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -108,8 +109,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Line line;
 
-  // Register signal handler.
-  std::signal(SIGINT, Line::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, Line::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/mex/mex_dreamrect.cc b/mex/mex_dreamrect.cc
index 6757227..54469e6 100644
--- a/mex/mex_dreamrect.cc
+++ b/mex/mex_dreamrect.cc
@@ -27,6 +27,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -108,8 +109,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Rect rect;
 
-  // Register signal handler.
-  std::signal(SIGINT, Rect::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, Rect::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/mex/mex_dreamrect_f.cc b/mex/mex_dreamrect_f.cc
index 91ab2f6..e9a13c2 100644
--- a/mex/mex_dreamrect_f.cc
+++ b/mex/mex_dreamrect_f.cc
@@ -27,6 +27,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -121,8 +122,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Rect_f rect_f;
 
-  // Register signal handler.
-  std::signal(SIGINT, Rect_f::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, Rect_f::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/mex/mex_dreamsphere.cc b/mex/mex_dreamsphere.cc
index 3bf1b8a..5792c31 100644
--- a/mex/mex_dreamsphere.cc
+++ b/mex/mex_dreamsphere.cc
@@ -27,6 +27,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -108,8 +109,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   Sphere sphere;
 
-  // Register signal handler.
-  std::signal(SIGINT, Sphere::abort);
+  // Register signal handler (restored on return).
+  SignalGuard signal_guard(SIGINT, Sphere::abort);
 
   //
   // Call the DREAM subroutine.
-- 
2.43.0


From 6a0a9d907e641f5aeca3ff2e71ae7ba390e8e650 Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 03:25:53 +0000
Subject: [PATCH 59/80] fix: Octave functions overwrite each other's cancel
 flags

All oct-files have a global variable named running, of different types, and Octave
loads them with global symbols so that the flags (4 bytes in the convolution functions
but 1 byte in the transducer functions) were the same variable.
---
 extra_src/oct_add_p.cc       | 6 +++---
 extra_src/oct_circ_sir.cc    | 4 ++--
 extra_src/oct_conv_p.cc      | 6 +++---
 extra_src/oct_copy_p.cc      | 6 +++---
 extra_src/oct_fftconv_ola.cc | 6 +++---
 extra_src/oct_fftconv_p.cc   | 6 +++---
 extra_src/oct_scirc_sir.cc   | 4 ++--
 extra_src/oct_sum_fftconv.cc | 6 +++---
 8 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index 1bc0e65..86aa470 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -46,7 +46,7 @@
 // Globals
 //
 
-volatile int running;
+static volatile int running; // Not shared with the other functions (oct-files are loaded with global symbols).
 
 //
 // typedef:s
@@ -72,7 +72,7 @@ typedef struct
 //
 
 void* smp_dream_add_p(void *arg);
-void sighandler(int signum);
+static void sighandler(int signum);
 void sig_abrt_handler(int signum);
 void sig_keyint_handler(int signum);
 
@@ -110,7 +110,7 @@ void* smp_dream_add_p(void *arg)
  *
  ***/
 
-void sighandler(int signum) {
+static void sighandler(int signum) {
   //printf("Caught signal SIGTERM.\n");
   running = false;
 }
diff --git a/extra_src/oct_circ_sir.cc b/extra_src/oct_circ_sir.cc
index 6722619..e3dcea1 100644
--- a/extra_src/oct_circ_sir.cc
+++ b/extra_src/oct_circ_sir.cc
@@ -44,7 +44,7 @@
 
 //volatile ErrorLevel out_err=ErrorLevel::none;
 //std::mutex err_lock;
-std::atomic<int> running;
+static std::atomic<int> running; // Not shared with the other functions (oct-files are loaded with global symbols).
 
 //
 // typedef:s
@@ -143,7 +143,7 @@ void* smp_dream_circ_sir(void *arg)
  *
  ***/
 
-void sighandler(int signum) {
+static void sighandler(int signum) {
   //printf("Caught signal SIGTERM.\n");
   running = false;
 }
diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index ffef9e7..d127a90 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -43,7 +43,7 @@
 // Globals
 //
 
-volatile int running;
+static volatile int running; // Not shared with the other functions (oct-files are loaded with global symbols).
 
 //
 // typedef:s
@@ -68,7 +68,7 @@ typedef struct
 //
 
 void* smp_dream_conv_p(void *arg);
-void sighandler(int signum);
+static void sighandler(int signum);
 void sig_abrt_handler(int signum);
 void sig_keyint_handler(int signum);
 
@@ -111,7 +111,7 @@ void* smp_dream_conv(void *arg)
  *
  ***/
 
-void sighandler(int signum) {
+static void sighandler(int signum) {
   //printf("Caught signal SIGTERM.\n");
   running = false;
 }
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index 902e9b9..43c7668 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -46,7 +46,7 @@
 // Globals
 //
 
-volatile int running;
+static volatile int running; // Not shared with the other functions (oct-files are loaded with global symbols).
 
 //
 // typedef:s
@@ -72,7 +72,7 @@ typedef struct
 //
 
 void* smp_dream_copy_p(void *arg);
-void sighandler(int signum);
+static void sighandler(int signum);
 void sig_abrt_handler(int signum);
 void sig_keyint_handler(int signum);
 
@@ -108,7 +108,7 @@ void* smp_dream_copy_p(void *arg)
  *
  ***/
 
-void sighandler(int signum) {
+static void sighandler(int signum) {
   //printf("Caught signal SIGTERM.\n");
   running = false;
 }
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index fe7297f..7df02f5 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -45,7 +45,7 @@
 // Globals
 //
 
-volatile int running;
+static volatile int running; // Not shared with the other functions (oct-files are loaded with global symbols).
 
 //
 // typedef:s
@@ -72,7 +72,7 @@ typedef struct
 //
 
 void* smp_dream_fftconv_ola(void *arg);
-void sighandler(int signum);
+static void sighandler(int signum);
 void sig_abrt_handler(int signum);
 void sig_keyint_handler(int signum);
 
@@ -273,7 +273,7 @@ void* smp_dream_fftconv_ola(void *arg)
  *
  ***/
 
-void sighandler(int signum) {
+static void sighandler(int signum) {
   //printf("Caught signal SIGTERM.\n");
   running = false;
 }
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index 7bc69cc..062f445 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -49,7 +49,7 @@ std::mutex print_mutex;         // Debug print mutex (C++11)
 // Globals
 //
 
-volatile int running;
+static volatile int running; // Not shared with the other functions (oct-files are loaded with global symbols).
 
 //
 // typedef:s
@@ -75,7 +75,7 @@ typedef struct
 //
 
 void* smp_dream_fftconv(void *arg);
-void sighandler(int signum);
+static void sighandler(int signum);
 void sig_abrt_handler(int signum);
 void sig_keyint_handler(int signum);
 
@@ -171,7 +171,7 @@ void* smp_dream_fftconv(void *arg)
  *
  ***/
 
-void sighandler(int signum) {
+static void sighandler(int signum) {
   //printf("Caught signal SIGTERM.\n");
   running = false;
 }
diff --git a/extra_src/oct_scirc_sir.cc b/extra_src/oct_scirc_sir.cc
index 8b797a6..c1e3a3c 100644
--- a/extra_src/oct_scirc_sir.cc
+++ b/extra_src/oct_scirc_sir.cc
@@ -43,7 +43,7 @@
 
 //volatile ErrorLevel out_err=ErrorLevel::none;
 //std::mutex err_lock;
-std::atomic<int> running;
+static std::atomic<int> running; // Not shared with the other functions (oct-files are loaded with global symbols).
 
 //
 // typedef:s
@@ -143,7 +143,7 @@ void* smp_dream_scirc_sir(void *arg)
  *
  ***/
 
-void sighandler(int signum) {
+static void sighandler(int signum) {
   //printf("Caught signal SIGTERM.\n");
   running = false;
 }
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 1251d30..e015876 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -44,7 +44,7 @@
 // Globals
 //
 
-volatile int running;
+static volatile int running; // Not shared with the other functions (oct-files are loaded with global symbols).
 
 //
 // typedef:s
@@ -71,7 +71,7 @@ typedef struct
 //
 
 void* smp_dream_sum_fftconv(void *arg);
-void sighandler(int signum);
+static void sighandler(int signum);
 void sig_abrt_handler(int signum);
 void sig_keyint_handler(int signum);
 
@@ -136,7 +136,7 @@ void* smp_dream_sum_fftconv(void *arg)
  *
  ***/
 
-void sighandler(int signum) {
+static void sighandler(int signum) {
   //printf("Caught signal SIGTERM.\n");
   running = false;
 }
-- 
2.43.0


From 1e4149b674f84d1c7cfc0de2bd0f2d9c53bd239d Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 03:33:49 +0000
Subject: [PATCH 60/80] fix: MATLAB front ends read arguments of other classes
 as double precision data

The data of cell arrays, structs, integers, strings and so on was used as if it were
double precision numbers.
---
 include/mex_args.h          | 51 +++++++++++++++++++++++++++++++++++++
 mex/mex_dream_arr_annu.cc   |  2 ++
 mex/mex_dream_arr_circ.cc   |  2 ++
 mex/mex_dream_arr_cylind.cc |  2 ++
 mex/mex_dream_arr_rect.cc   |  2 ++
 mex/mex_dream_att.cc        |  2 ++
 mex/mex_dreamcirc_f.cc      |  2 ++
 mex/mex_dreamcylind.cc      |  2 ++
 mex/mex_dreamline.cc        |  2 ++
 mex/mex_dreamrect_f.cc      |  2 ++
 mex/mex_dreamsphere.cc      |  2 ++
 11 files changed, 71 insertions(+)
 create mode 100644 include/mex_args.h

diff --git a/include/mex_args.h b/include/mex_args.h
new file mode 100644
index 0000000..9837885
--- /dev/null
+++ b/include/mex_args.h
@@ -0,0 +1,51 @@
+/***
+*
+* Copyright (C) 2026 Fredrik Lingvall
+*
+* This file is part of the DREAM Toolbox.
+*
+* The DREAM Toolbox is free software; you can redistribute it and/or modify
+* it under the terms of the GNU General Public License as published by the
+* Free Software Foundation; either version 2, or (at your option) any
+* later version.
+*
+* The DREAM Toolbox is distributed in the hope that it will be useful, but
+* WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY or
+* FITNESS FOR A PARTICULAR PURPOSE. See the GNU General Public License
+* for more details.
+*
+* You should have received a copy of the GNU General Public License
+* along with the DREAM Toolbox; see the file COPYING.  If not, write to the
+* Free Software Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA
+* 02110-1301, USA.
+*
+***/
+#pragma once
+
+#include "mex.h"
+#include "dream_error.h"
+
+#include <algorithm>
+#include <initializer_list>
+#include <string>
+
+// The gateway functions access the data of the arguments directly so all arguments must be
+// full real matrices in double precision (or single precision when the gateway function
+// supports it), except for those (counted from 0) which can be strings.
+static inline void mex_check_args(const char *func_name, int nrhs, const mxArray *prhs[],
+                                  std::initializer_list<int> string_args,
+                                  bool single_ok=false, mwSize max_dims=2)
+{
+  for (int n=0; n<nrhs; n++) {
+    const mxArray *arg = prhs[n];
+    if (mxIsChar(arg) && std::find(string_args.begin(), string_args.end(), n) != string_args.end()) {
+      continue;
+    }
+
+    bool is_real = (mxIsDouble(arg) || (single_ok && mxIsSingle(arg))) && !mxIsComplex(arg) && !mxIsSparse(arg);
+    if (!is_real || mxGetNumberOfDimensions(arg) > max_dims) {
+      std::string msg = std::string(func_name) + ": argument " + std::to_string(n+1) + " must be a full real double precision matrix!";
+      dream_err_msg(msg.c_str());
+    }
+  }
+}
diff --git a/mex/mex_dream_arr_annu.cc b/mex/mex_dream_arr_annu.cc
index 2e14e04..b3c27fe 100644
--- a/mex/mex_dream_arr_annu.cc
+++ b/mex/mex_dream_arr_annu.cc
@@ -26,6 +26,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "mex_args.h"
 
 /***
  *
@@ -43,6 +44,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_arg_in("dream_arr_annu", nrhs, 10, 11);
   ap.check_arg_out("dream_arr_annu", nlhs, 0, 2);
+  mex_check_args("dream_arr_annu", nrhs, prhs, {5, 7, 10});
 
   //
   // Observation point.
diff --git a/mex/mex_dream_arr_circ.cc b/mex/mex_dream_arr_circ.cc
index d9714cf..2963c8c 100644
--- a/mex/mex_dream_arr_circ.cc
+++ b/mex/mex_dream_arr_circ.cc
@@ -28,6 +28,7 @@
 
 #include "mex.h"
 #include "signal_guard.h"
+#include "mex_args.h"
 
 /***
  *
@@ -45,6 +46,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_arg_in("dream_arr_circ", nrhs, 13, 14);
   ap.check_arg_out("dream_arr_circ", nlhs, 0, 2);
+  mex_check_args("dream_arr_circ", nrhs, prhs, {6, 8, 10, 13});
 
   //
   // Observation point.
diff --git a/mex/mex_dream_arr_cylind.cc b/mex/mex_dream_arr_cylind.cc
index 5ce1d96..ff628d6 100644
--- a/mex/mex_dream_arr_cylind.cc
+++ b/mex/mex_dream_arr_cylind.cc
@@ -28,6 +28,7 @@
 
 #include "mex.h"
 #include "signal_guard.h"
+#include "mex_args.h"
 
 /***
  *
@@ -45,6 +46,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_arg_in("dream_arr_cylind", nrhs, 13, 14);
   ap.check_arg_out("dream_arr_cylind", nlhs, 0, 2);
+  mex_check_args("dream_arr_cylind", nrhs, prhs, {6, 8, 10, 13});
 
   //
   // Observation point.
diff --git a/mex/mex_dream_arr_rect.cc b/mex/mex_dream_arr_rect.cc
index 6f4a8b9..dbbd65f 100644
--- a/mex/mex_dream_arr_rect.cc
+++ b/mex/mex_dream_arr_rect.cc
@@ -28,6 +28,7 @@
 
 #include "mex.h"
 #include "signal_guard.h"
+#include "mex_args.h"
 
 /***
  *
@@ -45,6 +46,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_arg_in("dream_arr_rect", nrhs, 13, 14);
   ap.check_arg_out("dream_arr_rect", nlhs, 0, 2);
+  mex_check_args("dream_arr_rect", nrhs, prhs, {6, 8, 10, 13});
 
   //
   // Observation point.
diff --git a/mex/mex_dream_att.cc b/mex/mex_dream_att.cc
index 88872f5..0105370 100644
--- a/mex/mex_dream_att.cc
+++ b/mex/mex_dream_att.cc
@@ -27,6 +27,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "mex_args.h"
 
 /***
  *
@@ -42,6 +43,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_arg_in("dream_att", nrhs, 4, 4);
   ap.check_arg_out("dream_att", nlhs, 0, 1);
+  mex_check_args("dream_att", nrhs, prhs, {});
 
   //
   // Observation point.
diff --git a/mex/mex_dreamcirc_f.cc b/mex/mex_dreamcirc_f.cc
index 762ee9a..57d57bd 100644
--- a/mex/mex_dreamcirc_f.cc
+++ b/mex/mex_dreamcirc_f.cc
@@ -28,6 +28,7 @@
 
 #include "mex.h"
 #include "signal_guard.h"
+#include "mex_args.h"
 
 /***
  *
@@ -45,6 +46,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_arg_in("dreamcirc_f", nrhs, 7, 8);
   ap.check_arg_out("dreamcirc_f", nlhs, 0, 2);
+  mex_check_args("dreamcirc_f", nrhs, prhs, {5, 7});
 
   //
   // Observation point.
diff --git a/mex/mex_dreamcylind.cc b/mex/mex_dreamcylind.cc
index 4d810c6..dd8b3c8 100644
--- a/mex/mex_dreamcylind.cc
+++ b/mex/mex_dreamcylind.cc
@@ -28,6 +28,7 @@
 
 #include "mex.h"
 #include "signal_guard.h"
+#include "mex_args.h"
 
 /***
  *
@@ -45,6 +46,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_arg_in("dreamcylind", nrhs, 5, 6);
   ap.check_arg_out("dreamcylind", nlhs, 0, 2);
+  mex_check_args("dreamcylind", nrhs, prhs, {5});
 
   //
   // Observation point.
diff --git a/mex/mex_dreamline.cc b/mex/mex_dreamline.cc
index 13fe29a..f88110d 100644
--- a/mex/mex_dreamline.cc
+++ b/mex/mex_dreamline.cc
@@ -28,6 +28,7 @@
 
 #include "mex.h"
 #include "signal_guard.h"
+#include "mex_args.h"
 
 /***
  *
@@ -45,6 +46,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_arg_in("dreamline", nrhs, 5, 6);
   ap.check_arg_out("dreamline", nlhs, 0, 2);
+  mex_check_args("dreamline", nrhs, prhs, {5});
 
   //
   // Observation point.
diff --git a/mex/mex_dreamrect_f.cc b/mex/mex_dreamrect_f.cc
index e9a13c2..ad425ea 100644
--- a/mex/mex_dreamrect_f.cc
+++ b/mex/mex_dreamrect_f.cc
@@ -28,6 +28,7 @@
 
 #include "mex.h"
 #include "signal_guard.h"
+#include "mex_args.h"
 
 /***
  *
@@ -45,6 +46,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_arg_in("dreamrect_f", nrhs, 7, 8);
   ap.check_arg_out("dreamrect_f", nlhs, 0, 2);
+  mex_check_args("dreamrect_f", nrhs, prhs, {5, 7});
 
   //
   // Observation point.
diff --git a/mex/mex_dreamsphere.cc b/mex/mex_dreamsphere.cc
index 5792c31..3a87908 100644
--- a/mex/mex_dreamsphere.cc
+++ b/mex/mex_dreamsphere.cc
@@ -28,6 +28,7 @@
 
 #include "mex.h"
 #include "signal_guard.h"
+#include "mex_args.h"
 
 /***
  *
@@ -45,6 +46,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_arg_in("dreamsphere", nrhs, 5, 6);
   ap.check_arg_out("dreamsphere", nlhs, 0, 2);
+  mex_check_args("dreamsphere", nrhs, prhs, {5});
 
   //
   // Observation point.
-- 
2.43.0


From c0e2770758edf83e58b07d490fd1074136c9c051 Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 03:33:49 +0000
Subject: [PATCH 61/80] fix: MATLAB dreamrect, dreamcirc and rect_sir ignore
 the device, and the error level when a device is given

---
 extra_src/mex_rect_sir.cc | 23 +++++++++++++++++++++++
 mex/mex_dreamcirc.cc      | 23 ++++++++++++++++++++++-
 mex/mex_dreamrect.cc      | 23 ++++++++++++++++++++++-
 3 files changed, 67 insertions(+), 2 deletions(-)

diff --git a/extra_src/mex_rect_sir.cc b/extra_src/mex_rect_sir.cc
index dc6beab..5652f57 100644
--- a/extra_src/mex_rect_sir.cc
+++ b/extra_src/mex_rect_sir.cc
@@ -22,12 +22,15 @@
 ***/
 
 #include <csignal>
+#include <iostream>
+#include <string>
 
 #include "rect_sir.h"
 #include "arg_parser.h"
 
 #include "mex.h"
 #include "signal_guard.h"
+#include "mex_args.h"
 
 /***
  *
@@ -42,6 +45,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   // Check for proper number of arguments
   ap.check_arg_in("rect_sir", nrhs, 5, 6); // NB. 6:th arg is for 'gpu' (OpenCL) which is not implemented here yet.
   ap.check_arg_out("rect_sir", nlhs, 0, 1);
+  mex_check_args("rect_sir", nrhs, prhs, {5});
 
   //
   // Observation point.
@@ -98,6 +102,25 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   double v = m_par[0];       // Normal velocity of transducer surface.
   double cp = m_par[1];      // Sound speed.
 
+  // Compute device (the MATLAB version is built without OpenCL support).
+  if (nrhs == 6) {
+
+    if (!mxIsChar(prhs[5])) {
+      dream_err_msg("Argument 6 must be a string");
+    }
+
+    std::string device = ap.get_string_arg(prhs, 5);
+
+    if (device != "cpu" && device != "gpu") {
+      dream_err_msg("Argument 6 (device) must be 'cpu' or 'gpu'!");
+    }
+
+    if (device == "gpu") {
+      std::cout << "Warning: Compute device set to 'gpu' but DREAM is build without OpenCL support!" << std::endl;
+      std::cout << "Using the CPU backend!" << std::endl;
+    }
+  }
+
   //
   // Create an output matrix for the impulse response(s).
   //
diff --git a/mex/mex_dreamcirc.cc b/mex/mex_dreamcirc.cc
index ba7ca4d..0336297 100644
--- a/mex/mex_dreamcirc.cc
+++ b/mex/mex_dreamcirc.cc
@@ -28,6 +28,7 @@
 
 #include "mex.h"
 #include "signal_guard.h"
+#include "mex_args.h"
 
 /***
  *
@@ -45,6 +46,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_arg_in("dreamcirc", nrhs, 5, 7); // NB. 7:th arg is for 'gpu' (OpenCL) which is not implemented here yet.
   ap.check_arg_out("dreamcirc", nlhs, 0, 2);
+  mex_check_args("dreamcirc", nrhs, prhs, {5, 6});
 
   //
   // Observation point.
@@ -94,12 +96,31 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ErrorLevel err_level=ErrorLevel::stop;
 
-  if (nrhs == 6) {
+  if (nrhs >= 6) {
     ap.parse_error_arg("dreamcirc", prhs, 5, err_level);
   } else {
     err_level = ErrorLevel::stop; // Default.
   }
 
+  // Compute device (the MATLAB version is built without OpenCL support).
+  if (nrhs == 7) {
+
+    if (!mxIsChar(prhs[6])) {
+      dream_err_msg("Argument 7 must be a string");
+    }
+
+    std::string device = ap.get_string_arg(prhs, 6);
+
+    if (device != "cpu" && device != "gpu") {
+      dream_err_msg("Argument 7 (device) must be 'cpu' or 'gpu'!");
+    }
+
+    if (device == "gpu") {
+      std::cout << "Warning: Compute device set to 'gpu' but DREAM is build without OpenCL support!" << std::endl;
+      std::cout << "Using the CPU backend!" << std::endl;
+    }
+  }
+
   // Create an output matrix for the impulse response
   plhs[0] = mxCreateDoubleMatrix(nt,No,mxREAL);
   double *h = mxGetPr(plhs[0]);
diff --git a/mex/mex_dreamrect.cc b/mex/mex_dreamrect.cc
index 54469e6..3b048bd 100644
--- a/mex/mex_dreamrect.cc
+++ b/mex/mex_dreamrect.cc
@@ -28,6 +28,7 @@
 
 #include "mex.h"
 #include "signal_guard.h"
+#include "mex_args.h"
 
 /***
  *
@@ -45,6 +46,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_arg_in("dreamrect", nrhs, 5, 7); // NB. 7:th arg is for 'gpu' (OpenCL) which is not implemented here yet.
   ap.check_arg_out("dreamrect", nlhs, 0, 2);
+  mex_check_args("dreamrect", nrhs, prhs, {5, 6});
 
   //
   // Observation point.
@@ -94,12 +96,31 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ErrorLevel err_level=ErrorLevel::stop;
 
-  if (nrhs == 6) {
+  if (nrhs >= 6) {
     ap.parse_error_arg("dreamline", prhs, 5, err_level);
   } else {
     err_level = ErrorLevel::stop; // Default.
   }
 
+  // Compute device (the MATLAB version is built without OpenCL support).
+  if (nrhs == 7) {
+
+    if (!mxIsChar(prhs[6])) {
+      dream_err_msg("Argument 7 must be a string");
+    }
+
+    std::string device = ap.get_string_arg(prhs, 6);
+
+    if (device != "cpu" && device != "gpu") {
+      dream_err_msg("Argument 7 (device) must be 'cpu' or 'gpu'!");
+    }
+
+    if (device == "gpu") {
+      std::cout << "Warning: Compute device set to 'gpu' but DREAM is build without OpenCL support!" << std::endl;
+      std::cout << "Using the CPU backend!" << std::endl;
+    }
+  }
+
   // Create an output matrix for the impulse response
   plhs[0] = mxCreateDoubleMatrix(nt,No,mxREAL);
   double *h = mxGetPr(plhs[0]);
-- 
2.43.0


From be3e911c21ae28d5ac0a1e0b45e6efdc3fcf42a0 Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 03:33:49 +0000
Subject: [PATCH 62/80] fix: MATLAB dream_apodwin without apodization and with
 user defined weights

---
 mex/mex_dream_apodwin.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/mex/mex_dream_apodwin.cc b/mex/mex_dream_apodwin.cc
index d501d2b..d21cb97 100644
--- a/mex/mex_dream_apodwin.cc
+++ b/mex/mex_dream_apodwin.cc
@@ -25,6 +25,7 @@
 #include "arg_parser.h"
 
 #include "mex.h"
+#include "mex_args.h"
 
 /***
  *
@@ -43,8 +44,20 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_arg_in("dream_apodwin", nrhs, 3, 3);
   ap.check_arg_out("dream_apodwin", nlhs, 0, 1);
+  mex_check_args("dream_apodwin", nrhs, prhs, {0});
 
-  dream_idx_type num_elements = (dream_idx_type) mxGetScalar(prhs[1]);
+  dream_idx_type num_elements = (dream_idx_type) mxGetNumberOfElements(prhs[1]); // Number of 'ud' weights.
+
+  if (mxIsChar(prhs[0]) && ap.get_string_arg(prhs, 0) != "ud") {
+    if (mxGetNumberOfElements(prhs[1]) != 1) {
+      dream_err_msg("Argument 2 (the window length) must be a scalar!");
+    }
+    num_elements = (dream_idx_type) mxGetScalar(prhs[1]);
+  }
+
+  if (num_elements < 1) {
+    dream_err_msg("Argument 2 must be a vector of weights or a positive window length!");
+  }
 
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
@@ -66,5 +79,9 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
       apodization(apod_met, n, apod.get(), &weight, xs, ys, ramax, apod_par);
       h[n] = weight;
     }
+  } else {
+    for (dream_idx_type n=0; n<num_elements; n++) {
+      h[n] = 1.0; // No apodization.
+    }
   }
 }
-- 
2.43.0


From 4f9a182a035ab01d32190828e098e3747be65e90 Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 03:33:49 +0000
Subject: [PATCH 63/80] fix: MATLAB das reads outside the data matrix, and has
 no object when the precision changes

---
 extra_src/mex_das.cc | 81 +++++++++++++++++++++++++-------------------
 1 file changed, 46 insertions(+), 35 deletions(-)

diff --git a/extra_src/mex_das.cc b/extra_src/mex_das.cc
index 960f6ee..3e2ee92 100644
--- a/extra_src/mex_das.cc
+++ b/extra_src/mex_das.cc
@@ -28,6 +28,7 @@
 
 #include "mex.h"
 #include "signal_guard.h"
+#include "mex_args.h"
 
 // Persistent smart pointer to DAS object.
 // This one is only cleared when we do a
@@ -48,13 +49,15 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   // Check for proper number of arguments
 
   if ((nrhs < 8) || (nrhs > 11)) {
-    dream_err_msg("das requires 8 to 10 input arguments!");
+    dream_err_msg("das requires 8 to 11 input arguments!");
   }
 
   if (nlhs > 2) {
     dream_err_msg("Too many output arguments for das!");
   }
 
+  mex_check_args("das", nrhs, prhs, {7, 8, 9, 10}, true);
+
   //
   // Check if we are using single or double precision processsing
   //
@@ -124,7 +127,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   const double *Gr_d = nullptr;
 
 
-  if (mxGetN(prhs[2]) != 0) {   // SAFT is using an empty Gr.
+  if (mxGetM(prhs[2]) != 0) {   // SAFT is using an empty Gr.
 
     if (mxGetN(prhs[2]) != 3) {
       dream_err_msg("Argument 3 must be a (num recieve elements) x 3 matrix!");
@@ -167,16 +170,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     dream_err_msg("Argument 5 must be a scalar!");
   }
 
-  float dt_f = 0.0;
-  double dt_d = 0.0;
-
-  if (use_float) {
-    float *s_par_f = (float*) mxGetData(prhs[4]);
-    dt_f = s_par_f[0];
-  } else {
-    double *s_par_d = mxGetPr(prhs[4]);
-    dt_d = s_par_d[0];
-  }
+  double dt_d = mxGetScalar(prhs[4]);
+  float dt_f = (float) dt_d;
 
   //
   // Start point of impulse response vector ([us]).
@@ -207,16 +202,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     dream_err_msg("Argument 7 must be a scalar!");
   }
 
-  float cp_f = 0.0;
-  double cp_d = 0.0;
-
-  if (use_float) {
-    float *m_par_f = (float*) mxGetData(prhs[6]);
-    cp_f = m_par_f[0];
-  } else {
-    double *s_par_d = mxGetPr(prhs[6]);
-    cp_d = s_par_d[0];
-  }
+  double cp_d = mxGetScalar(prhs[6]);
+  float cp_f = (float) cp_d;
 
   //
   // DAS method
@@ -225,6 +212,15 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   DASType das_type;
   ap.parse_das_arg("das", prhs, 7, das_type);
 
+  // Check that there is one A-scan for each element (SAFT), or for each pair of elements.
+  dream_idx_type num_a_scans = num_t_elements;
+  if (das_type != DASType::saft && num_r_elements > 0) {
+    num_a_scans = num_t_elements*num_r_elements;
+  }
+  if ((dream_idx_type) mxGetN(prhs[0]) != num_a_scans) {
+    dream_err_msg("The number of A-scans (columns) in argument 1 does not match the number of elements!");
+  }
+
   //
   // Error reporting.
   //
@@ -243,13 +239,17 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   std::string device;
 
-  if (nrhs == 10) {
+  if (nrhs >= 10) {
 
     if (!mxIsChar(prhs[9])) {
       dream_err_msg("Argument 10 must be a string");
     }
 
     device =  ap.get_string_arg(prhs, 9);
+
+    if (device != "cpu" && device != "gpu") {
+      dream_err_msg("Argument 10 (device) must be 'cpu' or 'gpu'!");
+    }
   }
 
   //
@@ -284,6 +284,13 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   // We use this to make the GPU init code run
   bool use_gpu = false;
 #ifdef USE_OPENCL
+  if (device == "gpu" && delay_type == DelayType::multiple) {
+    // The GPU kernels do not handle one delay per observation point.
+    std::cout << "Warning: The GPU backend does not support calls with one delay per observation point!" << std::endl;
+    std::cout << "Using the CPU backend!" << std::endl;
+    device = "cpu";
+  }
+
   if (device == "gpu") {
     use_gpu = true;
   }
@@ -315,13 +322,12 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
         das_f = std::make_unique<DAS<float>>(das_type, a_scan_len, No, num_t_elements, num_r_elements, use_gpu, verbose);
       }
 
-      catch (std::runtime_error &err) {
-        std::cout << err.what();
-        return;
+      catch (const std::exception &std_err) {
+        dream_err_msg(std_err.what());
       }
     }
 
-    das_d->set_running();
+    das_f->set_running();
 
   } else {
 
@@ -346,12 +352,11 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
       }
 
       try {
-        das_d = std::make_unique<DAS<double>>(das_type, a_scan_len, No, num_t_elements, num_r_elements, use_gpu);
+        das_d = std::make_unique<DAS<double>>(das_type, a_scan_len, No, num_t_elements, num_r_elements, use_gpu, verbose);
       }
 
-      catch (std::runtime_error &err) {
-        std::cout << err.what();
-        return;
+      catch (const std::exception &std_err) {
+        dream_err_msg(std_err.what());
       }
     }
 
@@ -368,10 +373,16 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   // Check if we should use the GPU
   if (device == "gpu") {
 
-    if (use_float) { // Single precision
-      das_f->cl_das(Yf, Ro_f, Gt_f, Gr_f, dt_f, delay_f[0], cp_f, Im_f);
-    } else { // Double precision
-      das_d->cl_das(Yd, Ro_d, Gt_d, Gr_d, dt_d, delay_d[0], cp_d, Im_d);
+    try {
+      if (use_float) { // Single precision
+        das_f->cl_das(Yf, Ro_f, Gt_f, Gr_f, dt_f, delay_f[0], cp_f, Im_f);
+      } else { // Double precision
+        das_d->cl_das(Yd, Ro_d, Gt_d, Gr_d, dt_d, delay_d[0], cp_d, Im_d);
+      }
+    }
+
+    catch (const std::exception &std_err) {
+      dream_err_msg(std_err.what());
     }
 
   } else { // Otherwise use the cpu
-- 
2.43.0


From 0aa7fea7b9506ede70b57206c07901b1258f6468 Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 03:33:49 +0000
Subject: [PATCH 64/80] fix: MATLAB conv_p ignores a 4th argument that is not a
 string, and does not free its threads

---
 extra_src/mex_conv_p.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/extra_src/mex_conv_p.cc b/extra_src/mex_conv_p.cc
index c243e9b..d6c49fa 100644
--- a/extra_src/mex_conv_p.cc
+++ b/extra_src/mex_conv_p.cc
@@ -21,6 +21,7 @@
 *
 ***/
 
+#include <atomic>
 #include <csignal>
 #include <thread>
 
@@ -30,6 +31,7 @@
 #include "affinity.h"
 #include "conv.h"
 #include "signal_guard.h"
+#include "mex_args.h"
 
 /***
  *
@@ -41,7 +43,7 @@
 // Globals
 //
 
-volatile int running;
+std::atomic<int> running;
 
 //
 // typedef:s
@@ -156,12 +158,12 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     if (nlhs > 0) {
       dream_err_msg("No output arguments required for conv_p in in-place operating mode!");
     }
-    if (mxIsChar(prhs[2])) {
-      dream_err_msg("Arg 3 must be a matrix (not a string)");
-    }
     break;
 
   case 4:
+    if (nlhs > 0) {
+      dream_err_msg("No output arguments required for conv_p in in-place operating mode!");
+    }
     if (mxIsChar(prhs[3])) { // 4th arg is a mode string.
 
       char *str = mxArrayToString(prhs[3]);
@@ -193,6 +195,8 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
       if (is_set == false) {
         dream_err_msg("Non-valid string in arg 4!");
       }
+    } else { // 4th arg not a string
+      dream_err_msg("Argument 4 is not a valid string format!");
     }
     break;
 
@@ -201,6 +205,8 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     break;
   }
 
+  mex_check_args("conv_p", nrhs, prhs, {3});
+
   A_M = mxGetM(prhs[0]);
   A_N = mxGetN(prhs[0]);
   A = mxGetPr(prhs[0]);
@@ -257,6 +263,9 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     // in-place mode.
     //
 
+    if (mxIsChar(prhs[2]))
+      dream_err_msg("Arg 3 must be a matrix (not a string)");
+
     if ( mxGetM(prhs[2]) != A_M+B_M-1)
       dream_err_msg("Wrong number of rows in argument 3!");
 
@@ -328,6 +337,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   if (D) {
     free((void*) D);
   }
+  delete[] threads;
 
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
-- 
2.43.0


From 4e0ad52e2f072c882fa1ecad0c12f5ebf2208cf7 Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 03:33:49 +0000
Subject: [PATCH 65/80] fix: MATLAB fftconv_p ignores the in-place mode when a
 wisdom string is also given, and does not free its threads

---
 extra_src/mex_fftconv_p.cc | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/extra_src/mex_fftconv_p.cc b/extra_src/mex_fftconv_p.cc
index c676b79..c533d25 100644
--- a/extra_src/mex_fftconv_p.cc
+++ b/extra_src/mex_fftconv_p.cc
@@ -21,6 +21,7 @@
 *
 ***/
 
+#include <atomic>
 #include <csignal>
 #include <thread>
 #include <complex>
@@ -31,6 +32,7 @@
 #include "affinity.h"
 #include "fftconv.h"
 #include "signal_guard.h"
+#include "mex_args.h"
 
 #ifdef DEBUG
 #include <mutex>
@@ -47,7 +49,7 @@ std::mutex print_mutex;         // Debug print mutex (C++11)
 // Globals
 //
 
-volatile int running;
+std::atomic<int> running;
 
 //
 // typedef:s
@@ -228,6 +230,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     dream_err_msg("Too many output arguments for fftconv_p!");
   }
 
+  mex_check_args("fftconv_p", nrhs, prhs, {2, 3, 4});
+
   // 2nd output is wisdom string
   if (nlhs == 2) {
     return_wisdom = true;
@@ -332,6 +336,25 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     break;
 
   case 5: // In-place mode if input 5 args.
+    if (mxIsChar(prhs[3])) { // 4th arg is a string ('=','+=', or '-=').
+
+      char *str = mxArrayToString(prhs[3]);
+      std::string ip_mode(str);
+      mxFree(str);
+
+      if (ip_mode.compare("=") == 0) {
+        conv_mode=ConvMode::equ;
+      } else if (ip_mode.compare("+=") == 0) {
+        conv_mode=ConvMode::sum;
+      } else if (ip_mode.compare("-=") == 0) {
+        conv_mode=ConvMode::neg;
+      } else {
+        dream_err_msg("Non-valid string in arg 4!");
+      }
+    } else { // 4th arg not a string
+      dream_err_msg("Argument 4 is not a valid string format!");
+    }
+
     if (mxIsChar(prhs[4])) { // 5:th arg is a string (FFTW wisdom).
 
       char *str = mxArrayToString(prhs[4]);
@@ -415,6 +438,10 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   if ( (nrhs == 3 && !load_wisdom) || nrhs == 4 || nrhs == 5) {
 
+    if (mxIsChar(prhs[2])) {
+      dream_err_msg("Argument 3 must be a matrix!");
+    }
+
     if ( mxGetM(prhs[2]) != A_M+B_M-1) {
       dream_err_msg("Wrong number of rows in argument 3!");
     }
@@ -491,6 +518,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   if (D) {
     free((void*) D);
   }
+  delete[] threads;
 
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
-- 
2.43.0


From 9e0ce725bea09e68c10915717e47181c13ec1df7 Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 03:33:49 +0000
Subject: [PATCH 66/80] fix: wrong in-place results, columns and zero block
 length in MATLAB fftconv_ola

---
 extra_src/mex_fftconv_ola.cc | 89 +++++++++++++++++++++++++-----------
 1 file changed, 63 insertions(+), 26 deletions(-)

diff --git a/extra_src/mex_fftconv_ola.cc b/extra_src/mex_fftconv_ola.cc
index 30dbe1c..4432946 100644
--- a/extra_src/mex_fftconv_ola.cc
+++ b/extra_src/mex_fftconv_ola.cc
@@ -21,7 +21,10 @@
 *
 ***/
 
+#include <algorithm>
+#include <atomic>
 #include <csignal>
+#include <cstring>
 #include <thread>
 #include <complex>
 
@@ -31,6 +34,7 @@
 #include "affinity.h"
 #include "fftconv.h"
 #include "signal_guard.h"
+#include "mex_args.h"
 
 /***
  *
@@ -42,7 +46,7 @@
 // Globals
 //
 
-volatile int running;
+std::atomic<int> running;
 
 //
 // typedef:s
@@ -73,6 +77,23 @@ void sighandler(int signum);
 void sig_abrt_handler(int signum);
 void sig_keyint_handler(int signum);
 
+/***
+ *
+ * Add (or subtract) one convolved block to the output.
+ *
+ ***/
+
+static void add_overlap(double *Y, const double *y, dream_idx_type len, ConvMode conv_mode)
+{
+  for (dream_idx_type l=0; l<len; l++) {
+    if (conv_mode == ConvMode::neg) {
+      Y[l] -= y[l];
+    } else {
+      Y[l] += y[l];
+    }
+  }
+}
+
 /***
  *
  * Thread function
@@ -121,6 +142,10 @@ void* smp_dream_fftconv_ola(void *arg)
 
     for (n=col_start; n<col_stop; n++) {
 
+      if (conv_mode == ConvMode::equ) {
+        memset(&Y[n*(A_M+B_M-1)], 0, (A_M+B_M-1)*sizeof(double));
+      }
+
       //
       // The overlap-and-add algorithm.
       //
@@ -136,7 +161,7 @@ void* smp_dream_fftconv_ola(void *arg)
         if (k+block_len < A_M) {
 
           fftconv(fft, Ap, block_len, Bp, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
           len = block_len;
 
@@ -154,7 +179,7 @@ void* smp_dream_fftconv_ola(void *arg)
           memset(&a_block[A_M-k], 0, (block_len - len)*sizeof(double));
 
           fftconv(fft, a_block, block_len, Bp, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
         }
 
         Ap += len;
@@ -163,15 +188,7 @@ void* smp_dream_fftconv_ola(void *arg)
         // Add the overlap.
         //
 
-        if (k+fft_len <  A_M+B_M-1) {
-          for (dream_idx_type l=0; l<fft_len; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
-          }
-        } else {
-          for (dream_idx_type l=0; l<(A_M+B_M-1)-k; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
-          }
-        }
+        add_overlap(&Y[k + n*(A_M+B_M-1)], y, std::min(fft_len, (A_M+B_M-1)-k), conv_mode);
 
         k += block_len;
       }
@@ -193,6 +210,10 @@ void* smp_dream_fftconv_ola(void *arg)
 
     for (n=col_start; n<col_stop; n++) {
 
+      if (conv_mode == ConvMode::equ) {
+        memset(&Y[n*(A_M+B_M-1)], 0, (A_M+B_M-1)*sizeof(double));
+      }
+
       //
       // The overlap-and-add algorithm.
       //
@@ -205,7 +226,7 @@ void* smp_dream_fftconv_ola(void *arg)
         if (k+block_len < A_M) {
 
           fftconv(fft, Ap, block_len, B, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
           len = block_len;
 
@@ -223,22 +244,14 @@ void* smp_dream_fftconv_ola(void *arg)
           memset(&a_block[A_M-k], 0, (block_len - len)*sizeof(double));
 
           fftconv(fft, a_block, block_len, B, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
         }
 
         Ap += len;
 
         // Add the overlap.
-        if (k+fft_len < A_M+B_M-1) {
-          for (dream_idx_type l=0; l<fft_len; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
-          }
-        } else {
-          for (dream_idx_type l=0; l<(A_M+B_M-1)-k; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
-          }
-        }
+        add_overlap(&Y[k + n*(A_M+B_M-1)], y, std::min(fft_len, (A_M+B_M-1)-k), conv_mode);
 
         k += block_len;
       } // while
@@ -249,8 +262,6 @@ void* smp_dream_fftconv_ola(void *arg)
         break;
       }
 
-      Ap += A_M;
-
     } // for
   } // if
 
@@ -321,6 +332,8 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     dream_err_msg("Too many output arguments for fftconv_ola!");
   }
 
+  mex_check_args("fftconv_ola", nrhs, prhs, {3, 4, 5});
+
   if (nlhs == 2) {
     return_wisdom = true;
   }
@@ -350,7 +363,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   }
   block_len = (dream_idx_type) mxGetPr(prhs[2])[0]; // Get scalar
 
-  if (block_len < 0 || block_len > A_M) {
+  if (block_len < 1 || block_len > A_M) {
     dream_err_msg("Argument 3 is out of bounds! Must be > 0 and less than number of rows of arg 1!");
   }
 
@@ -440,6 +453,25 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     break;
 
   case 6: // In-place mode if 6 input args.
+    if ( mxIsChar(prhs[4]) ) { // 5th arg is a string ('=','+=', or '-=').
+
+      char *str = mxArrayToString(prhs[4]);
+      std::string ip_mode(str);
+      mxFree(str);
+
+      if (ip_mode.compare("=") == 0) {
+        conv_mode=ConvMode::equ;
+      } else if (ip_mode.compare("+=") == 0) {
+        conv_mode=ConvMode::sum;
+      } else if (ip_mode.compare("-=") == 0) {
+        conv_mode=ConvMode::neg;
+      } else {
+        dream_err_msg("Non-valid string in arg 5!");
+      }
+    } else { // 5th arg not a string
+      dream_err_msg("Argument 5 is not a valid string format!");
+    }
+
     if ( mxIsChar(prhs[5]) ) { // 6:th arg is a string (fftw wisdom).
 
       // Read the wisdom string.
@@ -531,6 +563,10 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   if ( (nrhs == 4 && !load_wisdom) || nrhs == 5 || nrhs == 6) {
 
+    if (mxIsChar(prhs[3])) {
+      dream_err_msg("Argument 4 must be a matrix!");
+    }
+
     if ( mxGetM(prhs[3]) != A_M+B_M-1) {
       dream_err_msg("Wrong number of rows in argument 3!");
     }
@@ -597,6 +633,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   if (D) {
     free((void*) D);
   }
+  delete[] threads;
 
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
-- 
2.43.0


From dcb7d25885717c4d82f6fa9b51f74c802418088b Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 03:33:49 +0000
Subject: [PATCH 67/80] fix: MATLAB sum_fftconv with one-sample input signals,
 and memory leaks

---
 extra_src/mex_sum_fftconv.cc | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/extra_src/mex_sum_fftconv.cc b/extra_src/mex_sum_fftconv.cc
index 440506f..5e4e788 100644
--- a/extra_src/mex_sum_fftconv.cc
+++ b/extra_src/mex_sum_fftconv.cc
@@ -21,7 +21,9 @@
 *
 ***/
 
+#include <atomic>
 #include <csignal>
+#include <memory>
 #include <thread>
 #include <complex>
 
@@ -31,6 +33,7 @@
 #include "affinity.h"
 #include "fftconv.h"
 #include "signal_guard.h"
+#include "mex_args.h"
 
 /***
  *
@@ -42,7 +45,7 @@
 // Globals
 //
 
-volatile int running;
+std::atomic<int> running;
 
 //
 // typedef:s
@@ -191,6 +194,8 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     dream_err_msg("Too many output arguments for sum_fftconv!");
   }
 
+  mex_check_args("sum_fftconv", nrhs, prhs, {2, 3}, false, 3);
+
   // 2nd output is wisdom string
   if (nlhs == 2) {
     return_wisdom = true;
@@ -212,7 +217,8 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   H_L = dv[2];
 
   // Store pointers to the L A-matrices in a vector.
-  double **H = (double**) malloc(H_L*sizeof(double*));
+  std::unique_ptr<double*[]> H_ptr = std::make_unique<double*[]>(H_L); // Freed on all returns.
+  double **H = H_ptr.get();
   double* tmp_p = mxGetPr(prhs[0]);
   for (dream_idx_type k=0; k<H_L; k++) {
     H[k] = &(tmp_p[H_M*H_N*k]);
@@ -226,11 +232,6 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     dream_err_msg("3rd dimension of arg 1 must match the number of columns in arg 2\n");
   }
 
-  if (U_M == 1 || U_N == 1 ) { // U is a vector.
-    U_M = U_M*U_N;
-    U_N = 1;
-  }
-
   fft_len = H_M+U_M-1;
 
   // NB We call the FFTW planners only from the main thread once
@@ -355,11 +356,14 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   if ( (nrhs == 3 && !load_wisdom) || nrhs == 4 ) {
 
+    if (mxIsChar(prhs[2]))
+      dream_err_msg("Argument 3 must be a matrix!");
+
     if ( mxGetM(prhs[2]) != fft_len)
-      dream_err_msg("Wrong number of rows in argument 4!");
+      dream_err_msg("Wrong number of rows in argument 3!");
 
     if ( mxGetN(prhs[2]) != H_N)
-      dream_err_msg("Wrong number of columns in argument 4!");
+      dream_err_msg("Wrong number of columns in argument 3!");
 
     Y = mxGetPr(prhs[2]);
   }
@@ -421,15 +425,12 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   if (D) {
     free((void*) D);
   }
+  delete[] threads;
 
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
   }
 
-  if (H) {
-    free(H);
-  }
-
 
   // FIXME: Should we really return this here?
 
-- 
2.43.0


From a3f9d25410efc070886c74792085babc45cea455 Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 03:33:49 +0000
Subject: [PATCH 68/80] fix: MATLAB copy_p copies the wrong number of columns

---
 extra_src/mex_copy_p.cc | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/extra_src/mex_copy_p.cc b/extra_src/mex_copy_p.cc
index 5d0c61e..5f49b5d 100644
--- a/extra_src/mex_copy_p.cc
+++ b/extra_src/mex_copy_p.cc
@@ -22,6 +22,7 @@
 ***/
 
 #include <iostream>
+#include <atomic>
 #include <csignal>
 #include <cmath>
 #include <string>
@@ -34,6 +35,7 @@
 
 #include "mex.h"
 #include "signal_guard.h"
+#include "mex_args.h"
 
 /***
  *
@@ -45,7 +47,7 @@
 // Globals
 //
 
-volatile int running;
+std::atomic<int> running;
 
 //
 // typedef:s
@@ -92,7 +94,7 @@ void* smp_dream_copy_p(void *arg)
     memcpy( &A[r+(k+n)*A_M], &B[0+n*B_M], len*sizeof(double));
 
     if (running==false) {
-      mexPrintf("copy_p: thread for column %d -> %d bailing out!\n",line_start+1,line_stop);
+      std::cout << "copy_p: thread for column " << line_start+1 << " -> " << line_stop << " bailing out!\n";
       break;
     }
 
@@ -147,6 +149,8 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   if (nlhs > 0)
     mexErrMsgTxt("Too many output arguments for copy_p, none required!");
 
+  mex_check_args("copy_p", nrhs, prhs, {});
+
   A_M = mxGetM(prhs[0]);
   A_N = mxGetN(prhs[0]);
   A   = mxGetPr(prhs[0]);
@@ -167,7 +171,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   if ( r_M * r_N !=2 )
     mexErrMsgTxt("Argument 2 must be a 2 element vector!");
 
-  if ( (size_t) r[1] < 1)
+  if (r[0] < 1 || r[1] < r[0])
     mexErrMsgTxt("1st element of argument 2 must be > 1!");
 
   if (( (size_t) r[0] > A_M) || ( (size_t) r[1] > A_M))
@@ -177,14 +181,14 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   if ( k_M * k_N !=2 )
     mexErrMsgTxt("Argument 3 must be a 2 element vector!");
 
-  if ( (size_t) k[1] < 1)
+  if (k[0] < 1 || k[1] < k[0])
     mexErrMsgTxt("1st element of argument 3 must be > 1!");
 
   if (( (size_t) k[0] > A_N) || ( (size_t) k[1] > A_N))
     mexErrMsgTxt("One element of argument 3 exceeds colomn dimension of arg 1!");
 
   // Check that arg 4.
-  if (B_M < (size_t) (r[1]-r[0])+1 )
+  if (B_M != (size_t) (r[1]-r[0])+1 )
     mexErrMsgTxt("Argument 4 has not the number of rows as given by arg 2!");
 
   if (B_N != (size_t) (k[1]-k[0])+1 )
@@ -206,9 +210,9 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     }
   }
 
-  // nthreads can't be larger then the number of columns in the A matrix.
-  if (nthreads > A_N) {
-    nthreads = A_N;
+  // nthreads can't be larger then the number of columns in the B matrix.
+  if (nthreads > B_N) {
+    nthreads = B_N;
   }
 
   if (nthreads < 1) {
@@ -241,8 +245,8 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
-    line_start = thread_n * A_N/nthreads;
-    line_stop =  (thread_n+1) * A_N/nthreads;
+    line_start = thread_n * B_N/nthreads;
+    line_stop =  (thread_n+1) * B_N/nthreads;
 
     // Init local data.
     D[thread_n].line_start = line_start; // Local start index;
@@ -271,6 +275,8 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     free((void*) D);
   }
 
+  delete[] threads;
+
   if (!running) {
     // This may kill Matlab 7 release 14 (bug in Matlab).
     mexErrMsgTxt("CTRL-C pressed!\n"); // Bail out.
-- 
2.43.0


From 092de2924bf0a542871105d039a4f25439bdccc2 Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 03:33:49 +0000
Subject: [PATCH 69/80] fix: MATLAB circ_sir and scirc_sir use a cancel flag
 which is not atomic, and do not free their threads

---
 extra_src/mex_circ_sir.cc  | 6 +++++-
 extra_src/mex_scirc_sir.cc | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/extra_src/mex_circ_sir.cc b/extra_src/mex_circ_sir.cc
index b830560..cf18856 100644
--- a/extra_src/mex_circ_sir.cc
+++ b/extra_src/mex_circ_sir.cc
@@ -21,6 +21,7 @@
  *
  ***/
 
+#include <atomic>
 #include <csignal>
 #include <iostream>
 #include <string>
@@ -32,6 +33,7 @@
 
 #include "mex.h"
 #include "signal_guard.h"
+#include "mex_args.h"
 
 //
 // Globals
@@ -39,7 +41,7 @@
 
 //volatile ErrorLevel out_err=ErrorLevel::none;
 //std::mutex err_lock;
-int running;
+std::atomic<int> running;
 
 //
 // typedef:s
@@ -175,6 +177,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_arg_in("circ_sir", nrhs, 5, 5);
   ap.check_arg_out("circ_sir", nlhs, 0, 1);
+  mex_check_args("circ_sir", nrhs, prhs, {});
 
   //
   // Observation point.
@@ -310,6 +313,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   // Free memory.
   free((void*) D);
+  delete[] threads;
 
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
diff --git a/extra_src/mex_scirc_sir.cc b/extra_src/mex_scirc_sir.cc
index 3a8e641..1802a2f 100644
--- a/extra_src/mex_scirc_sir.cc
+++ b/extra_src/mex_scirc_sir.cc
@@ -21,6 +21,7 @@
 *
 ***/
 
+#include <atomic>
 #include <csignal>
 #include <iostream>
 #include <string>
@@ -32,6 +33,7 @@
 
 #include "mex.h"
 #include "signal_guard.h"
+#include "mex_args.h"
 
 //
 // Globals
@@ -39,7 +41,7 @@
 
 //volatile ErrorLevel out_err=ErrorLevel::none;
 //std::mutex err_lock;
-int running;
+std::atomic<int> running;
 
 //
 // typedef:s
@@ -176,6 +178,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   ap.check_arg_in("scirc_sir", nrhs, 6, 6);
   ap.check_arg_out("scirc_sir", nlhs, 0, 1);
+  mex_check_args("scirc_sir", nrhs, prhs, {});
 
   //
   // Observation point.
@@ -326,6 +329,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   // Free memory.
   free((void*) D);
+  delete[] threads;
 
   if (!running) {
     dream_err_msg("CTRL-C pressed!\n"); // Bail out.
-- 
2.43.0


From 5d28d76c3a4df6d58cd0a587485e19d5872a34f6 Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 03:41:58 +0000
Subject: [PATCH 70/80] fix: wrong terms in h2o_soundspeed

A missing exponent sign, and two wrong powers, compared with the published formula.
---
 m_files/h2o_soundspeed.m | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/m_files/h2o_soundspeed.m b/m_files/h2o_soundspeed.m
index 44ef2f6..c8b4483 100644
--- a/m_files/h2o_soundspeed.m
+++ b/m_files/h2o_soundspeed.m
@@ -71,7 +71,7 @@ end
              + 0.221535969240e-3  .* T.^3;
 
   deltaC_S = 0.132952290781e1   .* S ...
-             + 0.128955756844e-3 .* S.^3;
+             + 0.128955756844e-3 .* S.^2;
 
   deltaC_P = 0.156059257041     .* P ...
              + 0.244998688441e-4 .* P.^2 ...
@@ -80,10 +80,10 @@ end
   deltaC_STP = - 0.127562783426e-1.*T.*S  ...
                + 0.635191613389e-2 .* T    .* P    ...
                + 0.265484716608e-7 .* T.^2 .* P.^2 ...
-               - 0.159349479045e-5 .* T    .* P.^3 ...
+               - 0.159349479045e-5 .* T    .* P.^2 ...
                + 0.522116437235e-9 .* T    .* P.^3 ...
                - 0.438031096213e-6 .* T.^3 .* P    ...
-               - 0.161674495909-8  .* S.^2 .* P.^2 ...
+               - 0.161674495909e-8 .* S.^2 .* P.^2 ...
                + 0.968403156410e-4 .* T.^2 .* S    ...
                + 0.485639620015e-5 .* T    .* S.^2 .* P ...
                - 0.340597039004e-3 .* T    .* S    .* P;
-- 
2.43.0


From a2ec21e72dc282ae37025dd60615ab2ebe48f522 Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 05:02:13 +0000
Subject: [PATCH 71/80] fix: Julia array functions ignore the apodization
 window parameter

---
 julia/src/jl_dream_arr_annu.cc   | 2 +-
 julia/src/jl_dream_arr_circ.cc   | 2 +-
 julia/src/jl_dream_arr_cylind.cc | 2 +-
 julia/src/jl_dream_arr_rect.cc   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/julia/src/jl_dream_arr_annu.cc b/julia/src/jl_dream_arr_annu.cc
index 18922ea..9da1b01 100644
--- a/julia/src/jl_dream_arr_annu.cc
+++ b/julia/src/jl_dream_arr_annu.cc
@@ -130,7 +130,7 @@ jl::ArrayRef<double, 2> jl_dream_arr_annu(jl::ArrayRef<double, 2> jl_ro,
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_annu", apod_str, jl_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_annu!");
diff --git a/julia/src/jl_dream_arr_circ.cc b/julia/src/jl_dream_arr_circ.cc
index 1a01b3e..ef1bfa6 100644
--- a/julia/src/jl_dream_arr_circ.cc
+++ b/julia/src/jl_dream_arr_circ.cc
@@ -154,7 +154,7 @@ jl::ArrayRef<double, 2> jl_dream_arr_circ(jl::ArrayRef<double, 2> jl_ro,
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_circ", apod_str, jl_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_circ!");
diff --git a/julia/src/jl_dream_arr_cylind.cc b/julia/src/jl_dream_arr_cylind.cc
index 7887996..18ce8cb 100644
--- a/julia/src/jl_dream_arr_cylind.cc
+++ b/julia/src/jl_dream_arr_cylind.cc
@@ -154,7 +154,7 @@ jl::ArrayRef<double, 2> jl_dream_arr_cylind(jl::ArrayRef<double, 2> jl_ro,
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_cylind", apod_str, jl_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_cylind!");
diff --git a/julia/src/jl_dream_arr_rect.cc b/julia/src/jl_dream_arr_rect.cc
index 2fcac32..3221b51 100644
--- a/julia/src/jl_dream_arr_rect.cc
+++ b/julia/src/jl_dream_arr_rect.cc
@@ -154,7 +154,7 @@ jl::ArrayRef<double, 2> jl_dream_arr_rect(jl::ArrayRef<double, 2> jl_ro,
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_rect", apod_str, jl_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_rect!");
-- 
2.43.0


From 11cdd4e0b35a273c8f8d5820c04ee6339a370ba7 Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 05:02:13 +0000
Subject: [PATCH 72/80] fix: Julia annular array wants one user defined delay
 and weight per radius instead of per ring

---
 julia/src/jl_dream_arr_annu.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/julia/src/jl_dream_arr_annu.cc b/julia/src/jl_dream_arr_annu.cc
index 9da1b01..57a5119 100644
--- a/julia/src/jl_dream_arr_annu.cc
+++ b/julia/src/jl_dream_arr_annu.cc
@@ -71,7 +71,8 @@ jl::ArrayRef<double, 2> jl_dream_arr_annu(jl::ArrayRef<double, 2> jl_ro,
   auto G_m = ap.get_len(jl_G);
   double *G = ap.get_data(jl_G);
 
-  dream_idx_type num_elements = (dream_idx_type) G_m;
+  dream_idx_type num_radii = (dream_idx_type) G_m;
+  dream_idx_type num_elements = (num_radii+1)/2;
 
   //
   // Temporal and spatial sampling parameters.
@@ -170,7 +171,7 @@ jl::ArrayRef<double, 2> jl_dream_arr_annu(jl::ArrayRef<double, 2> jl_ro,
                                          dx, dy,  dt, nt,
                                          delay_type, delay,
                                          v, cp,
-                                         num_elements, G,
+                                         num_radii, G,
                                          foc_met, focal.get(),
                                          apod.get(), do_apod, apod_met, apod_par,
                                          h, err_level);
-- 
2.43.0


From 46dbd953301e8163480735101f94aa0521ad30a3 Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 05:02:13 +0000
Subject: [PATCH 73/80] fix: Julia front ends read from an empty delay vector

---
 include/arg_parser_julia.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arg_parser_julia.h b/include/arg_parser_julia.h
index fe026ff..5dd8287 100644
--- a/include/arg_parser_julia.h
+++ b/include/arg_parser_julia.h
@@ -267,8 +267,8 @@ public:
 
     //dream_idx_type delay_len = get_m(jl_focal)*get_n(jl_focal);
     dream_idx_type delay_len = get_len(jl_focal);
-    if ( (delay_len > 1) && (delay_len != No) ) { // delay is a vector
-      s << func_name <<  " requires that delay arg must be a " << delay_len << " element vector";
+    if ( (delay_len != 1) && (delay_len != No) ) { // delay is a vector
+      s << func_name <<  " requires that delay arg must be a " << No << " element vector";
       s << " (with a length equal to the number of observation points) or a scalar!";
       dream_err_msg(s.str().c_str());
       retval=false;
-- 
2.43.0


From d199a65709ecf1b8747fbd632a510c090d3490ea Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 05:02:13 +0000
Subject: [PATCH 74/80] fix: Julia das refuses the gpu device and accepts
 unknown ones

---
 julia/include/jl_das.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/julia/include/jl_das.hpp b/julia/include/jl_das.hpp
index ad474ae..6cf2c39 100644
--- a/julia/include/jl_das.hpp
+++ b/julia/include/jl_das.hpp
@@ -140,7 +140,7 @@ jl::ArrayRef<T, 2> jl_das(jl::ArrayRef<T, 2> jl_Y,
   // Compute device
   //
 
-  if (device_str != "cpu" && device_str == "gpu") {
+  if (device_str != "cpu" && device_str != "gpu") {
     throw std::runtime_error("Error in das - unkown compute device string!");
   }
 
-- 
2.43.0


From c61cc4a98559dcdf1c31cc51a0ad85d766c77ae3 Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 05:02:13 +0000
Subject: [PATCH 75/80] fix: Julia das reads outside the data when there are
 too few A-scans

---
 julia/include/jl_das.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/julia/include/jl_das.hpp b/julia/include/jl_das.hpp
index 6cf2c39..8bd4547 100644
--- a/julia/include/jl_das.hpp
+++ b/julia/include/jl_das.hpp
@@ -88,6 +88,15 @@ jl::ArrayRef<T, 2> jl_das(jl::ArrayRef<T, 2> jl_Y,
     Gr = static_cast<T*>(ap.get_data(jl_Gr));
   }
 
+  // Check that there is one A-scan for each element (SAFT), or for each pair of elements.
+  dream_idx_type num_a_scans = num_t_elements;
+  if (num_r_elements > 0) {
+    num_a_scans = num_t_elements*num_r_elements;
+  }
+  if ((dream_idx_type) ap.get_n(jl_Y) != num_a_scans) {
+    throw std::runtime_error("The number of A-scans (columns) in argument 1 does not match the number of elements!");
+  }
+
   //
   // Observation point.
   //
-- 
2.43.0


From 76ac3f64c541bf630200b9d808df8a9497c8282c Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 05:02:13 +0000
Subject: [PATCH 76/80] fix: Julia functions leave their signal handlers
 installed

---
 julia/include/jl_das.hpp         | 3 ++-
 julia/src/jl_dream_arr_annu.cc   | 3 ++-
 julia/src/jl_dream_arr_circ.cc   | 3 ++-
 julia/src/jl_dream_arr_cylind.cc | 3 ++-
 julia/src/jl_dream_arr_rect.cc   | 3 ++-
 julia/src/jl_dreamcirc.cc        | 3 ++-
 julia/src/jl_dreamcirc_f.cc      | 3 ++-
 julia/src/jl_dreamcylind.cc      | 3 ++-
 julia/src/jl_dreamline.cc        | 3 ++-
 julia/src/jl_dreamrect.cc        | 3 ++-
 julia/src/jl_dreamrect_f.cc      | 3 ++-
 julia/src/jl_dreamsphere.cc      | 3 ++-
 12 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/julia/include/jl_das.hpp b/julia/include/jl_das.hpp
index 8bd4547..bceaab5 100644
--- a/julia/include/jl_das.hpp
+++ b/julia/include/jl_das.hpp
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 namespace jl = jlcxx;
 
@@ -220,7 +221,7 @@ jl::ArrayRef<T, 2> jl_das(jl::ArrayRef<T, 2> jl_Y,
   das->set_running();
 
   // Register signal handler.
-  std::signal(SIGABRT, DAS<T>::abort);
+  SignalGuard signal_guard(SIGABRT, DAS<T>::abort);
 
 #ifdef USE_OPENCL
 
diff --git a/julia/src/jl_dream_arr_annu.cc b/julia/src/jl_dream_arr_annu.cc
index 57a5119..297d78b 100644
--- a/julia/src/jl_dream_arr_annu.cc
+++ b/julia/src/jl_dream_arr_annu.cc
@@ -26,6 +26,7 @@
 
 #include "dream_arr_annu.h"
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 namespace jl = jlcxx;
 
@@ -160,7 +161,7 @@ jl::ArrayRef<double, 2> jl_dream_arr_annu(jl::ArrayRef<double, 2> jl_ro,
   ArrAnnu arr_annu;
 
   // Register signal handler.
-  std::signal(SIGINT, ArrAnnu::abort);
+  SignalGuard signal_guard(SIGINT, ArrAnnu::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dream_arr_circ.cc b/julia/src/jl_dream_arr_circ.cc
index ef1bfa6..18c71b1 100644
--- a/julia/src/jl_dream_arr_circ.cc
+++ b/julia/src/jl_dream_arr_circ.cc
@@ -26,6 +26,7 @@
 
 #include "dream_arr_circ.h"
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 namespace jl = jlcxx;
 
@@ -182,7 +183,7 @@ jl::ArrayRef<double, 2> jl_dream_arr_circ(jl::ArrayRef<double, 2> jl_ro,
   ArrCirc arr_circ;
 
   // Register signal handler.
-  std::signal(SIGINT, ArrCirc::abort);
+  SignalGuard signal_guard(SIGINT, ArrCirc::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dream_arr_cylind.cc b/julia/src/jl_dream_arr_cylind.cc
index 18ce8cb..151cb87 100644
--- a/julia/src/jl_dream_arr_cylind.cc
+++ b/julia/src/jl_dream_arr_cylind.cc
@@ -26,6 +26,7 @@
 
 #include "dream_arr_cylind.h"
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 namespace jl = jlcxx;
 
@@ -182,7 +183,7 @@ jl::ArrayRef<double, 2> jl_dream_arr_cylind(jl::ArrayRef<double, 2> jl_ro,
   ArrCylind arr_cylind;
 
   // Register signal handler.
-  std::signal(SIGINT, ArrCylind::abort);
+  SignalGuard signal_guard(SIGINT, ArrCylind::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dream_arr_rect.cc b/julia/src/jl_dream_arr_rect.cc
index 3221b51..d8d8f10 100644
--- a/julia/src/jl_dream_arr_rect.cc
+++ b/julia/src/jl_dream_arr_rect.cc
@@ -26,6 +26,7 @@
 
 #include "dream_arr_rect.h"
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 namespace jl = jlcxx;
 
@@ -182,7 +183,7 @@ jl::ArrayRef<double, 2> jl_dream_arr_rect(jl::ArrayRef<double, 2> jl_ro,
   ArrRect arr_rect;
 
   // Register signal handler.
-  std::signal(SIGINT, ArrRect::abort);
+  SignalGuard signal_guard(SIGINT, ArrRect::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dreamcirc.cc b/julia/src/jl_dreamcirc.cc
index 6a7559c..1656115 100644
--- a/julia/src/jl_dreamcirc.cc
+++ b/julia/src/jl_dreamcirc.cc
@@ -26,6 +26,7 @@
 
 #include "dreamcirc.h"
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 namespace jl = jlcxx;
 
@@ -121,7 +122,7 @@ jl::ArrayRef<double, 2> jl_dreamcirc(jl::ArrayRef<double, 2> jl_ro,
   Circ circ;
 
   // Register signal handler.
-  std::signal(SIGINT, Circ::abort);
+  SignalGuard signal_guard(SIGINT, Circ::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dreamcirc_f.cc b/julia/src/jl_dreamcirc_f.cc
index 2e9308d..89d2b05 100644
--- a/julia/src/jl_dreamcirc_f.cc
+++ b/julia/src/jl_dreamcirc_f.cc
@@ -26,6 +26,7 @@
 
 #include "dreamcirc_f.h"
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 namespace jl = jlcxx;
 
@@ -134,7 +135,7 @@ jl::ArrayRef<double, 2> jl_dreamcirc_f(jl::ArrayRef<double, 2> jl_ro,
   Circ_f circ_f;
 
   // Register signal handler.
-  std::signal(SIGINT, Circ_f::abort);
+  SignalGuard signal_guard(SIGINT, Circ_f::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dreamcylind.cc b/julia/src/jl_dreamcylind.cc
index d64b43e..01ef8fd 100644
--- a/julia/src/jl_dreamcylind.cc
+++ b/julia/src/jl_dreamcylind.cc
@@ -26,6 +26,7 @@
 
 #include "dreamcylind.h"
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 namespace jl = jlcxx;
 
@@ -121,7 +122,7 @@ jl::ArrayRef<double, 2> jl_dreamcylind(jl::ArrayRef<double, 2> jl_ro,
   Cylind cylind;
 
   // Register signal handler.
-  std::signal(SIGINT, Cylind::abort);
+  SignalGuard signal_guard(SIGINT, Cylind::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dreamline.cc b/julia/src/jl_dreamline.cc
index 5283b4b..8e98e2f 100644
--- a/julia/src/jl_dreamline.cc
+++ b/julia/src/jl_dreamline.cc
@@ -26,6 +26,7 @@
 
 #include "dreamline.h"
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 namespace jl = jlcxx;
 
@@ -121,7 +122,7 @@ jl::ArrayRef<double, 2> jl_dreamline(jl::ArrayRef<double, 2> jl_ro,
   Line line;
 
   // Register signal handler.
-  std::signal(SIGINT, Line::abort);
+  SignalGuard signal_guard(SIGINT, Line::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dreamrect.cc b/julia/src/jl_dreamrect.cc
index f9af430..39c9360 100644
--- a/julia/src/jl_dreamrect.cc
+++ b/julia/src/jl_dreamrect.cc
@@ -26,6 +26,7 @@
 
 #include "dreamrect.h"
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 namespace jl = jlcxx;
 
@@ -121,7 +122,7 @@ jl::ArrayRef<double, 2> jl_dreamrect(jl::ArrayRef<double, 2> jl_ro,
   Rect rect;
 
   // Register signal handler.
-  std::signal(SIGINT, Rect::abort);
+  SignalGuard signal_guard(SIGINT, Rect::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dreamrect_f.cc b/julia/src/jl_dreamrect_f.cc
index 05d36b9..1f9a913 100644
--- a/julia/src/jl_dreamrect_f.cc
+++ b/julia/src/jl_dreamrect_f.cc
@@ -26,6 +26,7 @@
 
 #include "dreamrect_f.h"
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 namespace jl = jlcxx;
 
@@ -134,7 +135,7 @@ jl::ArrayRef<double, 2> jl_dreamrect_f(jl::ArrayRef<double, 2> jl_ro,
   Rect_f rect_f;
 
   // Register signal handler.
-  std::signal(SIGINT, Rect_f::abort);
+  SignalGuard signal_guard(SIGINT, Rect_f::abort);
 
   //
   // Call DREAM function
diff --git a/julia/src/jl_dreamsphere.cc b/julia/src/jl_dreamsphere.cc
index 58e6065..4e091aa 100644
--- a/julia/src/jl_dreamsphere.cc
+++ b/julia/src/jl_dreamsphere.cc
@@ -26,6 +26,7 @@
 
 #include "dreamsphere.h"
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 namespace jl = jlcxx;
 
@@ -121,7 +122,7 @@ jl::ArrayRef<double, 2> jl_dreamsphere(jl::ArrayRef<double, 2> jl_ro,
   Sphere sphere;
 
   // Register signal handler.
-  std::signal(SIGINT, Sphere::abort);
+  SignalGuard signal_guard(SIGINT, Sphere::abort);
 
   //
   // Call DREAM function
-- 
2.43.0


From 2d379bfc748e44b937fce9df645f587dbfa39310 Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 05:02:25 +0000
Subject: [PATCH 77/80] fix: Julia conv_p and fftconv_p do not free their
 threads

---
 julia/src/jl_conv_p.cc    | 1 +
 julia/src/jl_fftconv_p.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/julia/src/jl_conv_p.cc b/julia/src/jl_conv_p.cc
index bffd5d1..cafd3e1 100644
--- a/julia/src/jl_conv_p.cc
+++ b/julia/src/jl_conv_p.cc
@@ -263,6 +263,7 @@ jl::ArrayRef<double, 2> jl_conv_p(jl::ArrayRef<double, 2> jl_A,
   if (D) {
     free((void*) D);
   }
+  delete[] threads;
 
   //
   // Restore old signal handlers.
diff --git a/julia/src/jl_fftconv_p.cc b/julia/src/jl_fftconv_p.cc
index dc17fc9..4d3d2a5 100644
--- a/julia/src/jl_fftconv_p.cc
+++ b/julia/src/jl_fftconv_p.cc
@@ -326,6 +326,7 @@ jl::ArrayRef<double, 2> jl_fftconv_p(jl::ArrayRef<double, 2> jl_A,
   if (D) {
     free((void*) D);
   }
+  delete[] threads;
 
   //
   // Restore old signal handlers.
-- 
2.43.0


From 605c7256ab13bfa3d2db765c6f92579692155dcd Mon Sep 17 00:00:00 2001
From: vp <x@y>
Date: Fri, 20 Nov 2026 05:02:25 +0000
Subject: [PATCH 78/80] fix: cancelled Julia convolutions return a partial
 result as if complete

---
 julia/src/jl_conv_p.cc    | 34 ++++++----------------------------
 julia/src/jl_fftconv_p.cc | 34 ++++++----------------------------
 2 files changed, 12 insertions(+), 56 deletions(-)

diff --git a/julia/src/jl_conv_p.cc b/julia/src/jl_conv_p.cc
index cafd3e1..9509720 100644
--- a/julia/src/jl_conv_p.cc
+++ b/julia/src/jl_conv_p.cc
@@ -29,6 +29,7 @@
 #include "conv.h"
 
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -60,8 +61,6 @@ typedef struct
   ConvMode conv_mode;
 } DATA;
 
-typedef void (*sighandler_t)(int);
-
 //
 // Function prototypes.
 //
@@ -133,7 +132,6 @@ jl::ArrayRef<double, 2> jl_conv_p(jl::ArrayRef<double, 2> jl_A,
                                   jl::ArrayRef<double, 2> jl_B)
 {
   ArgParser<double> ap;
-  sighandler_t old_handler, old_handler_abrt, old_handler_keyint;
   DATA *D = nullptr;
   ConvMode conv_mode = ConvMode::equ;
 
@@ -187,17 +185,9 @@ jl::ArrayRef<double, 2> jl_conv_p(jl::ArrayRef<double, 2> jl_A,
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard term_guard(SIGTERM, sighandler);
+  SignalGuard abrt_guard(SIGABRT, sighandler);
+  SignalGuard int_guard(SIGINT, sighandler);
 
   //
   // Create an output matrix
@@ -265,20 +255,8 @@ jl::ArrayRef<double, 2> jl_conv_p(jl::ArrayRef<double, 2> jl_A,
   }
   delete[] threads;
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
+  if (!running) {
+    throw std::runtime_error("CTRL-C pressed!\n"); // Bail out.
   }
 
   return jl_Y_mat;
diff --git a/julia/src/jl_fftconv_p.cc b/julia/src/jl_fftconv_p.cc
index 4d3d2a5..ec16ae5 100644
--- a/julia/src/jl_fftconv_p.cc
+++ b/julia/src/jl_fftconv_p.cc
@@ -30,6 +30,7 @@
 #include "fftconv.h"
 
 #include "arg_parser_julia.h"
+#include "signal_guard.h"
 
 /***
  *
@@ -62,8 +63,6 @@ typedef struct
   ConvMode conv_mode;
 } DATA;
 
-typedef void (*sighandler_t)(int);
-
 //
 // Function prototypes.
 //
@@ -183,7 +182,6 @@ jl::ArrayRef<double, 2> jl_fftconv_p(jl::ArrayRef<double, 2> jl_A,
                                   jl::ArrayRef<double, 2> jl_B)
 {
   ArgParser<double> ap;
-  sighandler_t old_handler, old_handler_abrt, old_handler_keyint;
   DATA *D = nullptr;
   ConvMode conv_mode = ConvMode::equ;
 
@@ -249,17 +247,9 @@ jl::ArrayRef<double, 2> jl_fftconv_p(jl::ArrayRef<double, 2> jl_A,
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard term_guard(SIGTERM, sighandler);
+  SignalGuard abrt_guard(SIGABRT, sighandler);
+  SignalGuard int_guard(SIGINT, sighandler);
 
   //
   // Create an output matrix
@@ -328,20 +318,8 @@ jl::ArrayRef<double, 2> jl_fftconv_p(jl::ArrayRef<double, 2> jl_A,
   }
   delete[] threads;
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
+  if (!running) {
+    throw std::runtime_error("CTRL-C pressed!\n"); // Bail out.
   }
 
   return jl_Y_mat;
-- 
2.43.0


From 6b36f84e150dee2d51c6273dd0a1f63a50e9dabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:28 +0000
Subject: [PATCH 79/80] fix: a DREAM_NUM_THREADS value that is not a number
 ends the host session

---
 extra_src/das.cc             |  2 +-
 extra_src/fftconv_p.cc       |  2 +-
 extra_src/mex_circ_sir.cc    |  2 +-
 extra_src/mex_conv_p.cc      |  2 +-
 extra_src/mex_copy_p.cc      |  2 +-
 extra_src/mex_fftconv_ola.cc |  2 +-
 extra_src/mex_fftconv_p.cc   |  2 +-
 extra_src/mex_scirc_sir.cc   |  2 +-
 extra_src/mex_sum_fftconv.cc |  2 +-
 extra_src/oct_add_p.cc       |  2 +-
 extra_src/oct_circ_sir.cc    |  2 +-
 extra_src/oct_conv_p.cc      |  2 +-
 extra_src/oct_copy_p.cc      |  2 +-
 extra_src/oct_fftconv_ola.cc |  4 ++--
 extra_src/oct_fftconv_p.cc   |  2 +-
 extra_src/oct_scirc_sir.cc   |  3 ++-
 extra_src/oct_sum_fftconv.cc |  2 +-
 extra_src/rect_sir.cc        |  2 +-
 include/affinity.h           | 19 +++++++++++++++++++
 julia/src/jl_conv_p.cc       |  2 +-
 julia/src/jl_fftconv_p.cc    |  2 +-
 src/dream_arr_annu.cc        |  2 +-
 src/dream_arr_circ.cc        |  2 +-
 src/dream_arr_cylind.cc      |  2 +-
 src/dream_arr_rect.cc        |  2 +-
 src/dreamcirc.cc             |  2 +-
 src/dreamcirc_f.cc           |  2 +-
 src/dreamcylind.cc           |  2 +-
 src/dreamline.cc             |  2 +-
 src/dreamrect.cc             |  2 +-
 src/dreamrect_f.cc           |  2 +-
 src/dreamsphere.cc           |  2 +-
 32 files changed, 52 insertions(+), 32 deletions(-)

diff --git a/extra_src/das.cc b/extra_src/das.cc
index b721cfd..08d87e3 100644
--- a/extra_src/das.cc
+++ b/extra_src/das.cc
@@ -221,7 +221,7 @@ SIRError DAS<T>::das(const T *Y, const T *Ro, const T *Gt, const T *Gr,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/fftconv_p.cc b/extra_src/fftconv_p.cc
index 38d6b9c..aa94599 100644
--- a/extra_src/fftconv_p.cc
+++ b/extra_src/fftconv_p.cc
@@ -307,7 +307,7 @@ ErrorLevel FFTConvP::run(double *Y,
 
   // Read DREAM_NUM_THREADS env var
   if (const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/mex_circ_sir.cc b/extra_src/mex_circ_sir.cc
index cf18856..3e13b6e 100644
--- a/extra_src/mex_circ_sir.cc
+++ b/extra_src/mex_circ_sir.cc
@@ -229,7 +229,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/mex_conv_p.cc b/extra_src/mex_conv_p.cc
index d6c49fa..90f4ff9 100644
--- a/extra_src/mex_conv_p.cc
+++ b/extra_src/mex_conv_p.cc
@@ -233,7 +233,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    unsigned int dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/mex_copy_p.cc b/extra_src/mex_copy_p.cc
index 5f49b5d..52e0518 100644
--- a/extra_src/mex_copy_p.cc
+++ b/extra_src/mex_copy_p.cc
@@ -204,7 +204,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    unsigned int dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/mex_fftconv_ola.cc b/extra_src/mex_fftconv_ola.cc
index 4432946..620ff06 100644
--- a/extra_src/mex_fftconv_ola.cc
+++ b/extra_src/mex_fftconv_ola.cc
@@ -505,7 +505,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/mex_fftconv_p.cc b/extra_src/mex_fftconv_p.cc
index c533d25..98d88a4 100644
--- a/extra_src/mex_fftconv_p.cc
+++ b/extra_src/mex_fftconv_p.cc
@@ -386,7 +386,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/mex_scirc_sir.cc b/extra_src/mex_scirc_sir.cc
index 1802a2f..ccf2643 100644
--- a/extra_src/mex_scirc_sir.cc
+++ b/extra_src/mex_scirc_sir.cc
@@ -244,7 +244,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/mex_sum_fftconv.cc b/extra_src/mex_sum_fftconv.cc
index 5e4e788..90c2c6a 100644
--- a/extra_src/mex_sum_fftconv.cc
+++ b/extra_src/mex_sum_fftconv.cc
@@ -302,7 +302,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   nthreads = std::thread::hardware_concurrency();
 
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index 86aa470..6993bf5 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -261,7 +261,7 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/oct_circ_sir.cc b/extra_src/oct_circ_sir.cc
index e3dcea1..61b0805 100644
--- a/extra_src/oct_circ_sir.cc
+++ b/extra_src/oct_circ_sir.cc
@@ -311,7 +311,7 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    unsigned int dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index d127a90..c5ce552 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -265,7 +265,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index 43c7668..0671aae 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -259,7 +259,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 7df02f5..3f939e2 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -32,7 +32,7 @@
 #include "dream.h"
 #include "signal_guard.h"
 #include "inplace.h"
-//#include "affinity.h"
+#include "affinity.h"
 #include "fftconv.h"
 
 /***
@@ -566,7 +566,7 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index 062f445..da16955 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -443,7 +443,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   // Read DREAM_NUM_THREADS env var
   if (const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/oct_scirc_sir.cc b/extra_src/oct_scirc_sir.cc
index c1e3a3c..2c90d2e 100644
--- a/extra_src/oct_scirc_sir.cc
+++ b/extra_src/oct_scirc_sir.cc
@@ -28,6 +28,7 @@
 #include <mutex>
 
 #include "scirc_sir.h"
+#include "affinity.h"
 #include "arg_parser.h"
 #include "signal_guard.h"
 
@@ -336,7 +337,7 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index e015876..677f1f7 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -405,7 +405,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   nthreads = std::thread::hardware_concurrency();
 
   if (const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index 94a3f7d..3851c84 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -159,7 +159,7 @@ ErrorLevel RectSir::rect_sir(double *Ro, dream_idx_type No,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    unsigned int dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/include/affinity.h b/include/affinity.h
index 9e64c3b..b707b23 100644
--- a/include/affinity.h
+++ b/include/affinity.h
@@ -23,7 +23,26 @@
 
 #pragma once
 
+#include <cerrno>
+#include <cstdlib>
+#include <thread>
+
 #include "dream.h"
 #include "dream_error.h"
 
+// The number of threads asked for in the DREAM_NUM_THREADS env var. A value that
+// is not a number is ignored (it must not end the session).
+inline dream_idx_type dream_env_threads(const char *env_p, dream_idx_type nthreads)
+{
+  char *end = nullptr;
+  errno = 0;
+  long long n = std::strtoll(env_p, &end, 10);
+
+  if (end == env_p || errno == ERANGE || n > (long long) nthreads) {
+    return nthreads;
+  }
+
+  return n > 0 ? (dream_idx_type) n : 0;
+}
+
 ErrorLevel set_dream_thread_affinity(dream_idx_type thread_n, dream_idx_type nthreads, std::thread *threads);
diff --git a/julia/src/jl_conv_p.cc b/julia/src/jl_conv_p.cc
index 9509720..6a9e147 100644
--- a/julia/src/jl_conv_p.cc
+++ b/julia/src/jl_conv_p.cc
@@ -166,7 +166,7 @@ jl::ArrayRef<double, 2> jl_conv_p(jl::ArrayRef<double, 2> jl_A,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/julia/src/jl_fftconv_p.cc b/julia/src/jl_fftconv_p.cc
index ec16ae5..f49893a 100644
--- a/julia/src/jl_fftconv_p.cc
+++ b/julia/src/jl_fftconv_p.cc
@@ -216,7 +216,7 @@ jl::ArrayRef<double, 2> jl_fftconv_p(jl::ArrayRef<double, 2> jl_A,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index 57c69d9..985736b 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -553,7 +553,7 @@ SIRError ArrAnnu::dream_arr_annu(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dream_arr_circ.cc b/src/dream_arr_circ.cc
index 2580a23..82e0f72 100644
--- a/src/dream_arr_circ.cc
+++ b/src/dream_arr_circ.cc
@@ -344,7 +344,7 @@ SIRError ArrCirc::dream_arr_circ(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dream_arr_cylind.cc b/src/dream_arr_cylind.cc
index 339eaa8..8d23e20 100644
--- a/src/dream_arr_cylind.cc
+++ b/src/dream_arr_cylind.cc
@@ -350,7 +350,7 @@ SIRError ArrCylind::dream_arr_cylind(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dream_arr_rect.cc b/src/dream_arr_rect.cc
index 1990536..35c4523 100644
--- a/src/dream_arr_rect.cc
+++ b/src/dream_arr_rect.cc
@@ -345,7 +345,7 @@ SIRError ArrRect::dream_arr_rect(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dreamcirc.cc b/src/dreamcirc.cc
index 4d08c63..9f6c237 100644
--- a/src/dreamcirc.cc
+++ b/src/dreamcirc.cc
@@ -192,7 +192,7 @@ SIRError Circ::dreamcirc(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dreamcirc_f.cc b/src/dreamcirc_f.cc
index e12d516..4cc1e0a 100644
--- a/src/dreamcirc_f.cc
+++ b/src/dreamcirc_f.cc
@@ -191,7 +191,7 @@ SIRError Circ_f::dreamcirc_f(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dreamcylind.cc b/src/dreamcylind.cc
index 8df6c3f..949e3c6 100644
--- a/src/dreamcylind.cc
+++ b/src/dreamcylind.cc
@@ -189,7 +189,7 @@ SIRError Cylind::dreamcylind(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dreamline.cc b/src/dreamline.cc
index 22c06d0..d5dbb58 100644
--- a/src/dreamline.cc
+++ b/src/dreamline.cc
@@ -177,7 +177,7 @@ SIRError Line::dreamline(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dreamrect.cc b/src/dreamrect.cc
index 585a9fe..b5353ad 100644
--- a/src/dreamrect.cc
+++ b/src/dreamrect.cc
@@ -188,7 +188,7 @@ SIRError Rect::dreamrect(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dreamrect_f.cc b/src/dreamrect_f.cc
index ad21bd8..252567a 100644
--- a/src/dreamrect_f.cc
+++ b/src/dreamrect_f.cc
@@ -190,7 +190,7 @@ SIRError Rect_f::dreamrect_f(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dreamsphere.cc b/src/dreamsphere.cc
index 98596f9..066ab29 100644
--- a/src/dreamsphere.cc
+++ b/src/dreamsphere.cc
@@ -187,7 +187,7 @@ SIRError Sphere::dreamsphere(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = dream_env_threads(env_p, nthreads);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
-- 
2.43.0


From 3b5efc14a89b94990d578f8c94710533de3f36ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:02 +0000
Subject: [PATCH 80/80] fix: CTRL-C does not cancel in hosts that block SIGINT
 (Octave, Julia)

---
 include/signal_guard.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/signal_guard.h b/include/signal_guard.h
index f9f593b..0dd0b0c 100644
--- a/include/signal_guard.h
+++ b/include/signal_guard.h
@@ -44,13 +44,28 @@ public:
 #else
 
   // Use sigaction() so that the flags of the old handler are restored too.
+  //
+  // Octave and Julia block the signal in all threads but one (which waits for it with
+  // sigwait()): it must be unblocked here or the handler will never be called.
   SignalGuard(int signum, void (*handler)(int))
     : m_signum(signum)
     , m_saved(sigaction(signum, nullptr, &m_old_action) == 0) {
     std::signal(signum, handler);
+
+    sigset_t set;
+    sigemptyset(&set);
+    sigaddset(&set, signum);
+    m_unblocked = pthread_sigmask(SIG_UNBLOCK, &set, &m_old_mask) == 0 && sigismember(&m_old_mask, signum) == 1;
   };
 
   ~SignalGuard() {
+    if (m_unblocked) {
+      sigset_t set;
+      sigemptyset(&set);
+      sigaddset(&set, m_signum);
+      pthread_sigmask(SIG_BLOCK, &set, nullptr);
+    }
+
     if (m_saved) {
       sigaction(m_signum, &m_old_action, nullptr);
     }
@@ -69,5 +84,7 @@ private:
 #else
   struct sigaction m_old_action;
   bool m_saved;
+  sigset_t m_old_mask;
+  bool m_unblocked;
 #endif
 };
-- 
2.43.0

