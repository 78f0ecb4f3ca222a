From ca92674090db4c8f5d6d405927c65a411119ec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 01/43] fix: arithmetic on signals keeps the end of the signal
 and its last slope

---
 src/signal_expr.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/signal_expr.cpp b/src/signal_expr.cpp
index 1089e80..77175e3 100644
--- a/src/signal_expr.cpp
+++ b/src/signal_expr.cpp
@@ -27,8 +27,12 @@ double abs_transducer::compute_robustness() {
 			iter++) {
 		double t= (*iter).time;
 		double v = (*iter).value;
-		z.appendSample(t, fabs(v));
+		// slope up to the end of the signal, used by the last sample only
+		double dt = child->z.endTime-t;
+		double d = dt>0. ? (fabs((*iter).valueAt(child->z.endTime))-fabs(v))/dt : 0.;
+		z.appendSample(t, fabs(v), d);
 	}
+	z.endTime = child->z.endTime;
 	return z.front().value;
 }
 
@@ -49,8 +53,11 @@ double plus_transducer::compute_robustness() {
 		double t= (*iterL).time;
 		double vL = (*iterL).value;
 		double vR = (*iterR).value;
-		z.appendSample(t, vL+vR);
+		double dL = (*iterL).derivative;
+		double dR = (*iterR).derivative;
+		z.appendSample(t, vL+vR, dL+dR);
 	}
+	z.endTime = childL->z.endTime;
 	return z.front().value;
 }
 
@@ -67,8 +74,11 @@ double minus_transducer::compute_robustness() {
 		double t= (*iterL).time;
 		double vL = (*iterL).value;
 		double vR = (*iterR).value;
-		z.appendSample(t, vL-vR);
+		double dL = (*iterL).derivative;
+		double dR = (*iterR).derivative;
+		z.appendSample(t, vL-vR, dL-dR);
 	}
+	z.endTime = childL->z.endTime;
 	return z.front().value;
 }
 
@@ -85,8 +95,13 @@ double mult_transducer::compute_robustness() {
 		double t= (*iterL).time;
 		double vL = (*iterL).value;
 		double vR = (*iterR).value;
-		z.appendSample(t, vL*vR);
+		double dL = (*iterL).derivative;
+		double dR = (*iterR).derivative;
+		// slope up to the end of the signal, used by the last sample only
+		double dt = childL->z.endTime-t;
+		z.appendSample(t, vL*vR, vL*dR+vR*dL+dL*dR*dt);
 	}
+	z.endTime = childL->z.endTime;
 	return z.front().value;
 }
 
-- 
2.43.0


From f1dff0ef65d4c44ef870b919a3de5b09840adc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 02/43] fix: eventually no longer truncates the signal of its
 operand

---
 src/transducer.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/transducer.cpp b/src/transducer.cpp
index dae6f67..b5abc76 100755
--- a/src/transducer.cpp
+++ b/src/transducer.cpp
@@ -174,8 +174,6 @@ namespace STLRom {
         
 
         double et = min(z.endTime,end_time);
-        (child->z).resize(et-b, (child->z).endTime, 0.);
-
         z.resize(start_time,max(start_time,et), 0.);
 
 #ifdef DEBUG__
-- 
2.43.0


From 0062ba7dc80f396b6cbbb4f7788c06be72f21c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 03/43] fix: read samples when the evaluation window is before
 time 0

---
 src/stl_atom.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stl_atom.cpp b/src/stl_atom.cpp
index 49ce337..4283c62 100644
--- a/src/stl_atom.cpp
+++ b/src/stl_atom.cpp
@@ -75,7 +75,7 @@ namespace STLRom {
         cout<< "start_time:" << start_time << " end_time:" << end_time << endl;
 #endif
         short i = signal_map[variable];
-        double t=0., v=0.;  
+        double t=start_time, v=0.;  
         double res= 0.;
             
         if (i) {
@@ -117,7 +117,7 @@ namespace STLRom {
                 cout << "Parameter " << param << " not found (?)." << endl;                
         }
 
-        double t=0.;  
+        double t=start_time;  
             
         while ((td_idx <= trace_data_ptr->size()-1) && t<=end_time)   {
             t = (trace_data_ptr->at(td_idx))[0];
-- 
2.43.0


From a30072a110e007590c532abf2056a60eed809383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 04/43] fix: compare the end of the data with the start of the
 window, not with its offset

---
 src/interval_transducer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index e88ce64..591a5e6 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -163,7 +163,7 @@ namespace STLRom {
         if (!get_param(I->end_str,b)) b = I->end;
 
         child->compute_lower_rob();
-        if (child->z_low.endTime < a) {
+        if (child->z_low.endTime < start_time+a) {
             z_low.appendSample(start_time, BOTTOM); 
             return BOTTOM;
         }
@@ -197,7 +197,7 @@ namespace STLRom {
 
         child->compute_upper_rob();
 
-        if (child->z_up.endTime < a) {
+        if (child->z_up.endTime < start_time+a) {
             z_up.appendSample(start_time, TOP); 
             return TOP;
         }
@@ -234,7 +234,7 @@ namespace STLRom {
 
         child->compute_lower_rob();
 
-        if (child->z_low.endTime < a) {
+        if (child->z_low.endTime < start_time+a) {
             z_low.appendSample(start_time,BOTTOM);        
             return BOTTOM;
         }
@@ -268,7 +268,7 @@ namespace STLRom {
         if (!get_param(I->end_str,b)) b = I->end;
 
         child->compute_upper_rob();
-        if (child->z_up.endTime < a) {
+        if (child->z_up.endTime < start_time+a) {
             z_up.appendSample(start_time, TOP); 
             return TOP;
         }
-- 
2.43.0


From f6e3399ae0ebb6b74806b49ac08f92f915f82bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 05/43] fix: the upper bound of an atom without data in its
 window is TOP

---
 src/interval_transducer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index 591a5e6..5acf0e8 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -33,7 +33,7 @@ namespace STLRom {
 #endif
         compute_robustness();
         if (z.endTime < start_time) {
-            z_up.appendSample(start_time, BOTTOM); 
+            z_up.appendSample(start_time, TOP); 
         }
         else
             z_up = z;
-- 
2.43.0


From ca345eb0541e93ab2c37951088c0dad97ff52dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 06/43] fix: do not run off the front of signals reduced to one
 instant

---
 src/robustness.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 7ccd64d..f836fe1 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -204,9 +204,9 @@ void Signal::compute_until(const Signal &x, const Signal &y) {
 	beginTime = fmax(x.beginTime, y.beginTime);
 	endTime = fmin(x.endTime, y.endTime);
 
-	while (i->time >= endTime)
+	while ((i->time >= endTime) && i != x.rend()-1)
 		i++;
-	while (j->time >= endTime)
+	while ((j->time >= endTime) && j != y.rend()-1)
 		j++;
 
 	s = beginTime;
@@ -679,9 +679,9 @@ Signal * computeAnd(Signal * x, Signal * y) {
 	z->beginTime = fmax(x->beginTime, y->beginTime);
 	z->endTime = fmin(x->endTime, y->endTime);
 
-	while (i->time >= z->endTime)
+	while ((i->time >= z->endTime) && i != Signal::const_reverse_iterator(x->rend())-1)
 		i++;
-	while (j->time >= z->endTime)
+	while ((j->time >= z->endTime) && j != Signal::const_reverse_iterator(y->rend())-1)
 		j++;
 
 	computePartialAnd(z, i, j, z->beginTime, z->endTime);
@@ -714,9 +714,9 @@ Signal * computeOr(Signal * x, Signal * y) {
 #endif
 
 
-	while (i->time >= z->endTime)
+	while ((i->time >= z->endTime) && i != Signal::const_reverse_iterator(x->rend())-1)
 		i++;
-	while (j->time >= z->endTime)
+	while ((j->time >= z->endTime) && j != Signal::const_reverse_iterator(y->rend())-1)
 		j++;
 
 
@@ -806,9 +806,9 @@ Signal * computeUntil(Signal * x, Signal * y) {
 	z->beginTime = fmax(x->beginTime, y->beginTime);
 	z->endTime = fmin(x->endTime, y->endTime);
 
-	while (i->time >= z->endTime)
+	while ((i->time >= z->endTime) && i != Signal::const_reverse_iterator(x->rend())-1)
 		i++;
-	while (j->time >= z->endTime)
+	while ((j->time >= z->endTime) && j != Signal::const_reverse_iterator(y->rend())-1)
 		j++;
 
 	s = z->beginTime;
-- 
2.43.0


From 5f03a0c70f9ffbc0a1b3f4ce736f6f7f36f58e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 07/43] fix: until compares its interval with the duration of
 the signals, not with their end time

---
 src/robustness.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index f836fe1..7491701 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -384,12 +384,15 @@ void Signal::compute_timed_until(const Signal& x , const Signal& y, double a, do
 	}
 
 
-	if(b > std::min(y1.endTime, y2.endTime))
+	// a and b are relative to the begin time of the result
+	double duration = std::min(y1.endTime, y2.endTime)-std::max(y1.beginTime, y2.beginTime-a);
+
+	if(b > duration)
 	{
 		if (a==0)
 			yunt = computeUntil(&y1,&y2);
 		else
-			if (a > y1.endTime) {
+			if (a > duration) {
 				yunt = computeGlobally(&y1);
 			}
 			else
-- 
2.43.0


From 7d34ba13569c3c1ba1c781001f50d3a4e8b55aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 08/43] fix: the robustness signal of until covers the
 evaluation window

---
 src/transducer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transducer.cpp b/src/transducer.cpp
index b5abc76..416021a 100755
--- a/src/transducer.cpp
+++ b/src/transducer.cpp
@@ -279,7 +279,8 @@ namespace STLRom {
         childR->compute_robustness();
 
         z.compute_timed_until(childL->z, childR->z, a, b);
-        z.resize(0.,z.endTime,0.);
+        double et = min(z.endTime,end_time);
+        z.resize(start_time,max(start_time,et),0.);
         return z.front().value;
     }
 
-- 
2.43.0


From d7f0edb414bd417cb3ce2291bcdb2d383461e1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 09/43] fix: computeTimedUntil leaked a signal on every call

---
 src/robustness.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 7491701..a2ded75 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -906,8 +906,6 @@ Signal * computeBoundedGlobally(Signal * x, double a) {
 Signal * computeTimedUntil(Signal * x, Signal * y, double a, double b) {
 	Signal *z, *z2, *z3, *z4;
 
-	z = new Signal();
-
 	z2 = computeBoundedEventually(y, b - a);
 
 	z3 = computeUntil(x, y);
-- 
2.43.0


From a51dc56364f3ed131710fb3efd8781fd49dbd3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 10/43] fix: bounds of until on partial data (unsound upper
 bound, missing signals)

---
 src/interval_transducer.cpp | 46 +++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index 5acf0e8..2813832 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -297,8 +297,14 @@ namespace STLRom {
         if (!get_param(I->begin_str,a)) a = I->begin;
         if (!get_param(I->end_str,b)) b = I->end;
         
-        if (childL->compute_lower_rob()==BOTTOM) return BOTTOM;
-        if (childR->compute_lower_rob()==BOTTOM) return BOTTOM;
+        childL->compute_lower_rob();
+        childR->compute_lower_rob();
+
+        // operands not known up to the start of the window
+        if (min(childL->z_low.endTime,childR->z_low.endTime) < start_time+a) {
+            z_low.appendSample(start_time, BOTTOM);
+            return BOTTOM;
+        }
 
         z_low.compute_timed_until(childL->z_low,childR->z_low, a, b);
         double et =min(z_low.endTime,end_time);
@@ -306,10 +312,9 @@ namespace STLRom {
         
         
         if (z_low.empty())
-            return BOTTOM;
-        else
-            return z_low.front().value;
+            z_low.appendSample(start_time, BOTTOM);
 
+        return z_low.front().value;
     }
 
     double until_transducer::compute_upper_rob() {
@@ -318,17 +323,34 @@ namespace STLRom {
         if (!get_param(I->begin_str,a)) a = I->begin;
         if (!get_param(I->end_str,b)) b = I->end;
 
-        if (childL->compute_upper_rob()==TOP) return TOP;
-        if (childR->compute_upper_rob()==TOP) return TOP;
+        childL->compute_upper_rob();
+        childR->compute_upper_rob();
+
+        // After its known part, the right operand can be anything, up to TOP. The left operand too,
+        // but it is enough to hold its last value: until never exceeds the left operand seen so far.
+        Signal x = childL->z_up;
+        Signal y = childR->z_up;
+        if (x.endTime < end_time+b) {
+            if (x.back().time < x.endTime)
+                x.push_back(Sample(x.endTime, x.back().valueAt(x.endTime), 0.));
+            x.back().derivative = 0.;
+            x.endTime = end_time+b;
+        }
+        if (y.endTime < end_time+b) {
+            if (y.back().time >= y.endTime)
+                y.pop_back();
+            y.push_back(Sample(y.endTime, TOP, 0.));
+            y.endTime = end_time+b;
+        }
 
-        z_up.compute_timed_until(childL->z_up,childR->z_up, a, b);
-        double et =min(z_up.endTime-b,end_time);
+        z_up.compute_timed_until(x, y, a, b);
+        double et =min(z_up.endTime,end_time);
         z_up.resize(start_time,max(start_time,et),0.);
 
         if (z_up.empty())
-            return TOP;
-        else
-            return z_up.front().value;
+            z_up.appendSample(start_time, TOP);
+
+        return z_up.front().value;
     }
 
 }
-- 
2.43.0


From 7ca447aba5c41c83e0f2fa2d47d36cc6d3555ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 11/43] fix: sliding windows ending after the signal by a
 rounding error read past its end

---
 src/robustness.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index a2ded75..336ba23 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -444,7 +444,7 @@ void Signal::compute_plateau_max(const Signal &x, double a) {
 	//INIT: read values in [0, a)
 	i = y.begin();
 
-	while (i->time < x.beginTime + a) {
+	while (i != y.end() && i->time < x.beginTime + a) {
 		while (!M.empty() && i->value >= M.back().value) {
 			M.pop_back();
 		}
@@ -454,7 +454,7 @@ void Signal::compute_plateau_max(const Signal &x, double a) {
 		i++;
 	}
 
-	if (i->time == x.beginTime + a)
+	if (i != y.end() && i->time == x.beginTime + a)
 		new_candidate = true;
 	else
 		new_candidate = false;
@@ -563,14 +563,14 @@ void Signal::compute_plateau_min(const Signal &x, double a) {
 
 	//INIT: read values in [0, a)
 	i = y.begin();
-	while (i->time < x.beginTime + a) {
+	while (i != y.end() && i->time < x.beginTime + a) {
 		while (!M.empty() && i->value <= M.back().value) {
 			M.pop_back();
 		}
 		M.push_back(*i);
 		i++;
 	}
-	if (i->time == x.beginTime + a)
+	if (i != y.end() && i->time == x.beginTime + a)
 		new_candidate = true;
 	else
 		new_candidate = false;
@@ -1306,7 +1306,7 @@ Signal * plateauMax(Signal * x, double a) {
 	//INIT: read values in [0, a)
 	i = y.begin();
 
-	while (i->time < x->beginTime + a) {
+	while (i != y.end() && i->time < x->beginTime + a) {
 		while (!M.empty() && i->value >= M.back().value) {
 			M.pop_back();
 		}
@@ -1320,7 +1320,7 @@ Signal * plateauMax(Signal * x, double a) {
 	cout << "M:" << M << endl;
 	#endif
 	
-	if (i->time == x->beginTime + a)
+	if (i != y.end() && i->time == x->beginTime + a)
 		new_candidate = true;
 	else
 		new_candidate = false;
@@ -1478,14 +1478,14 @@ Signal * plateauMin(Signal * x, double a) {
 
 	//INIT: read values in [0, a)
 	i = y.begin();
-	while (i->time < x->beginTime + a) {
+	while (i != y.end() && i->time < x->beginTime + a) {
 		while (!M.empty() && i->value <= M.back().value) {
 			M.pop_back();
 		}
 		M.push_back(*i);
 		i++;
 	}
-	if (i->time == x->beginTime + a)
+	if (i != y.end() && i->time == x->beginTime + a)
 		new_candidate = true;
 	else
 		new_candidate = false;
-- 
2.43.0


From 0363a7a409046c7932431e3ecca53d1a10888113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 12/43] fix: a signal cut inside its last segment keeps the
 slope of that segment

---
 src/signal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal.cpp b/src/signal.cpp
index 7be1ab0..2f435a1 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -180,7 +180,7 @@ namespace STLRom {
             }
             if (empty()) {
                 //			cout << "push empty " << first << endl;
-                push_front(Sample(s, first.valueAt(s), 0));
+                push_front(Sample(s, first.valueAt(s), (s < endTime) ? first.derivative : 0));
                 if (endTime < s)
                     endTime = s;
             }
-- 
2.43.0


From 02b44a1e084f80e388833c96d6701386e7f6ff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:49 +0000
Subject: [PATCH 13/43] fix: rounding errors on times or slopes turned complete
 data into unknown or NaN robustness

---
 src/interval_transducer.cpp | 40 ++++++++++++++++++++++++++++---------
 src/robustness.cpp          | 24 ++++++++++++++--------
 2 files changed, 47 insertions(+), 17 deletions(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index 2813832..ce8750b 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -8,6 +8,28 @@ namespace STLRom {
 
     /* Interval robustness */
 
+    // tolerance on times: rounding errors should not turn complete data into partial data
+    static double time_tol(double t) {
+        return 1e-12*max(1., fabs(t));
+    }
+
+    // end of the part of a bound that is computed with complete data, for a window [a,b] and an operand
+    // whose bound (shifted by -a) ends at z_end
+    static double complete_until(double z_end, double a, double b, double start_time, double end_time) {
+        double et = z_end-b+a;
+        double tol = time_tol(z_end+a);
+        if (et >= end_time-tol)
+            return end_time;
+        if (fabs(et-start_time) <= tol)
+            return start_time;
+        return et;
+    }
+
+    // whether data ending at t_end are missing at time t
+    static bool ends_before(double t_end, double t) {
+        return t_end < t-time_tol(t);
+    }
+
     // default (static): interval robustness is the same as normal robustness, with TOPs and BOTTOMs at
     // the ends 
     double transducer::compute_lower_rob(){
@@ -163,7 +185,7 @@ namespace STLRom {
         if (!get_param(I->end_str,b)) b = I->end;
 
         child->compute_lower_rob();
-        if (child->z_low.endTime < start_time+a) {
+        if (ends_before(child->z_low.endTime, start_time+a)) {
             z_low.appendSample(start_time, BOTTOM); 
             return BOTTOM;
         }
@@ -197,7 +219,7 @@ namespace STLRom {
 
         child->compute_upper_rob();
 
-        if (child->z_up.endTime < start_time+a) {
+        if (ends_before(child->z_up.endTime, start_time+a)) {
             z_up.appendSample(start_time, TOP); 
             return TOP;
         }
@@ -205,7 +227,7 @@ namespace STLRom {
         z_up.compute_timed_eventually(child->z_up, a, b);
 
         // Here we remove values computed with partial data 
-        double et =min(z_up.endTime-b+a,end_time);
+        double et = complete_until(z_up.endTime, a, b, start_time, end_time);
         z_up.resize(start_time,et, 0.);
 
         if (z_up.empty()) 
@@ -234,7 +256,7 @@ namespace STLRom {
 
         child->compute_lower_rob();
 
-        if (child->z_low.endTime < start_time+a) {
+        if (ends_before(child->z_low.endTime, start_time+a)) {
             z_low.appendSample(start_time,BOTTOM);        
             return BOTTOM;
         }
@@ -242,7 +264,7 @@ namespace STLRom {
         z_low.compute_timed_globally(child->z_low, a, b);
 
         // Here we remove values computed with partial data 
-        double et =min(z_low.endTime-b+a,end_time);
+        double et = complete_until(z_low.endTime, a, b, start_time, end_time);
         z_low.resize(start_time,et, 0.);
 	
         if (z_low.empty()) 
@@ -268,7 +290,7 @@ namespace STLRom {
         if (!get_param(I->end_str,b)) b = I->end;
 
         child->compute_upper_rob();
-        if (child->z_up.endTime < start_time+a) {
+        if (ends_before(child->z_up.endTime, start_time+a)) {
             z_up.appendSample(start_time, TOP); 
             return TOP;
         }
@@ -301,7 +323,7 @@ namespace STLRom {
         childR->compute_lower_rob();
 
         // operands not known up to the start of the window
-        if (min(childL->z_low.endTime,childR->z_low.endTime) < start_time+a) {
+        if (ends_before(min(childL->z_low.endTime,childR->z_low.endTime), start_time+a)) {
             z_low.appendSample(start_time, BOTTOM);
             return BOTTOM;
         }
@@ -330,13 +352,13 @@ namespace STLRom {
         // but it is enough to hold its last value: until never exceeds the left operand seen so far.
         Signal x = childL->z_up;
         Signal y = childR->z_up;
-        if (x.endTime < end_time+b) {
+        if (ends_before(x.endTime, end_time+b)) {
             if (x.back().time < x.endTime)
                 x.push_back(Sample(x.endTime, x.back().valueAt(x.endTime), 0.));
             x.back().derivative = 0.;
             x.endTime = end_time+b;
         }
-        if (y.endTime < end_time+b) {
+        if (ends_before(y.endTime, end_time+b)) {
             if (y.back().time >= y.endTime)
                 y.pop_back();
             y.push_back(Sample(y.endTime, TOP, 0.));
diff --git a/src/robustness.cpp b/src/robustness.cpp
index 336ba23..fdf4687 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -930,6 +930,14 @@ Signal * computeTimedUntil(Signal * x, Signal * y, double a, double b) {
  *                         CONJUNCTION SUBROUTINES                           *
  *---------------------------------------------------------------------------*/
 
+//time at which i and j cross in [s,t]; rounding errors can make (almost) parallel segments seem to
+//cross, their intersection would then be undefined or far from [s,t]
+static double crossing(const Sample & i, const Sample & j, double s, double t) {
+	if (i.derivative == j.derivative)
+		return t;
+	return fmin(t, fmax(s, i.timeIntersect(j)));
+}
+
 //PRECONDITIONS: j->time < t, i.time < t.
 //POSTCONDITIONS: j->time <= i.time.
 void computeSegmentAnd(Signal * z, const Sample & i, double t,
@@ -941,7 +949,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 	while (s > i.time) {
 		if (i.valueAt(t) < j->valueAt(t)) {
 			if (i.valueAt(s) > j->value) {
-				t = i.timeIntersect(*j);
+				t = crossing(i, *j, s, t);
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				z->push_front(Sample(s, j->value, j->derivative));
 				continued = false;
@@ -961,7 +969,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 				if (continued) {
 					z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				}
-				t = i.timeIntersect(*j);
+				t = crossing(i, *j, s, t);
 				z->push_front(Sample(t, j->valueAt(t), j->derivative));
 				continued = true;
 			} else {
@@ -984,7 +992,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 	s = i.time;
 	if (i.valueAt(t) < j->valueAt(t)) {
 		if (i.value > j->valueAt(s)) {
-			t = i.timeIntersect(*j);
+			t = crossing(i, *j, s, t);
 			z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			z->push_front(Sample(s, j->valueAt(s), j->derivative));
 		} else {
@@ -1004,7 +1012,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 			if (continued) {
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			}
-			t = i.timeIntersect(*j);
+			t = crossing(i, *j, s, t);
 			z->push_front(Sample(t, j->valueAt(t), j->derivative));
 			z->push_front(i);
 		} else {
@@ -1052,7 +1060,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 	while (s > i.time) {
 		if (i.valueAt(t) > j->valueAt(t)) {
 			if (i.valueAt(s) < j->value) {
-				t = i.timeIntersect(*j);
+				t = crossing(i, *j, s, t);
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				z->push_front(Sample(s, j->value, j->derivative));
 				continued = false;
@@ -1072,7 +1080,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 				if (continued) {
 					z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				}
-				t = i.timeIntersect(*j);
+				t = crossing(i, *j, s, t);
 				z->push_front(Sample(t, j->valueAt(t), j->derivative));
 				continued = true;
 			} else {
@@ -1095,7 +1103,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 	s = i.time;
 	if (i.valueAt(t) > j->valueAt(t)) {
 		if (i.value < j->valueAt(s)) {
-			t = i.timeIntersect(*j);
+			t = crossing(i, *j, s, t);
 			z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			z->push_front(Sample(s, j->valueAt(s), j->derivative));
 		} else {
@@ -1115,7 +1123,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 			if (continued) {
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			}
-			t = i.timeIntersect(*j);
+			t = crossing(i, *j, s, t);
 			z->push_front(Sample(t, j->valueAt(t), j->derivative));
 			z->push_front(i);
 		} else {
-- 
2.43.0


From 44161c2ff2a66d2dc6fcf15b6322f505d42842f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 14/43] fix: simplify dropped or reordered samples when two
 have the same time

---
 src/signal.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/signal.cpp b/src/signal.cpp
index 2f435a1..1a584ea 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -124,14 +124,21 @@ namespace STLRom {
         cout << "IN: " << *this << endl;
 #endif
 
-        push_back(front());
+        if (empty())
+            return;
+
+        std::deque<Sample> s;
+        s.push_back(front());
         pop_front();
-        while (front().time != beginTime) {
-            if( back().valueAt(front().time) != front().value || back().derivative != front().derivative ) {
-                push_back(front());
+        while (!empty()) {
+            if (front().time == s.back().time) // of several samples at the same time the last one counts
+                s.back() = front();
+            else if( s.back().valueAt(front().time) != front().value || s.back().derivative != front().derivative ) {
+                s.push_back(front());
             }
             pop_front();
         }
+        swap(s);
 
         // check last sample
         if (back().time < endTime)
-- 
2.43.0


From 53ceb281e1ae325058ca3654e4507b0a06f6f72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 15/43] fix: more rounding errors on the ends of windows

---
 src/interval_transducer.cpp | 2 +-
 src/robustness.cpp          | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index ce8750b..92a7c31 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -19,7 +19,7 @@ namespace STLRom {
         double et = z_end-b+a;
         double tol = time_tol(z_end+a);
         if (et >= end_time-tol)
-            return end_time;
+            return max(start_time, min(end_time, z_end));
         if (fabs(et-start_time) <= tol)
             return start_time;
         return et;
diff --git a/src/robustness.cpp b/src/robustness.cpp
index fdf4687..fc02ceb 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -387,6 +387,11 @@ void Signal::compute_timed_until(const Signal& x , const Signal& y, double a, do
 	// a and b are relative to the begin time of the result
 	double duration = std::min(y1.endTime, y2.endTime)-std::max(y1.beginTime, y2.beginTime-a);
 
+	// an interval does not exceed the duration because of a rounding error
+	double tol = 1e-12*std::max(1., fabs(y1.endTime));
+	if (fabs(a-duration) <= tol) a = duration;
+	if (fabs(b-duration) <= tol) b = duration;
+
 	if(b > duration)
 	{
 		if (a==0)
-- 
2.43.0


From c129c31e56754cae2962caf971056da6317e8059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 16/43] fix: resize overwrote the value of a signal reduced to
 one instant

---
 src/signal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/signal.cpp b/src/signal.cpp
index 1a584ea..bdaa604 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -188,8 +188,6 @@ namespace STLRom {
             if (empty()) {
                 //			cout << "push empty " << first << endl;
                 push_front(Sample(s, first.valueAt(s), (s < endTime) ? first.derivative : 0));
-                if (endTime < s)
-                    endTime = s;
             }
             else {
                 if (front().time > s)  {
@@ -198,6 +196,8 @@ namespace STLRom {
                 }
             }
         }
+        if (endTime < s)
+            endTime = s;
         //trim or extend back of signal
         if(endTime < t) {
             //		cout << "push_back here" << endl;
-- 
2.43.0


From 0248d5f6d94684265ce9387959cb21c531774c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:34 +0000
Subject: [PATCH 17/43] fix: time robustness of a signal reduced to one
 instant, rising from zero, or past its last change

---
 src/robustness.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index fc02ceb..9eedb61 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -40,7 +40,7 @@ void Signal::compute_boolean(const Signal &y) {
 		}
 		else {
 			push_back(Sample(i->time, 0. , 0.));
-			if ((v<0.)&&(d>0.)) {
+			if (d>0.) {
 				double t_zero_cross = i->time-v/d;
 				if (t_zero_cross < next_time) 
 					push_back(Sample(t_zero_cross, 1. , 0));
@@ -48,7 +48,7 @@ void Signal::compute_boolean(const Signal &y) {
 		}
 	}
 	simplify();
-	if (!empty() && back().time == endTime) {
+	if (size() > 1 && back().time == endTime) {
 		pop_back();
 	}
 }
@@ -90,7 +90,7 @@ void Signal::compute_right_time_rob(const Signal &y) {
 		double next_time;
 		auto next_i = std::next(i);
 		
-		if (next_i == y.end())
+		if (next_i == y_bool.end())
 			next_time = endTime;
 		else 
 			next_time = next_i->time;
-- 
2.43.0


From b53f9c8e941276bc45d43fa819f49c2115b218da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:33 +0000
Subject: [PATCH 18/43] fix: values at the end of windows, where signals may
 jump, and until bounds after the known data

---
 src/interval_transducer.cpp |  3 ++-
 src/robustness.cpp          | 25 ++++++++++++++++++++++++-
 src/signal.cpp              |  4 +++-
 3 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index 92a7c31..8b095b6 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -366,7 +366,8 @@ namespace STLRom {
         }
 
         z_up.compute_timed_until(x, y, a, b);
-        double et =min(z_up.endTime,end_time);
+        // that bound does not hold at times after the known part of the left operand
+        double et =min(min(z_up.endTime,childL->z_up.endTime),end_time);
         z_up.resize(start_time,max(start_time,et),0.);
 
         if (z_up.empty())
diff --git a/src/robustness.cpp b/src/robustness.cpp
index 9eedb61..d02ec07 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -48,7 +48,8 @@ void Signal::compute_boolean(const Signal &y) {
 		}
 	}
 	simplify();
-	if (size() > 1 && back().time == endTime) {
+	// the sample at endTime matters only if it is a change
+	if (size() > 1 && back().time == endTime && back().value == (*this)[size()-2].value) {
 		pop_back();
 	}
 }
@@ -114,6 +115,20 @@ void Signal::compute_not(const Signal &y) {
 	}
 }
 
+// The pointwise and until algorithms below work on segments [s,t); their operands may have a
+// discontinuity at the end of the last one.
+static double end_value(const Signal &x, double t) {
+	Signal::const_reverse_iterator i = x.rbegin();
+	while (i->time > t && i != x.rend()-1)
+		i++;
+	return i->valueAt(t);
+}
+
+static void set_end_value(Signal *z, double v) {
+	if (!z->empty() && z->back().time == z->endTime)
+		z->back().value = v;
+}
+
 void Signal::compute_and(const Signal &x, const Signal &y) {
 
 	clear();
@@ -130,6 +145,7 @@ void Signal::compute_and(const Signal &x, const Signal &y) {
 
 	computePartialAnd(this, i, j, this->beginTime, this->endTime);
 	simplify();
+	set_end_value(this, fmin(end_value(x, endTime), end_value(y, endTime)));
 
 }
 
@@ -149,6 +165,7 @@ void Signal::compute_or(const Signal &x, const Signal &y) {
 
 	computePartialOr(this, i, j, beginTime, endTime);
 	simplify();
+	set_end_value(this, fmax(end_value(x, endTime), end_value(y, endTime)));
 
 }
 
@@ -211,6 +228,7 @@ void Signal::compute_until(const Signal &x, const Signal &y) {
 
 	s = beginTime;
 	t = endTime;
+	z_max = fmin(end_value(x, t), end_value(y, t));
 
 	while (i->time > s) {
 
@@ -230,6 +248,7 @@ void Signal::compute_until(const Signal &x, const Signal &y) {
 				z_max);
 
 	simplify();
+	set_end_value(this, fmin(end_value(x, endTime), end_value(y, endTime)));
 
 #ifdef DEBUG__
 	cout << "<<<Signal::compute_until                      OUT" << endl;
@@ -694,6 +713,7 @@ Signal * computeAnd(Signal * x, Signal * y) {
 
 	computePartialAnd(z, i, j, z->beginTime, z->endTime);
 	z->simplify();
+	set_end_value(z, fmin(end_value(*x, z->endTime), end_value(*y, z->endTime)));
 
 	return z;
 }
@@ -735,6 +755,7 @@ Signal * computeOr(Signal * x, Signal * y) {
 
 	computePartialOr(z, i, j, z->beginTime, z->endTime);
 	z->simplify();
+	set_end_value(z, fmax(end_value(*x, z->endTime), end_value(*y, z->endTime)));
 
 #ifdef DEBUG__
 	cout << "<  computeOr:                                 OUT." << endl;
@@ -821,6 +842,7 @@ Signal * computeUntil(Signal * x, Signal * y) {
 
 	s = z->beginTime;
 	t = z->endTime;
+	z_max = fmin(end_value(*x, t), end_value(*y, t));
 
 	while (i->time > s) {
 
@@ -840,6 +862,7 @@ Signal * computeUntil(Signal * x, Signal * y) {
 				z_max);
 
 	z->simplify();
+	set_end_value(z, fmin(end_value(*x, z->endTime), end_value(*y, z->endTime)));
 
 #ifdef DEBUG__
 	cout << "<  computeUntil:                              OUT." << endl;
diff --git a/src/signal.cpp b/src/signal.cpp
index bdaa604..3f08b36 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -131,7 +131,9 @@ namespace STLRom {
         s.push_back(front());
         pop_front();
         while (!empty()) {
-            if (front().time == s.back().time) // of several samples at the same time the last one counts
+            if (front().time == s.back().time && s.size() > 1) // of several samples at the same time the last one counts
+                s.pop_back();
+            if (front().time == s.back().time)
                 s.back() = front();
             else if( s.back().valueAt(front().time) != front().value || s.back().derivative != front().derivative ) {
                 s.push_back(front());
-- 
2.43.0


From fafbed29695742b5d61bb23ecff3dae0b1772509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 19/43] fix: eventually/until as methods kept the previous
 content, bounded operators ignored their operand, empty operands

---
 src/robustness.cpp | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index d02ec07..8d07a51 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -132,6 +132,8 @@ static void set_end_value(Signal *z, double v) {
 void Signal::compute_and(const Signal &x, const Signal &y) {
 
 	clear();
+	if (x.empty() || y.empty())
+		return;
 	auto i = x.rbegin();
 	auto j = y.rbegin();
 
@@ -152,6 +154,8 @@ void Signal::compute_and(const Signal &x, const Signal &y) {
 void Signal::compute_or(const Signal &x, const Signal &y) {
 
 	clear();
+	if (x.empty() || y.empty())
+		return;
 	Signal::const_reverse_iterator i = x.rbegin();
 	Signal::const_reverse_iterator j = y.rbegin();
 
@@ -180,6 +184,9 @@ void Signal::compute_implies(const Signal &x, const Signal &y) {
 
 void Signal::compute_eventually(const Signal &x) {
 
+	clear();
+	if (x.empty())
+		return;
 	beginTime = x.beginTime;
 	endTime = x.endTime;
 	Signal::const_reverse_iterator i = x.rbegin();
@@ -212,6 +219,7 @@ void Signal::compute_until(const Signal &x, const Signal &y) {
 		return;
 	}
 
+	clear();
 	double s, t;
 	double z_max = BOTTOM;
 
@@ -267,15 +275,7 @@ void Signal::compute_bounded_eventually(const Signal& x, double a) {
 		return;
 	}
 
-	Signal z1, z2, z3;
-
-	z1.compute_plateau_max(x, a);
-	z2.resize(x.beginTime + a, x.endTime + a, BOTTOM);
-	z2.shift(-a);
-	z3.compute_or(z2, z1);
-
-	compute_or(x, z3);
-	simplify();
+	compute_timed_eventually(x, 0, a);
 
   #ifdef DEBUG__
 	cout << "<  Signal::compute_bounded_eventually         OUT." << endl;
@@ -335,15 +335,7 @@ void Signal::compute_bounded_globally(const Signal& x, double a) {
 		return;
 	}
 
-	Signal z1, z2, z3;
-
-	z1.compute_plateau_min(x, a);
-	z2.resize(x.beginTime + a, x.endTime + a, TOP);
-	z2.shift(-a);
-	z3.compute_and(z2, z1);
-
-	compute_and(x, z3);
-	simplify();
+	compute_timed_globally(x, 0, a);
 
 }
 
-- 
2.43.0


From 04c58bce47c0c5908e9b1ab3b78654f9d26d0d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:34 +0000
Subject: [PATCH 20/43] fix: eventually misplaced the time at which a segment
 falls below later values when it starts before the window

---
 src/robustness.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 8d07a51..148ceb9 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -1245,7 +1245,7 @@ void computePartialEventually(Signal* z, Signal::const_reverse_iterator & i, dou
 	} else if (z_max >= i->valueAt(s)) {
 		z->push_front(Sample(s, z_max, 0));
 	} else {
-		z->push_front(Sample(s + (z_max - i->value) / i->derivative, z_max, 0)); //time at which y reaches value next_z
+		z->push_front(Sample(i->time + (z_max - i->value) / i->derivative, z_max, 0)); //time at which y reaches value next_z
 		z->push_front(Sample(s, i->valueAt(s), i->derivative));
 	}
 
-- 
2.43.0


From d2e0df36b189e5b9d5fd85e2a0b25a86fbee1e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 21/43] fix: rounding errors put samples of eventually after
 the end of their segment

---
 src/robustness.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 148ceb9..5ab3493 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -1216,7 +1216,7 @@ void computePartialEventually(Signal* z, Signal::const_reverse_iterator & i, dou
 			//z->push_front(Sample(i->time, z_max, 0));
 		} else {
 			z->push_front(
-					Sample(i->time + (z_max - i->value) / i->derivative, z_max,
+					Sample(fmin(t, i->time + (z_max - i->value) / i->derivative), z_max,
 							0)); //time at which y reaches value next_z
 			z->push_front(*i);
 			z_max = i->value;
@@ -1245,7 +1245,7 @@ void computePartialEventually(Signal* z, Signal::const_reverse_iterator & i, dou
 	} else if (z_max >= i->valueAt(s)) {
 		z->push_front(Sample(s, z_max, 0));
 	} else {
-		z->push_front(Sample(i->time + (z_max - i->value) / i->derivative, z_max, 0)); //time at which y reaches value next_z
+		z->push_front(Sample(fmin(t, fmax(s, i->time + (z_max - i->value) / i->derivative)), z_max, 0)); //time at which y reaches value next_z
 		z->push_front(Sample(s, i->valueAt(s), i->derivative));
 	}
 
-- 
2.43.0


From 27145a09b5977c92db70f9f18da66cc6fdadf716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:25 +0000
Subject: [PATCH 22/43] fix: add_sample accepted a sample whose time is not a
 number

---
 src/stl_driver.cpp  | 2 +-
 src/stl_monitor.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index d5bd812..9780625 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -464,7 +464,7 @@ namespace STLRom
 		{
 			throw std::invalid_argument("Sample size does not match the number of signals.");
 		}
-		if (!data.empty() && s[0] <= data.back()[0])
+		if (!data.empty() && !(s[0] > data.back()[0]))
 		{
 			throw std::invalid_argument("Sample time must be strictly greater than the last sample time.");
 		}
diff --git a/src/stl_monitor.cpp b/src/stl_monitor.cpp
index 3769d2c..326fc3a 100644
--- a/src/stl_monitor.cpp
+++ b/src/stl_monitor.cpp
@@ -18,7 +18,7 @@ namespace STLRom
 		{
 			throw std::invalid_argument("Sample size does not match the number of signals.");
 		}
-		if (!data.empty() && s[0] <= data.back()[0])
+		if (!data.empty() && !(s[0] > data.back()[0]))
 		{
 			throw std::invalid_argument("Sample time must be strictly greater than the last sample time.");
 		}
-- 
2.43.0


From 125112aeec7fe062b7b7b8a8e89780967a55fe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:43 +0000
Subject: [PATCH 23/43] fix: get_BigM truncated the bound to an integer

---
 include/signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/signal.h b/include/signal.h
index bd2639d..114a834 100644
--- a/include/signal.h
+++ b/include/signal.h
@@ -136,7 +136,7 @@ public:
 		BigM=val;
 	}
 
-	inline static int get_BigM(){
+	inline static double get_BigM(){
 		return BigM;
 	}
 
-- 
2.43.0


From ba66350a9b8abeedeaabdc4dda553a023957a6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:46 +0000
Subject: [PATCH 24/43] fix: products bind tighter than sums and differences in
 signal expressions

---
 include/stl_parser.h |  2 +-
 src/stl_parser.cpp   | 88 ++++++++++++++++++++++----------------------
 src/stl_parser.ypp   |  6 +--
 3 files changed, 48 insertions(+), 48 deletions(-)

diff --git a/include/stl_parser.h b/include/stl_parser.h
index 3818c79..25b881e 100644
--- a/include/stl_parser.h
+++ b/include/stl_parser.h
@@ -506,7 +506,7 @@ namespace STLRom {
     enum
     {
       yyeof_ = 0,
-      yylast_ = 136,     ///< Last index in yytable_.
+      yylast_ = 134,     ///< Last index in yytable_.
       yynnts_ = 29,  ///< Number of nonterminal symbols.
       yyfinal_ = 22, ///< Termination state number.
       yyterror_ = 1,
diff --git a/src/stl_parser.cpp b/src/stl_parser.cpp
index 6d20775..2bad371 100644
--- a/src/stl_parser.cpp
+++ b/src/stl_parser.cpp
@@ -1526,20 +1526,20 @@ namespace STLRom {
   const signed char
   Parser::yypact_[] =
   {
-     -16,    -4,    38,   -20,    41,   -84,    28,   -84,   -84,   -84,
-       2,    26,    48,   -84,    75,   -84,   -84,   -84,    83,    54,
-      25,    12,   -84,   -84,   -84,   -84,    71,    72,    -4,    38,
-      67,    25,    25,   101,   101,   100,   -84,   -84,   -84,   103,
-     -84,   -84,   -84,   -84,   -84,    74,    27,   -84,    78,   102,
-     102,   -84,   -19,   -84,   -84,   -84,   -84,    91,    45,    64,
-      10,    47,    25,    25,    35,    93,    19,    19,    19,   -84,
-     -84,    35,    25,    25,    25,   101,    30,    73,   -84,   -84,
-     -84,    80,   -84,   -84,   -84,   -84,   -11,   -84,   -84,    35,
-     105,   109,   -84,   -84,   -84,   -84,     0,     0,     0,    25,
-      76,    77,   -84,     1,    25,    99,    47,   113,   112,   -84,
-     -84,   -84,    89,    90,   -84,    30,    70,    56,   117,   -84,
-     -84,   -84,   -84,    86,   -84,   -84,   -84,   -84,   106,    88,
-     108,    56,    87,   -84
+     -16,     3,    19,   -20,    10,   -84,   -17,   -84,   -84,   -84,
+       2,     9,    23,   -84,    47,   -84,   -84,   -84,    50,    44,
+      25,    41,   -84,   -84,   -84,   -84,    56,    58,     3,    19,
+      62,    25,    25,    94,    94,    95,   -84,   -84,   -84,    96,
+     -84,   -84,   -84,   -84,    79,    69,    75,   -84,    68,    97,
+      97,   -84,   -19,   -84,   -84,   -84,   -84,    86,    18,    39,
+      48,    61,    25,    25,    35,    88,    35,    35,    35,   -84,
+     -84,    35,    25,    25,    25,    94,    54,    67,   -84,   -84,
+     -84,    77,   -84,   -84,   -84,   -84,   -11,   -84,   -84,    35,
+      99,   104,   -84,    79,    79,   -84,     0,     0,     0,    25,
+      71,    72,   -84,     1,    25,    98,    61,   107,   106,   -84,
+     -84,   -84,    83,    84,   -84,    54,    60,    66,   112,   -84,
+     -84,   -84,   -84,    81,   -84,   -84,   -84,   -84,   101,    85,
+     102,    66,    80,   -84
   };
 
   const unsigned char
@@ -1554,7 +1554,7 @@ namespace STLRom {
       24,     0,     0,     0,     0,     0,     0,     0,     0,    19,
       20,     0,     0,     0,     0,     0,     0,     0,    55,    58,
       56,     0,     9,    31,     2,     3,     0,    29,    28,     0,
-       0,     0,    15,    16,    13,    18,    25,    26,    27,     0,
+       0,     0,    13,    15,    16,    18,    25,    26,    27,     0,
        0,     0,    45,     0,     0,     0,     0,     0,     0,    11,
        6,    30,     0,     0,    48,     0,     0,     0,     0,    22,
       43,    44,    46,     0,    36,    37,    35,    21,     0,     0,
@@ -1564,9 +1564,9 @@ namespace STLRom {
   const signed char
   Parser::yypgoto_[] =
   {
-     -84,   -83,   -84,   -84,    31,   -84,   -84,   -84,   -27,   -84,
-     -84,   -29,   -31,   116,   -84,    -3,   104,   -84,   119,    15,
-     -84,    81,   107,   -84,   -84,    82,   -84,   123,   -84
+     -84,   -83,   -84,   -84,   -84,    57,    28,   -84,   -27,   -84,
+     -84,   -29,   -31,   114,   -84,    -9,   100,   -84,   115,    11,
+     -84,    82,   105,   -84,   -84,    78,   -84,   117,   -84
   };
 
   const signed char
@@ -1582,18 +1582,18 @@ namespace STLRom {
   {
       59,    60,    22,   107,    58,    63,   106,   114,     1,     2,
        3,    73,    74,    19,    49,    75,    50,     4,   115,    84,
-      85,    79,    74,   118,    89,    75,     1,    11,     3,    12,
-      31,    87,    88,    32,    69,     4,    70,    90,    33,    34,
-      89,    96,    97,    98,    95,    49,    99,    50,    35,    36,
-      37,    82,    69,    39,    70,    36,    37,    38,    35,    39,
-      20,   100,   108,   101,    26,    36,    37,    21,   111,    39,
-      83,    15,    16,   116,    72,    73,    74,    84,    85,    75,
-      72,    73,    74,   124,   125,    75,    27,   123,    72,    73,
-      74,    30,    28,    75,    66,    67,    68,    92,    93,    94,
-      29,    53,    54,    57,    61,    64,    65,    76,    81,    91,
-     105,   109,   104,   110,   112,   113,   117,   119,    82,   120,
-     121,   127,   128,   129,   130,   131,    23,   133,   132,    24,
-     122,    78,    55,    25,    80,     0,    56
+      85,    79,    21,   118,    82,    69,     1,    70,     3,    20,
+      31,    87,    88,    32,    11,     4,    12,    90,    33,    34,
+      89,    96,    97,    98,    95,    83,    99,    26,    35,    72,
+      73,    74,    15,    16,    75,    36,    37,    38,    35,    39,
+      74,    27,   108,    75,    28,    36,    37,    29,   111,    39,
+      72,    73,    74,   116,    49,    75,    50,   123,    72,    73,
+      74,    30,    69,    75,    70,   100,    53,   101,    54,    67,
+      68,    84,    85,   124,   125,    93,    94,    61,    57,    65,
+      64,    66,    76,    81,    91,   109,   104,   105,   110,   112,
+     113,   119,    82,   120,   121,   117,   127,   128,   129,   131,
+     133,   130,   132,    92,    23,    24,   122,    25,    55,     0,
+      80,     0,    78,     0,    56
   };
 
   const short int
@@ -1601,18 +1601,18 @@ namespace STLRom {
   {
       31,    32,     0,    86,    31,    34,    17,     6,    24,    25,
       26,    11,    12,    33,    33,    15,    35,    33,    17,    30,
-      31,    40,    12,   106,     5,    15,    24,    31,    26,    33,
-       5,    62,    63,     8,     7,    33,     9,    64,    13,    14,
-       5,    72,    73,    74,    71,    33,    75,    35,    23,    30,
-      31,     6,     7,    34,     9,    30,    31,    32,    23,    34,
-      19,    31,    89,    33,    38,    30,    31,    39,    99,    34,
-       6,    33,    34,   104,    10,    11,    12,    30,    31,    15,
-      10,    11,    12,    27,    28,    15,    38,    17,    10,    11,
-      12,    37,    17,    15,    20,    21,    22,    66,    67,    68,
-      17,    30,    30,    36,     3,     5,     3,     5,    17,    16,
-      30,     6,    39,     4,    38,    38,    17,     4,     6,    30,
-      30,     4,    36,    17,    36,    17,    10,    40,   131,    10,
-     115,    50,    28,    10,    52,    -1,    29
+      31,    40,    39,   106,     6,     7,    24,     9,    26,    19,
+       5,    62,    63,     8,    31,    33,    33,    64,    13,    14,
+       5,    72,    73,    74,    71,     6,    75,    38,    23,    10,
+      11,    12,    33,    34,    15,    30,    31,    32,    23,    34,
+      12,    38,    89,    15,    17,    30,    31,    17,    99,    34,
+      10,    11,    12,   104,    33,    15,    35,    17,    10,    11,
+      12,    37,     7,    15,     9,    31,    30,    33,    30,    20,
+      21,    30,    31,    27,    28,    67,    68,     3,    36,     3,
+       5,    22,     5,    17,    16,     6,    39,    30,     4,    38,
+      38,     4,     6,    30,    30,    17,     4,    36,    17,    17,
+      40,    36,   131,    66,    10,    10,   115,    10,    28,    -1,
+      52,    -1,    50,    -1,    29
   };
 
   const unsigned char
@@ -1624,10 +1624,10 @@ namespace STLRom {
       37,     5,     8,    13,    14,    23,    30,    31,    32,    34,
       43,    44,    45,    46,    47,    48,    49,    50,    53,    33,
       35,    66,    67,    30,    30,    57,    63,    36,    49,    53,
-      53,     3,    52,    52,     5,     3,    20,    21,    22,     7,
+      53,     3,    52,    52,     5,     3,    22,    20,    21,     7,
        9,    51,    10,    11,    12,    15,     5,    62,    62,    40,
       66,    17,     6,     6,    30,    31,    42,    53,    53,     5,
-      49,    16,    45,    45,    45,    49,    53,    53,    53,    52,
+      49,    16,    46,    47,    47,    49,    53,    53,    53,    52,
       31,    33,    60,    61,    39,    30,    17,    42,    49,     6,
        4,    53,    38,    38,     6,    17,    53,    17,    42,     4,
       30,    30,    60,    17,    27,    28,    56,     4,    36,    17,
diff --git a/src/stl_parser.ypp b/src/stl_parser.ypp
index 259d78f..4652756 100644
--- a/src/stl_parser.ypp
+++ b/src/stl_parser.ypp
@@ -228,7 +228,7 @@ signal_multexpr : signal_unaryexpr
         {
 	      $$ = $1;
 	    }
-        | signal_addexpr MULT signal_atom
+        | signal_multexpr MULT signal_unaryexpr
           {
 	      $$ = new mult_transducer($1, $3);
           $$->trace_data_ptr = &driver.data;
@@ -241,7 +241,7 @@ signal_addexpr : signal_multexpr
         {
 	      $$ = $1;
 	    }
-        | signal_addexpr PLUS signal_atom
+        | signal_addexpr PLUS signal_multexpr
           {
 	      $$ = new plus_transducer($1, $3);
           $$->trace_data_ptr = &driver.data;
@@ -249,7 +249,7 @@ signal_addexpr : signal_multexpr
           $$->signal_map = driver.signal_map;
 
           }
-        | signal_addexpr MINUS signal_atom
+        | signal_addexpr MINUS signal_multexpr
           {
 	      $$ = new minus_transducer($1, $3);
           $$->trace_data_ptr = &driver.data;
-- 
2.43.0


From 0834a498001700d48b5c774479c93a3090c5239f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:11 +0000
Subject: [PATCH 25/43] fix: the parser leaked comparison operators, constants,
 local parameters and test formulas

---
 src/stl_parser.cpp | 50 ++++++++++++++++++++++++++++++++++++++++++++--
 src/stl_parser.ypp | 14 +++++++++++--
 2 files changed, 60 insertions(+), 4 deletions(-)

diff --git a/src/stl_parser.cpp b/src/stl_parser.cpp
index 2bad371..88d71b3 100644
--- a/src/stl_parser.cpp
+++ b/src/stl_parser.cpp
@@ -411,7 +411,13 @@ namespace STLRom {
     // User destructor.
     switch (yysym.type_get ())
     {
-            case 31: // "param_id"
+            case 30: // "constant"
+
+#line 129 "stl_parser.ypp" // lalr1.cc:617
+        { delete (yysym.value.stringVal); }
+        break;
+
+      case 31: // "param_id"
 
 #line 129 "stl_parser.ypp" // lalr1.cc:617
         { delete (yysym.value.stringVal); }
@@ -453,6 +459,12 @@ namespace STLRom {
 #line 454 "stl_parser.cpp" // lalr1.cc:617
         break;
 
+      case 42: // constant
+
+#line 129 "stl_parser.ypp" // lalr1.cc:617
+        { delete (yysym.value.stringVal); }
+        break;
+
       case 43: // constant_signal
 
 #line 132 "stl_parser.ypp" // lalr1.cc:617
@@ -509,6 +521,12 @@ namespace STLRom {
 #line 510 "stl_parser.cpp" // lalr1.cc:617
         break;
 
+      case 51: // op
+
+#line 129 "stl_parser.ypp" // lalr1.cc:617
+        { delete (yysym.value.stringVal); }
+        break;
+
       case 52: // interval
 
 #line 130 "stl_parser.ypp" // lalr1.cc:617
@@ -524,6 +542,25 @@ namespace STLRom {
         break;
 
 
+      case 60: // local_param_assignement
+
+#line 133 "stl_parser.ypp" // lalr1.cc:617
+        { delete (yysym.value.param_map_ptr); }
+        break;
+
+      case 61: // local_param_assignement_list
+
+#line 133 "stl_parser.ypp" // lalr1.cc:617
+        { delete (yysym.value.param_map_ptr); }
+        break;
+
+      case 62: // local_param_assignements
+
+#line 133 "stl_parser.ypp" // lalr1.cc:617
+        { delete (yysym.value.param_map_ptr); }
+        break;
+
+
       default:
         break;
     }
@@ -819,6 +856,7 @@ namespace STLRom {
                 cout << "Parsing error: unknown signal " << *(yystack_[3].value.stringVal) << endl;
                 delete (yylhs.value.transducer_ptr);
                 (yylhs.value.transducer_ptr) = nullptr;
+                delete (yystack_[3].value.stringVal);
                 YYERROR;
             }
             delete (yystack_[3].value.stringVal);
@@ -937,6 +975,7 @@ namespace STLRom {
               (yylhs.value.transducer_ptr)->trace_data_ptr = &driver.data;
               (yylhs.value.transducer_ptr)->param_map = driver.param_map;
               (yylhs.value.transducer_ptr)->signal_map = driver.signal_map;
+              delete (yystack_[1].value.stringVal);
           }
 #line 942 "stl_parser.cpp" // lalr1.cc:859
     break;
@@ -1082,6 +1121,7 @@ namespace STLRom {
                  if (ref==nullptr) {
                      cout << "Parsing error: unknown identifier " << *(yystack_[0].value.stringVal) << endl;
                      (yylhs.value.transducer_ptr) = nullptr;
+                     delete (yystack_[0].value.stringVal);
                      YYERROR;
                  }
                  else {
@@ -1096,7 +1136,9 @@ namespace STLRom {
   case 33:
 #line 379 "stl_parser.ypp" // lalr1.cc:859
     {
-                driver.formula_map[*(yystack_[2].value.stringVal)] = (yystack_[0].value.transducer_ptr);
+                transducer *&phi = driver.formula_map[*(yystack_[2].value.stringVal)];
+                delete phi;
+                phi = (yystack_[0].value.transducer_ptr);
                 delete (yystack_[2].value.stringVal);
             }
 #line 1103 "stl_parser.cpp" // lalr1.cc:859
@@ -1108,6 +1150,7 @@ namespace STLRom {
              double x;
              driver.add_trace_test(*(yystack_[2].value.stringVal), *(yystack_[0].value.stringVal), 0., false);
              delete (yystack_[2].value.stringVal);
+             delete (yystack_[0].value.stringVal);
          }
 #line 1113 "stl_parser.cpp" // lalr1.cc:859
     break;
@@ -1199,6 +1242,8 @@ namespace STLRom {
     (yylhs.value.param_map_ptr) = new map<string,double>(*(yystack_[2].value.param_map_ptr));
     auto elem = (yystack_[0].value.param_map_ptr)->begin();
     (*(yylhs.value.param_map_ptr))[elem->first] = elem->second;
+    delete (yystack_[2].value.param_map_ptr);
+    delete (yystack_[0].value.param_map_ptr);
 }
 #line 1204 "stl_parser.cpp" // lalr1.cc:859
     break;
@@ -1243,6 +1288,7 @@ namespace STLRom {
             driver.add_stl_test(*(yystack_[10].value.stringVal), *(yystack_[9].value.param_map_ptr), (yystack_[7].value.transducer_ptr), *(yystack_[5].value.stringVal), *(yystack_[3].value.stringVal), (yystack_[1].value.boolVal) );
             delete (yystack_[10].value.stringVal);
             delete (yystack_[9].value.param_map_ptr);
+            delete (yystack_[7].value.transducer_ptr);
             delete (yystack_[5].value.stringVal);
             delete (yystack_[3].value.stringVal);
         }
diff --git a/src/stl_parser.ypp b/src/stl_parser.ypp
index 4652756..051b4b3 100644
--- a/src/stl_parser.ypp
+++ b/src/stl_parser.ypp
@@ -126,10 +126,11 @@ using namespace STLRom;
 %type <boolVal>        boolean
 %type <param_map_ptr>  local_param_assignements local_param_assignement_list local_param_assignement
 
-%destructor { delete $$; } STRING PARAM_ID PHI_ID NEW_ID SIGNAL_ID STL_TEST_ID
+%destructor { delete $$; } STRING CONSTANT constant op PARAM_ID PHI_ID NEW_ID SIGNAL_ID STL_TEST_ID
 %destructor { delete $$; } interval
 %destructor { delete $$; } stl_atom stl_formula signal signal_atom
 %destructor { delete $$; } signal_expr constant_signal signal_addexpr signal_multexpr signal_unaryexpr
+%destructor { delete $$; } local_param_assignements local_param_assignement_list local_param_assignement
 
  /*** END STL TOKENS/TYPES ***/
 
@@ -190,6 +191,7 @@ signal: SIGNAL_ID LINT TIME RINT
                 cout << "Parsing error: unknown signal " << *$1 << endl;
                 delete $$;
                 $$ = nullptr;
+                delete $1;
                 YYERROR;
             }
             delete $1;
@@ -270,6 +272,7 @@ stl_atom : signal_expr op signal_expr
               $$->trace_data_ptr = &driver.data;
               $$->param_map = driver.param_map;
               $$->signal_map = driver.signal_map;
+              delete $2;
           }
           ;
 
@@ -364,6 +367,7 @@ stl_formula :
                  if (ref==nullptr) {
                      cout << "Parsing error: unknown identifier " << *$1 << endl;
                      $$ = nullptr;
+                     delete $1;
                      YYERROR;
                  }
                  else {
@@ -377,7 +381,9 @@ stl_formula :
 
 assignement : NEW_ID ASSIGN stl_formula
             {
-                driver.formula_map[*$1] = $3;
+                transducer *&phi = driver.formula_map[*$1];
+                delete phi;
+                phi = $3;
                 delete $1;
             }
 
@@ -386,6 +392,7 @@ trace_env: TEST NEW_ID ':' STRING
              double x;
              driver.add_trace_test(*$2, *$4, 0., false);
              delete $2;
+             delete $4;
          }
          | TEST NEW_ID ':' STRING COMMA CONSTANT COMMA boolean  /* test id: environment, simulation time, visualization  */
          {
@@ -460,6 +467,8 @@ local_param_assignement_list: local_param_assignement
     $$ = new map<string,double>(*$1);
     auto elem = $3->begin();
     (*$$)[elem->first] = elem->second;
+    delete $1;
+    delete $3;
 }
 
 local_param_assignements: /* empty */
@@ -494,6 +503,7 @@ stl_test: NEW_ID  local_param_assignements '{'  stl_formula COMMA  STRING COMMA
             driver.add_stl_test(*$1, *$2, $4, *$6, *$8, $10 );
             delete $1;
             delete $2;
+            delete $4;
             delete $6;
             delete $8;
         }
-- 
2.43.0


From dc3fb1007edd6f34e9e78ff1b2d99c08fe5618fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 26/43] fix: copies of a test shared its formula, which was
 deleted several times

---
 include/stl_driver.h | 25 +++++++++++++++++++++++++
 src/stl_driver.cpp   | 17 +----------------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/include/stl_driver.h b/include/stl_driver.h
index 34df455..67c720e 100644
--- a/include/stl_driver.h
+++ b/include/stl_driver.h
@@ -38,6 +38,31 @@ namespace STLRom
                                                             is_error(_is_err) {
                                                             };
 
+        // a test owns its formula
+        stl_test(const stl_test &other) : test_id(other.test_id),
+                                          param_map(other.param_map),
+                                          formula(other.formula ? other.formula->clone() : nullptr),
+                                          report_positive(other.report_positive),
+                                          report_negative(other.report_negative),
+                                          is_error(other.is_error) {
+                                          };
+
+        stl_test &operator=(const stl_test &other)
+        {
+            if (this != &other)
+            {
+                transducer *phi = other.formula ? other.formula->clone() : nullptr;
+                delete formula;
+                formula = phi;
+                test_id = other.test_id;
+                param_map = other.param_map;
+                report_positive = other.report_positive;
+                report_negative = other.report_negative;
+                is_error = other.is_error;
+            }
+            return *this;
+        }
+
         ~stl_test()
         {
             delete formula;
diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index 9780625..54be0c9 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -219,17 +219,7 @@ namespace STLRom
 		param_map.clear();
 		stl_test_map.clear();
 
-		while (!trace_test_queue.empty())
-		{
-			transducer *formula = get_next_formula();
-			while (formula != nullptr)
-			{
-				delete formula;
-				trace_test_queue.front().tests.pop_front();
-				formula = get_next_formula();
-			}
-			trace_test_queue.pop_front();
-		}
+		trace_test_queue.clear();
 		report.clear();
 		test_log.clear();
 		error_flag = false;
@@ -402,7 +392,6 @@ namespace STLRom
 			if ((elem = stl_test_map.find(test_id)) != stl_test_map.end())
 			{
 				trace_test_queue.back().tests.push_back(elem->second);
-				trace_test_queue.back().tests.back().formula = (elem->second).formula->clone();
 				trace_test_queue.back().tests.back().param_map.clear();
 			}
 		}
@@ -428,7 +417,6 @@ namespace STLRom
 				//				cout << endl;
 
 				trace_test_queue.back().tests.push_back(elem->second);
-				trace_test_queue.back().tests.back().formula = (elem->second).formula->clone();
 				trace_test_queue.back().tests.back().param_map = local_param_map;
 			}
 		}
@@ -451,10 +439,7 @@ namespace STLRom
 			//			cout << endl;
 
 			stl_test_map[test_id] = stl_test(test_id, local_param_map, formula->clone(), report_pos, report_neg, is_err);
-			stl_test_map[test_id].param_map = local_param_map;
-			stl_test_map[test_id].formula = formula->clone();
 			trace_test_queue.back().tests.push_back(stl_test_map[test_id]);
-			trace_test_queue.back().tests.back().formula = formula->clone();
 		}
 	}
 
-- 
2.43.0


From 24aa5ca7f1162ba908cd078b9e3794bd8a94eba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 27/43] fix: running or reading the next test without tests
 accessed an empty queue

---
 include/stl_driver.h | 4 ++--
 src/stl_driver.cpp   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/stl_driver.h b/include/stl_driver.h
index 67c720e..38840eb 100644
--- a/include/stl_driver.h
+++ b/include/stl_driver.h
@@ -287,7 +287,7 @@ namespace STLRom
         inline transducer *get_next_formula() const
         {
 
-            if (!trace_test_queue.front().tests.empty())
+            if (!trace_test_queue.empty() && !trace_test_queue.front().tests.empty())
                 return trace_test_queue.front().tests.front().formula;
             else
                 return nullptr;
@@ -296,7 +296,7 @@ namespace STLRom
         inline const stl_test *get_next_stl_test() const
         {
 
-            if (!trace_test_queue.front().tests.empty())
+            if (!trace_test_queue.empty() && !trace_test_queue.front().tests.empty())
                 return &(trace_test_queue.front().tests.front());
             else
                 return nullptr;
diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index 54be0c9..208715a 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -344,7 +344,7 @@ namespace STLRom
 			}
 		}
 		report += "\n";
-		trace_test_queue.pop_front();
+		pop_next_trace_test();
 		return error_flag;
 	}
 
-- 
2.43.0


From 3d5d6ab2d94da0b598c801008e069fdde756bf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 28/43] fix: tests and dump evaluated formulas without their
 parameters, modes and current data

---
 src/stl_driver.cpp | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index 208715a..79fb612 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -278,12 +278,14 @@ namespace STLRom
 	void STLDriver::dump()
 	{
 
-		// transducer::param_map = param_map; FIXME
-
+		Signal::semantics = semantics;
+		Signal::interpol = interpol;
 		for (auto formula = formula_map.begin(); formula != formula_map.end(); formula++)
 		{
-			formula->second->trace_data_ptr = &data;
-			formula->second->init_horizon();
+			formula->second->set_trace_data_ptr(data);
+			formula->second->set_param_map_ptr(param_map);
+			formula->second->reset();
+			formula->second->set_horizon(0., 0.);
 			formula->second->compute_robustness();
 			(formula->second->z).dumpFile(formula->first + ".out");
 		}
@@ -303,19 +305,20 @@ namespace STLRom
 
 			report.append("stl_test " + trace_test_queue.front().id + "\n");
 
-			// Initialize global parameters
-			// transducer->param_map =  param_map; FIXME
-
 			while (formula != nullptr)
 			{
 
-				// initialize local parameters FIXME
-				// for (auto elem = curr_test->param_map.begin(); elem != curr_test->param_map.end(); elem++){
-				//	transducer->param_map[elem->first] = elem->second;
-				//}
-
-				formula->trace_data_ptr = &data;
-				formula->init_horizon();
+				// local parameters hide the global ones
+				map<string, double> test_param_map = param_map;
+				for (auto elem = curr_test->param_map.begin(); elem != curr_test->param_map.end(); elem++)
+					test_param_map[elem->first] = elem->second;
+
+				formula->set_trace_data_ptr(data);
+				formula->set_param_map_ptr(test_param_map);
+				Signal::semantics = semantics;
+				Signal::interpol = interpol;
+				formula->reset();
+				formula->set_horizon(0., 0.);
 				double rob = formula->compute_robustness();
 
 				test_log.append(curr_test->test_id + ": " + d_to_s(rob) + "\n");
-- 
2.43.0


From a768b5927d9f69f448033e993418ce6a77779aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 29/43] fix: listing the signals when there are none read past
 an empty array

---
 src/tools.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools.cpp b/src/tools.cpp
index c14223e..212d919 100755
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -44,6 +44,8 @@ string signal_map_to_string(map<string, int> signal_map)
 	{
 	// get number of signals
 		int n_signals = signal_map.size();
+		if (n_signals == 0)
+			return string();
 		// cout << "n_signals:" << n_signals << endl;
 		string signames[n_signals];
 
-- 
2.43.0


From 4e9824e320d4ffb8dc9247e727dc795ca77b7eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 30/43] fix: get_signal of a monitor without formula
 dereferenced a null pointer

---
 include/stl_monitor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stl_monitor.h b/include/stl_monitor.h
index 9cd3de0..da96375 100644
--- a/include/stl_monitor.h
+++ b/include/stl_monitor.h
@@ -247,7 +247,7 @@ namespace STLRom
 
         inline Signal get_signal() const
         {
-            return formula->get_signal();
+            return formula ? formula->get_signal() : Signal();
         }
 
         // display stuff
-- 
2.43.0


From e6fadf5d619199b298a093f1a33d7ba98727686b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 31/43] fix: read_trace added a column for trailing blanks and
 dropped a last line without newline

---
 src/tools.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 212d919..ef1e2f9 100755
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -117,15 +117,14 @@ bool read_trace(const string &trace_file_name, vector< vector<double> > &data)
 	}
 
 	string line;
-	while (!std::getline(file, line, '\n').eof()) {
+	while (std::getline(file, line, '\n')) {
 		istringstream reader(line);
 		vector<double> lineData;
-		while (!reader.eof()) {
-			double val;
-			reader >> val;
+		double val;
+		while (reader >> val)
 			lineData.push_back(val);
-		}
-		data.push_back(lineData);
+		if (!lineData.empty())
+			data.push_back(lineData);
 	}
 	file.close();
 	return true;
-- 
2.43.0


From 46f3194395c758c90b439dce77fe538dca225809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:48 +0000
Subject: [PATCH 32/43] fix: dump_trace_file lost digits of the data

---
 src/stl_driver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index 79fb612..3de9a42 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -4,6 +4,7 @@
 #include "stdafx.h"
 #include <fstream>
 #include <sstream>
+#include <limits>
 
 #include "stl_driver.h"
 #include "transducer.h"
@@ -556,6 +557,7 @@ namespace STLRom
 		ofs.open(filename.c_str(), std::ofstream::out);
 		if (ofs.is_open())
 		{
+			ofs.precision(std::numeric_limits<double>::max_digits10);
 			for (auto ii = data.begin(); ii != data.end(); ii++)
 			{
 				for (auto jj = (*ii).begin(); jj != (*ii).end(); jj++)
-- 
2.43.0


From 9aefa31f4a17e866fb7fccce2a550e901b1db6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 33/43] fix: __del__ of drivers and monitors deleted objects
 that pybind11 deletes too

---
 src/pybind11/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pybind11/main.cpp b/src/pybind11/main.cpp
index e369234..4c06426 100644
--- a/src/pybind11/main.cpp
+++ b/src/pybind11/main.cpp
@@ -137,7 +137,7 @@ PYBIND11_MODULE(stlrom, m) {
 		.def("copy", [](const STLRom::STLMonitor &self) { return STLRom::STLMonitor(self); })
 		.def("__copy__", [](const STLRom::STLMonitor &self) { return STLRom::STLMonitor(self); })
 		.def("__deepcopy__", [](const STLRom::STLMonitor &self, py::dict) { return STLRom::STLMonitor(self); })
-		.def("__del__", [](STLRom::STLMonitor *instance) { delete instance; }) // Bind the destructor
+		.def("__del__", [](STLRom::STLMonitor &self) {})
 
 		.def_readwrite("rob",&STLRom::STLMonitor::rob)
 		.def_readwrite("lower_rob",&STLRom::STLMonitor::lower_rob)
@@ -174,5 +174,5 @@ PYBIND11_MODULE(stlrom, m) {
 		.def("copy", [](const STLRom::STLDriver &self) { return STLRom::STLDriver(self); })
 		.def("__copy__", [](const STLRom::STLDriver &self) { return STLRom::STLDriver(self); })
 		.def("__deepcopy__", [](const STLRom::STLDriver &self, py::dict) { return STLRom::STLDriver(self); })
-		.def("__del__", [](STLRom::STLDriver *instance) {delete instance; }); // Bind the destructor
+		.def("__del__", [](STLRom::STLDriver &self) {});
 }
-- 
2.43.0


From 2ac0ec3cd3abf7c04550e7bbcd149797fe707a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:01 +0000
Subject: [PATCH 34/43] fix: print_monitor dereferenced a null pointer when
 there is no formula phi

---
 src/pybind11/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pybind11/main.cpp b/src/pybind11/main.cpp
index 4c06426..36ade54 100644
--- a/src/pybind11/main.cpp
+++ b/src/pybind11/main.cpp
@@ -49,7 +49,8 @@ void print_monitor(STLDriver& d) {
 	STLMonitor m = d.get_monitor("phi");
 	transducer* phi = m.formula;
 	os << "Monitor lower rob:" << m.lower_rob <<endl;
-	phi->print(os);
+	if (phi)
+		phi->print(os);
 	py::print(os.str());
 }
 
-- 
2.43.0


From 3bae0119900d9623fab64de08a2e62c0e663ca17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 35/43] fix: samples with missing columns were read out of
 bounds

---
 src/stl_atom.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/stl_atom.cpp b/src/stl_atom.cpp
index 4283c62..c156dab 100644
--- a/src/stl_atom.cpp
+++ b/src/stl_atom.cpp
@@ -80,8 +80,8 @@ namespace STLRom {
             
         if (i) {
             while ( (td_idx <= trace_data_ptr->size()-1)  && t<=end_time)   {
-                t = (trace_data_ptr->at(td_idx))[0];
-                v = (trace_data_ptr->at(td_idx))[i];
+                t = (trace_data_ptr->at(td_idx)).at(0);
+                v = (trace_data_ptr->at(td_idx)).at(i);
                 // cout << "t: " << t << " v: " << v << endl;
                 z.appendSample(t, v);
                 td_idx++;
@@ -120,7 +120,7 @@ namespace STLRom {
         double t=start_time;  
             
         while ((td_idx <= trace_data_ptr->size()-1) && t<=end_time)   {
-            t = (trace_data_ptr->at(td_idx))[0];
+            t = (trace_data_ptr->at(td_idx)).at(0);
             z.appendSample(t, value);
             td_idx++;
         }
-- 
2.43.0


From 7b981877cb40e58de54d2bc92ce56551c01ebb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:49 +0000
Subject: [PATCH 36/43] fix: the time to build, copy and evaluate a formula was
 exponential in its depth

---
 src/transducer.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/transducer.cpp b/src/transducer.cpp
index 416021a..a575593 100755
--- a/src/transducer.cpp
+++ b/src/transducer.cpp
@@ -10,14 +10,11 @@ namespace STLRom {
 
     void unary_transducer::init_horizon() {
         child->set_horizon(start_time, end_time);
-        child->init_horizon();
     }
 
     void binary_transducer::init_horizon() {
         childL->set_horizon(start_time, end_time);
         childR->set_horizon(start_time, end_time);
-        childL->init_horizon();
-        childR->init_horizon();
     }
 
     void timed_unary_transducer::init_horizon() {
@@ -29,7 +26,6 @@ namespace STLRom {
 
         // update start_time and end_time of child
         child->set_horizon(start_time+a,end_time+b);
-        child->init_horizon();
 
     }
 
@@ -42,8 +38,6 @@ namespace STLRom {
         // update start_time and end_time of children
         childL->set_horizon(start_time, end_time+b);
         childR->set_horizon(start_time+a, end_time+b);
-        childL->init_horizon();
-        childR->init_horizon();
     }
 
     /* set param */
-- 
2.43.0


From 1dcb66528e44221e715f5e3b5f9eaa069ade395d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 37/43] fix: evaluating over an empty interval or window read
 past empty signals

---
 src/stl_atom.cpp   | 6 ++++++
 src/transducer.cpp | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/stl_atom.cpp b/src/stl_atom.cpp
index c156dab..bffb5a7 100644
--- a/src/stl_atom.cpp
+++ b/src/stl_atom.cpp
@@ -74,6 +74,9 @@ namespace STLRom {
         printf(">> signal_transducer::compute_robustness:     IN.\n");
         cout<< "start_time:" << start_time << " end_time:" << end_time << endl;
 #endif
+        if (!(start_time<=end_time))
+            throw std::invalid_argument("Evaluation interval is empty");
+
         short i = signal_map[variable];
         double t=start_time, v=0.;  
         double res= 0.;
@@ -110,6 +113,9 @@ namespace STLRom {
         cout<< "start_time:" << start_time << " end_time:" << end_time << endl;
 #endif
         
+        if (!(start_time<=end_time))
+            throw std::invalid_argument("Evaluation interval is empty");
+
         // TODO exception if parameter not found for some reason ? For now, we get 0. as a default silent value.
         if (!param.empty())
         {
diff --git a/src/transducer.cpp b/src/transducer.cpp
index a575593..2006f1f 100755
--- a/src/transducer.cpp
+++ b/src/transducer.cpp
@@ -135,6 +135,12 @@ namespace STLRom {
     }
 
 
+    // bounds of a temporal operator are in order (they may come from parameters)
+    static void check_bounds(double a, double b) {
+        if (!(a<=b))
+            throw std::invalid_argument("Lower bound of a temporal operator is greater than its upper bound");
+    }
+
     /* Compute robustness */
     double not_transducer::compute_robustness() {
         //	cout << "Computing robustness of NOT"
@@ -153,6 +159,7 @@ namespace STLRom {
         double a,b;
         if (!get_param(I->begin_str,a)) a = I->begin;
         if (!get_param(I->end_str,b)) b = I->end;
+        check_bounds(a,b);
 
         child->compute_robustness();
         //if (z.empty()) // first run 
@@ -187,6 +194,7 @@ namespace STLRom {
         double a,b;
         if (!get_param(I->begin_str,a)) a = I->begin;
         if (!get_param(I->end_str,b)) b = I->end;
+        check_bounds(a,b);
         child->compute_robustness();
 
         z.compute_timed_globally(child->z, a, b);
@@ -267,6 +275,7 @@ namespace STLRom {
         double a,b;
         if (!get_param(I->begin_str,a)) a = I->begin;
         if (!get_param(I->end_str,b)) b = I->end;
+        check_bounds(a,b);
 
         // update robustness of children
         childL->compute_robustness();
-- 
2.43.0


From 0aeb3aeb50521b5d6c8c4afeb9a7a306584543c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 38/43] fix: add_sample accepted a first sample whose time is
 not a number

---
 src/stl_driver.cpp  | 2 +-
 src/stl_monitor.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index 3de9a42..6d5f3dd 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -453,7 +453,7 @@ namespace STLRom
 		{
 			throw std::invalid_argument("Sample size does not match the number of signals.");
 		}
-		if (!data.empty() && !(s[0] > data.back()[0]))
+		if (s[0] != s[0] || (!data.empty() && !(s[0] > data.back()[0])))
 		{
 			throw std::invalid_argument("Sample time must be strictly greater than the last sample time.");
 		}
diff --git a/src/stl_monitor.cpp b/src/stl_monitor.cpp
index 326fc3a..758e007 100644
--- a/src/stl_monitor.cpp
+++ b/src/stl_monitor.cpp
@@ -18,7 +18,7 @@ namespace STLRom
 		{
 			throw std::invalid_argument("Sample size does not match the number of signals.");
 		}
-		if (!data.empty() && !(s[0] > data.back()[0]))
+		if (s[0] != s[0] || (!data.empty() && !(s[0] > data.back()[0])))
 		{
 			throw std::invalid_argument("Sample time must be strictly greater than the last sample time.");
 		}
-- 
2.43.0


From 000e277c8cbc1c6fc9daf1ee68370a3f706dcc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:00 +0000
Subject: [PATCH 39/43] fix: until with a negative lower bound read past empty
 signals

---
 src/transducer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/transducer.cpp b/src/transducer.cpp
index 2006f1f..92d6cd0 100755
--- a/src/transducer.cpp
+++ b/src/transducer.cpp
@@ -135,10 +135,10 @@ namespace STLRom {
     }
 
 
-    // bounds of a temporal operator are in order (they may come from parameters)
+    // bounds of a temporal operator are in order (they may come from parameters), those of until not before now
     static void check_bounds(double a, double b) {
         if (!(a<=b))
-            throw std::invalid_argument("Lower bound of a temporal operator is greater than its upper bound");
+            throw std::invalid_argument("Bounds of a temporal operator are not in order");
     }
 
     /* Compute robustness */
@@ -276,6 +276,7 @@ namespace STLRom {
         if (!get_param(I->begin_str,a)) a = I->begin;
         if (!get_param(I->end_str,b)) b = I->end;
         check_bounds(a,b);
+        check_bounds(0.,a);
 
         // update robustness of children
         childL->compute_robustness();
-- 
2.43.0


From 3e5b1679d2dfbdc3a17c4d914d594990d0a5d69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:28 +0000
Subject: [PATCH 40/43] fix: displayed formulas lost their parentheses and
 could not be read again

---
 include/signal_expr.h | 23 +++++++++++++++++------
 include/transducer.h  | 15 +++++++++++----
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/include/signal_expr.h b/include/signal_expr.h
index 21c91c8..2de0db9 100644
--- a/include/signal_expr.h
+++ b/include/signal_expr.h
@@ -181,6 +181,17 @@ namespace STLRom
      * same number of samples.
      */
 
+    /* prints an operand, between parentheses when it is itself a sum, difference or product */
+    inline void print_operand(const transducer *operand, ostream &os)
+    {
+        bool compound = dynamic_cast<const binary_transducer *>(operand) != nullptr;
+        if (compound)
+            os << "(";
+        operand->print(os);
+        if (compound)
+            os << ")";
+    }
+
     class plus_transducer : public binary_transducer
     {
     public:
@@ -206,8 +217,8 @@ namespace STLRom
         virtual void print(ostream &os) const
         {
             childL->print(os);
-            os << "+";
-            childR->print(os);
+            os << " + ";
+            print_operand(childR, os);
         };
     };
 
@@ -236,8 +247,8 @@ namespace STLRom
         virtual void print(ostream &os) const
         {
             childL->print(os);
-            os << "-";
-            childR->print(os);
+            os << " - ";
+            print_operand(childR, os);
         };
     };
 
@@ -266,9 +277,9 @@ namespace STLRom
 
         virtual void print(ostream &os) const
         {
-            childL->print(os);
+            print_operand(childL, os);
             os << "*";
-            childR->print(os);
+            print_operand(childR, os);
         };
     };
 
diff --git a/include/transducer.h b/include/transducer.h
index 4f64f84..6ea9464 100644
--- a/include/transducer.h
+++ b/include/transducer.h
@@ -269,8 +269,9 @@ namespace STLRom {
         };
 
         void print(ostream &os) const {
-            os << "not ";
+            os << "not (";
             child->print(os);
+            os << ")";
         }
         ;
 
@@ -305,9 +306,11 @@ namespace STLRom {
         };
 
         virtual void print(ostream &os) const {
+            os << "(";
             childL->print(os);
-            os << " and ";
+            os << ") and (";
             childR->print(os);
+            os << ")";
         }
         ;
 
@@ -342,9 +345,11 @@ namespace STLRom {
         };
 
         virtual void print(ostream &os) const {
+            os << "(";
             childL->print(os);
-            os << " or ";
+            os << ") or (";
             childR->print(os);
+            os << ")";
         }
         ;
 
@@ -379,9 +384,11 @@ namespace STLRom {
         };
 
         virtual void print(ostream &os) const {
+            os << "(";
             childL->print(os);
-            os << " => ";
+            os << ") => (";
             childR->print(os);
+            os << ")";
         }
         ;
 
-- 
2.43.0


From 7740bd84a3023681fded25a9e605ee2135a99013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:09 +0000
Subject: [PATCH 41/43] fix: values beyond BigM do not distort the robustness
 of complete data

eventually, globally and their bounded versions started their maxima and minima from -BigM and BigM, so that
robustness values of complete data were clipped to them.
---
 src/robustness.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 5ab3493..3a6d40b 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -9,6 +9,12 @@
 #define fmin(a,b) ((a<b)?a:b) 
 #define fmax(a,b) ((b<a)?a:b) 
 
+// neutral elements of max and min: BigM bounds unknown values only, known ones may exceed it
+#undef TOP
+#undef BOTTOM
+#define TOP (std::numeric_limits<double>::infinity())
+#define BOTTOM (-std::numeric_limits<double>::infinity())
+
 //#define DEBUG__
 
 using namespace std;
-- 
2.43.0


From 047bed9ed9fbcb302a42cdea6c8ffbf880399cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:24 +0000
Subject: [PATCH 42/43] fix: more than 32767 signals: column numbers overflowed
 a short, listing the names wrote out of bounds

---
 src/stl_atom.cpp   | 2 +-
 src/stl_parser.cpp | 2 +-
 src/stl_parser.ypp | 2 +-
 src/tools.cpp      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/stl_atom.cpp b/src/stl_atom.cpp
index bffb5a7..3e1a9d5 100644
--- a/src/stl_atom.cpp
+++ b/src/stl_atom.cpp
@@ -77,7 +77,7 @@ namespace STLRom {
         if (!(start_time<=end_time))
             throw std::invalid_argument("Evaluation interval is empty");
 
-        short i = signal_map[variable];
+        int i = signal_map[variable];
         double t=start_time, v=0.;  
         double res= 0.;
             
diff --git a/src/stl_parser.cpp b/src/stl_parser.cpp
index 88d71b3..326b137 100644
--- a/src/stl_parser.cpp
+++ b/src/stl_parser.cpp
@@ -1267,7 +1267,7 @@ namespace STLRom {
   case 49:
 #line 477 "stl_parser.ypp" // lalr1.cc:859
     {
-             short idx =  driver.signal_map.size()+1;
+             int idx =  driver.signal_map.size()+1;
              driver.signal_map[*(yystack_[0].value.stringVal)] = idx;
              delete (yystack_[0].value.stringVal);
           }
diff --git a/src/stl_parser.ypp b/src/stl_parser.ypp
index 051b4b3..81a28fd 100644
--- a/src/stl_parser.ypp
+++ b/src/stl_parser.ypp
@@ -484,7 +484,7 @@ local_param_assignements: /* empty */
 
 signal_new: NEW_ID
           {
-             short idx =  driver.signal_map.size()+1;
+             int idx =  driver.signal_map.size()+1;
              driver.signal_map[*$1] = idx;
              delete $1;
           }
diff --git a/src/tools.cpp b/src/tools.cpp
index ef1e2f9..fb7f83e 100755
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -47,7 +47,7 @@ string signal_map_to_string(map<string, int> signal_map)
 		if (n_signals == 0)
 			return string();
 		// cout << "n_signals:" << n_signals << endl;
-		string signames[n_signals];
+		vector<string> signames(n_signals);
 
 		//     for (auto ii = signal_map->begin(); ii != signal_map->end(); ii++){
 		for (const auto &ii : signal_map)
-- 
2.43.0


From 622d2b4ff7e8eb3128d6258f46c15a145aee8704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:11 +0000
Subject: [PATCH 43/43] fix: displayed formulas had numbers with exponents,
 which the parser does not read, and interval bounds of six digits only

---
 include/interval.h    |  4 ++--
 include/signal_expr.h |  5 ++++-
 include/tools.h       |  3 +++
 src/interval.cpp      |  7 ++++---
 src/tools.cpp         | 24 ++++++++++++++++++++++++
 5 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/include/interval.h b/include/interval.h
index 3d49cb4..062d6cb 100644
--- a/include/interval.h
+++ b/include/interval.h
@@ -25,14 +25,14 @@ public:
 	interval(string b, string e);
 	interval(double b, double e): begin(b), end(e) {};
 
-	string to_string() const;
+	string to_string(int precision = 6) const;
 
 	void print() const {
 		cout << to_string();
 	};
 
 	void print(std::ostream &os) const {
-	    os << to_string();
+	    os << to_string(os.precision());
 	};
 }
 ;
diff --git a/include/signal_expr.h b/include/signal_expr.h
index 2de0db9..af46373 100644
--- a/include/signal_expr.h
+++ b/include/signal_expr.h
@@ -134,7 +134,10 @@ namespace STLRom
 
         void print(ostream &os) const
         {
-            param.empty() ? os << value : os << param;
+            if (param.empty())
+                print_number(os, value);
+            else
+                os << param;
         };
 
         void print() const
diff --git a/include/tools.h b/include/tools.h
index 1172924..54e83dc 100644
--- a/include/tools.h
+++ b/include/tools.h
@@ -39,6 +39,9 @@ inline string d_to_s(
 	return o.str();
 }
 
+/** prints a number as the parser reads them, i.e. without exponent, with the precision of the stream */
+void print_number(std::ostream &os, double x);
+
 /** Returns a m x n random trace */
 trace_data rand_trace_data( int m, int n);
 
diff --git a/src/interval.cpp b/src/interval.cpp
index 3875c68..58abf99 100644
--- a/src/interval.cpp
+++ b/src/interval.cpp
@@ -36,16 +36,17 @@ interval interval::operator=(const interval& that) {
 	return *this;
 }
 
-string interval::to_string() const {
+string interval::to_string(int precision) const {
 	ostringstream o;
+	o.precision(precision);
 	o << "[";
 	if (begin_str.empty())
-		o << begin;
+		print_number(o, begin);
 	else
 		o << begin_str;
 	o << ",";
 	if (end_str.empty())
-		o << end;
+		print_number(o, end);
 	else
 		o << end_str;
 	o << "]";
diff --git a/src/tools.cpp b/src/tools.cpp
index fb7f83e..f9ca7a2 100755
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -6,7 +6,10 @@
  */
 #include "stdafx.h"
 
+#include <algorithm>
+#include <cmath>
 #include <cstdlib>
+#include <iomanip>
 #include <vector>
 #include <string>
 #include <ctime>
@@ -66,6 +69,27 @@ string signal_map_to_string(map<string, int> signal_map)
 		return str_out;
 	} 
 
+void print_number(std::ostream &os, double x) {
+	ostringstream o;
+	o.copyfmt(os);
+	o.width(0);
+	o << x;
+	string s = o.str();
+	if (s.find_first_of("eE") != string::npos) {
+		// as many significant digits, but no exponent
+		int decimals = max(int(os.precision()), 1) - 1 - int(floor(log10(fabs(x))));
+		o.str("");
+		o << fixed << setprecision(max(decimals, 0)) << x;
+		s = o.str();
+		if (s.find('.') != string::npos) {
+			s.erase(s.find_last_not_of('0') + 1);
+			if (s.back() == '.')
+				s.pop_back();
+		}
+	}
+	os << s;
+}
+
 const std::string current_date_time() {
 	time_t     now = time(0);
 	struct tm  tstruct;
-- 
2.43.0

