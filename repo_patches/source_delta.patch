From ce2b6dfdccca9d2746d2b6c0625339d06c06ec19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:42 +0000
Subject: [PATCH 01/10] fix: apply the overall prefactor once in the factorized
 evaluators

---
 src/ami_base_evaluate.cpp       | 8 ++++++--
 src/ami_base_terms_evaluate.cpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index 290ae54..37ffe92 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -88,6 +88,10 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
 
   
 
+  // the overall prefactor is applied once per product below, not to each G
+  ami_vars unit_external = external;
+  unit_external.prefactor = 1.0;
+
   for (int i = 0; i < unique_g.size(); i++) {
     // Context: we pretend each G is a g_prod and use the same function as the normal
     // star operation for evaluating products of G's
@@ -96,7 +100,7 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
 
 #ifdef BOOST_MP
 	gprod =
-        eval_gprod_mp(parms, this_term, external) * prefactor;
+        eval_gprod_mp(parms, this_term, unit_external);
 
 
 	if ((boost::multiprecision::abs(std::real(gprod)) > precision_cutoff) ||
@@ -105,7 +109,7 @@ std::complex<double> AmiBase::optimized_star(ami_parms &parms, SorF_t K,
     }
 #else
 	gprod =
-			eval_gprod(parms, this_term, external) * prefactor;
+			eval_gprod(parms, this_term, unit_external);
 	
 
     if ((std::abs(std::real(gprod)) > precision_cutoff) ||
diff --git a/src/ami_base_terms_evaluate.cpp b/src/ami_base_terms_evaluate.cpp
index d31d3ba..1a9729d 100644
--- a/src/ami_base_terms_evaluate.cpp
+++ b/src/ami_base_terms_evaluate.cpp
@@ -35,6 +35,10 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
 
   // std::cout<<"External prefactor is "<<external.prefactor<<std::endl;
 
+  // the overall prefactor is applied once per product below, not to each G
+  ami_vars unit_external = external;
+  unit_external.prefactor = 1.0;
+
   for (int i = 0; i < unique_g.size(); i++) {
     // we pretend each G is a g_prod and use the same function as the normal
     // star operation for evaluating products of G's
@@ -43,7 +47,7 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
 
 #ifdef BOOST_MP
 	gprod =
-        eval_gprod_mp(parms, this_term, external) * prefactor;
+        eval_gprod_mp(parms, this_term, unit_external);
 
 
 	if ((boost::multiprecision::abs(std::real(gprod)) > precision_cutoff) ||
@@ -52,7 +56,7 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, terms &ami_terms,
     }
 #else
 	gprod =
-			eval_gprod(parms, this_term, external) * prefactor;
+			eval_gprod(parms, this_term, unit_external);
 	
 
     if ((std::abs(std::real(gprod)) > precision_cutoff) ||
-- 
2.43.0


From 0d830fe95a5a5ccf83177dc2600a3c4ed8d0347b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:35 +0000
Subject: [PATCH 02/10] fix: match each repeated factor only once when
 comparing factorized products

---
 src/ami_base_optimize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ami_base_optimize.cpp b/src/ami_base_optimize.cpp
index f990fe9..9d8ccc6 100644
--- a/src/ami_base_optimize.cpp
+++ b/src/ami_base_optimize.cpp
@@ -203,7 +203,7 @@ bool AmiBase::pair_v_equiv(ref_v_t &r1, ref_v_t &r2, int &r1sign, int &r2sign) {
     if ( (r1[i].first == r2[j].first) && v2[j]==1){
       found=true;
       v2[j]=0;
-      continue; //
+      break; //
       
     }
     
-- 
2.43.0


From 59893996c47ba1c15f184ac42ce9a042938de43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:35 +0000
Subject: [PATCH 03/10] fix: comparing two all-zero lines reads no sign from an
 empty list

---
 src/ami_base_optimize.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ami_base_optimize.cpp b/src/ami_base_optimize.cpp
index 9d8ccc6..92b178f 100644
--- a/src/ami_base_optimize.cpp
+++ b/src/ami_base_optimize.cpp
@@ -424,9 +424,11 @@ bool AmiBase::g_struct_equiv(g_struct &g1, g_struct &g2, int &sign) {
     }
   }
 
-  // in principle if the code gets here the size of signs is >0 so don't need
-  // to check that
-
+  // lines with all coefficients zero have no sign to compare
+  if (signs.empty()) {
+    sign = 1;
+    return result;
+  }
 
   if (std::adjacent_find(signs.begin(), signs.end(),
                          std::not_equal_to<int>()) == signs.end()) {
-- 
2.43.0


From fcc9affb9770820f30936320bbd5c9912a46d9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:34 +0000
Subject: [PATCH 04/10] fix: keep products without factors when factorizing, so
 positions match the list

---
 src/ami_base_optimize.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ami_base_optimize.cpp b/src/ami_base_optimize.cpp
index 92b178f..a0f0afb 100644
--- a/src/ami_base_optimize.cpp
+++ b/src/ami_base_optimize.cpp
@@ -307,9 +307,7 @@ void AmiBase::factorize_Rn(Ri_t &Rn, g_prod_t &unique_g, R_ref_t &Rref,
       }
     }
 
-    if (ref_v.size() != 0) {
-      Rref.push_back(ref_v);
-    }
+    Rref.push_back(ref_v);
   }
 
 
-- 
2.43.0


From 14e3d81e768c0152b227efb73b8ba5a524735184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:25 +0000
Subject: [PATCH 05/10] fix: initialise the start positions in
 detect_otf_trigger before they are compared

---
 src/ami_base_evaluate.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index 37ffe92..e11cbaf 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -972,8 +972,8 @@ std::complex<double> calc_result=evaluate(parms,R_array, P_array, S_array,  exte
   return calc_result;
 }
 
-int triggers_start;//=triggers[0][0];
-int pairs_start;//=pairs[0][0];
+int triggers_start=-1;//=triggers[0][0];
+int pairs_start=-1;//=pairs[0][0];
 
 int problem_start;
 
-- 
2.43.0


From dd22e170e3c942b7c80f0b7d7f0ceab931f03eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:12 +0000
Subject: [PATCH 06/10] fix: on-the-fly evaluation also identifies equal
 energies of oppositely oriented lines

---
 src/ami_base_evaluate.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index e11cbaf..8b3b38f 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -816,9 +816,19 @@ for (int ord=0; ord<R_array.size(); ord++){
         
         if(eps_m==eps_n){ // || std::abs(eps_m-eps_n)<1e-15){
         
-        std::vector<int> this_pair{ord,num,m,n};
+        std::vector<int> this_pair{ord,num,m,n,1};
+        equal_pairs.push_back(this_pair);
+        }else if(eps_m==-eps_n){
+        // a line in the opposite orientation can have the same pole
+        bool already=true;
+        for (int a = 0; a < R_array[ord][num][m].eps_.size(); a++) {
+          if(R_array[ord][num][m].eps_[a]!=-R_array[ord][num][n].eps_[a]){ already=false; }
+        }
+        if(!already){
+        std::vector<int> this_pair{ord,num,m,n,-1};
         equal_pairs.push_back(this_pair);
         }
+        }
         
       }
       }
@@ -1048,6 +1058,9 @@ int m=pairs[i][2];
 int n=pairs[i][3];
 
 R_otf[a][b][m].eps_=R_otf[a][b][n].eps_;  
+for(int k=0; k<R_otf[a][b][m].eps_.size(); k++){
+R_otf[a][b][m].eps_[k]*=pairs[i][4];
+}
   
 }
 }
-- 
2.43.0


From df8a38303ce9d7e74cc936d3ed097dcea6b4fd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:15 +0000
Subject: [PATCH 07/10] fix: keep the species label of a Green's function when
 a pole is substituted

---
 src/ami_base_construct.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ami_base_construct.cpp b/src/ami_base_construct.cpp
index 2a77cbb..c15bc74 100644
--- a/src/ami_base_construct.cpp
+++ b/src/ami_base_construct.cpp
@@ -129,6 +129,7 @@ AmiBase::g_prod_t AmiBase::simple_residue(AmiBase::g_prod_t G_in,
 AmiBase::g_struct AmiBase::update_G_pole(AmiBase::g_struct g_in,
                                          AmiBase::pole_struct pole) {
   AmiBase::g_struct g_new;
+  g_new.species_ = g_in.species_;
 
   for (int i = 0; i < g_in.alpha_.size(); i++) {
     if (i != pole.index_) {
-- 
2.43.0


From 72bb7890668f6fa6bf6968989306025971802f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:15 +0000
Subject: [PATCH 08/10] fix: a term beyond the precision cutoff raises the
 overflow flag

---
 src/ami_base_terms_evaluate.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ami_base_terms_evaluate.cpp b/src/ami_base_terms_evaluate.cpp
index 1a9729d..cae194a 100644
--- a/src/ami_base_terms_evaluate.cpp
+++ b/src/ami_base_terms_evaluate.cpp
@@ -234,6 +234,11 @@ std::complex<double> AmiBase::evaluate_term(ami_parms &parms, term &ami_term,
 
   output = ami_term.sign * gprod * fprod;
 
+  if ((std::abs(std::real(output)) > precision_cutoff) ||
+      (std::abs(std::imag(output)) > precision_cutoff)) {
+    overflow_detected = true;
+  }
+
   if (verbose) {
     std::cout << "Term gave " << ami_term.sign * fprod << " " << gprod << " "
               << output << std::endl;
@@ -264,6 +269,11 @@ std::complex<boost::multiprecision::float128> AmiBase::evaluate_term_mp(ami_parm
   std::complex<boost::multiprecision::float128> sign=dsign;
   output = sign * gprod * fprod;
 
+  if ((boost::multiprecision::abs(std::real(output)) > precision_cutoff) ||
+      (boost::multiprecision::abs(std::imag(output)) > precision_cutoff)) {
+    overflow_detected = true;
+  }
+
   if (verbose) {
     std::cout << "MP Term gave " << sign * fprod << " " << gprod << " "
               << output << std::endl;
-- 
2.43.0


From 73ceeaeb3a5677470278db22c3bd7acd4e79eec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:29 +0000
Subject: [PATCH 09/10] fix: a product beyond the precision cutoff raises the
 overflow flag without integrations too

---
 src/ami_base_evaluate.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ami_base_evaluate.cpp b/src/ami_base_evaluate.cpp
index 8b3b38f..4feb4b4 100644
--- a/src/ami_base_evaluate.cpp
+++ b/src/ami_base_evaluate.cpp
@@ -21,6 +21,11 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, R_t &R_array,
 
     gprod = eval_gprod(parms, R_array[0][0], external);
 
+    if ((std::abs(std::real(gprod)) > precision_cutoff) ||
+        (std::abs(std::imag(gprod)) > precision_cutoff)) {
+      overflow_detected = true;
+    }
+
     return gprod;
   }
 
@@ -236,6 +241,11 @@ std::complex<double> AmiBase::evaluate(ami_parms &parms, R_t &R_array,
 
     gprod = eval_gprod(parms, R_array[0][0], external);
 
+    if ((std::abs(std::real(gprod)) > precision_cutoff) ||
+        (std::abs(std::imag(gprod)) > precision_cutoff)) {
+      overflow_detected = true;
+    }
+
     return gprod;
   }
 
-- 
2.43.0


From 59d12795fddd3fcffaf1c69a9c8812a33da5757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:45 +0000
Subject: [PATCH 10/10] fix: the pole search accepts a product without factors

---
 src/ami_base_construct.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ami_base_construct.cpp b/src/ami_base_construct.cpp
index c15bc74..1234664 100644
--- a/src/ami_base_construct.cpp
+++ b/src/ami_base_construct.cpp
@@ -195,6 +195,11 @@ AmiBase::pole_array_t AmiBase::find_poles(int index, AmiBase::g_prod_t &R) {
   pole_array_t pole_array;
   pole_struct pole;
 
+  // an empty product has no poles
+  if (R.size() == 0) {
+    return pole_array;
+  }
+
   pole.alpha_.reserve(R[0].alpha_.size());
   pole.eps_.reserve(R[0].eps_.size());
 
-- 
2.43.0

