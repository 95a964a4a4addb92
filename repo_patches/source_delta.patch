From 3d95f6ad2d9c810e0dbd0a2bbdc91c420835e3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:08 +0000
Subject: [PATCH 01/38] fix: store lower and upper diagonals of the spline
 matrix in the right arrays

---
 include/catima/spline.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/catima/spline.h b/include/catima/spline.h
index 153b1e6..721a6f4 100644
--- a/include/catima/spline.h
+++ b/include/catima/spline.h
@@ -60,18 +60,18 @@ template<int N>
 double & tridiagonal_matrix<N>::operator () (unsigned int i, unsigned int j)
 {
     int k=j-i;
-    if(k == -1)return c[i];
+    if(k == -1)return a[i];
     else if(k==0) return d[i];
-    else return a[i];
+    else return c[i];
 }
 
 template<int N>
 double tridiagonal_matrix<N>::operator () (unsigned int i, unsigned int j) const
 {
     int k=j-i;
-    if(k==-1)return c[i];
+    if(k==-1)return a[i];
     else if(k==0) return d[i];
-    else if(k==1)return a[i];
+    else if(k==1)return c[i];
     else return 0.0;
 }
 
-- 
2.43.0


From 8d8e73057cef351e2a8f317968ee4398e43d0e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:09 +0000
Subject: [PATCH 02/38] fix: use the given config for the time of flight in
 calculate

---
 src/catima.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index c42c1cc..72630ca 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -336,7 +336,7 @@ Result calculate(Projectile p, const Material &t, const Config &c){
         }
         //Interpolator tof_spline(energy_table.values, tofdata.data(), energy_table.num,interpolation_t::linear);
         //res.tof = tof_spline(res.Ein) - tof_spline(res.Eout);
-        res.tof = calculate_tof_from_E(p,res.Eout,t);
+        res.tof = calculate_tof_from_E(p,res.Eout,t,c);
             
     } //end of else for non stopped case
     
-- 
2.43.0


From c2ac35ecb1e585f38ce7055c32ce9a5e22e2e510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:09 +0000
Subject: [PATCH 03/38] fix: use the energy argument in catima_range

---
 src/cwrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwrapper.cpp b/src/cwrapper.cpp
index 8ed94a3..4fd3bae 100644
--- a/src/cwrapper.cpp
+++ b/src/cwrapper.cpp
@@ -58,7 +58,7 @@ extern "C" {
         catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);
         catima::Material mat = make_material(ta,tz, 0, -1);
-        return range(p, mat);
+        return range(p(T), mat);
     }
 
     double catima_range_straggling(double pa, int pz, double T, double ta, double tz){
-- 
2.43.0


From 770c2cbc313417d86052a70aad2ac97eb3f1eba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:09 +0000
Subject: [PATCH 04/38] fix: apply the C effective charge setting in all C
 functions

---
 src/cwrapper.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cwrapper.cpp b/src/cwrapper.cpp
index 4fd3bae..bf70422 100644
--- a/src/cwrapper.cpp
+++ b/src/cwrapper.cpp
@@ -70,6 +70,7 @@ extern "C" {
     }
 
     double catima_angular_straggling_from_E(double pa, int pz, double Tin, double Tout,double ta, double tz){
+        catima::default_config.z_effective = catima_defaults.z_effective;
         catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);        
         catima::Material mat = make_material(ta,tz, 0, -1);
@@ -78,6 +79,7 @@ extern "C" {
     }
 
     double catima_energy_straggling_from_E(double pa, int pz, double Tin, double Tout,double ta, double tz){
+        catima::default_config.z_effective = catima_defaults.z_effective;
         catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);
         catima::Material mat = make_material(ta,tz, 0, -1);
@@ -87,6 +89,8 @@ extern "C" {
     double atomic_weight(int i){return catima::element_atomic_weight(i);}
 
     double catima_nonreaction_rate(double pa, int pz, double T, double ta, double tz, double thickness){
+        catima::default_config.z_effective = catima_defaults.z_effective;
+        catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);
         p.T = T;
         catima::Material mat = make_material(ta,tz, thickness, -1);
-- 
2.43.0


From 0a4b43eebbc49fdcd3ff5694dc370ee27b894579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:09 +0000
Subject: [PATCH 05/38] fix: compare scattering_factor exactly when comparing
 configs

---
 src/catima.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index 72630ca..7176005 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -23,7 +23,7 @@ bool operator==(const Config &a, const Config&b){
     if(a.corrections != b.corrections)return false;
     if(a.calculation != b.calculation)return false;
     if(a.low_energy != b.low_energy)return false;
-    if(fabs(a.scattering_factor-b.scattering_factor)>1e-3) return false;
+    if(a.scattering_factor != b.scattering_factor) return false;
     return true;
     }
 
-- 
2.43.0


From 12f1c2b3d229607ab8cc266c0673eb7d7d1a9afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:09 +0000
Subject: [PATCH 06/38] fix: keep table index in range just below the last
 table point

---
 include/catima/storage.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/catima/storage.h b/include/catima/storage.h
index 93ce59e..e6bb910 100644
--- a/include/catima/storage.h
+++ b/include/catima/storage.h
@@ -57,6 +57,7 @@ namespace catima{
         #ifdef ET_CALCULATED_INDEX
         double lxval = (std::log(v/values[0])/LN10);
         int i = static_cast<int> (std::floor(lxval/step));
+        if(i>N-2)i=N-2; // rounding of the log just below the last point
         if(v >= values[i+1]-numeric_epsilon)i++; // this is correction for floating point precision
         return i;
         #else
@@ -98,6 +99,7 @@ namespace catima{
             if(v>= (value(N-1)-numeric_epsilon))return N-1;
             double lxval = (log(v/value(0))/LN10);
             int i = static_cast<int> (std::floor(lxval/step));
+            if(i>N-2)i=N-2; // rounding of the log just below the last point
             if(v >= value(i+1)-numeric_epsilon)i++; // this is correction for floating point precision
             return i;
         }
-- 
2.43.0


From 3d08fa568726e60e1037611997d67e7b880aef24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:09 +0000
Subject: [PATCH 07/38] fix: limit precalculated LS coefficients to the
 tabulated charges

---
 include/catima/generated_LS_coeff.h | 2 +-
 utils/generator.cpp                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/catima/generated_LS_coeff.h b/include/catima/generated_LS_coeff.h
index e55117e..840e4d2 100644
--- a/include/catima/generated_LS_coeff.h
+++ b/include/catima/generated_LS_coeff.h
@@ -2,7 +2,7 @@
  #include "catima/storage.h"
 
 #define LS_NUM_ENERGY_POINTS 200
-#define LS_MAX_Z 110
+#define LS_MAX_Z 108
 namespace catima{
 
 namespace ls_coefficients{
diff --git a/utils/generator.cpp b/utils/generator.cpp
index bfaffea..f5ef309 100644
--- a/utils/generator.cpp
+++ b/utils/generator.cpp
@@ -38,7 +38,7 @@ int main(){
     file<<"#include \"catima/storage.h\"";
     file<<"\n\n";
     file<<"#define LS_NUM_ENERGY_POINTS "<<num_LS_datapoints<<"\n";
-    file<<"#define LS_MAX_Z "<<ATOMIC_WEIGHT_MAXZ<<"\n";
+    file<<"#define LS_MAX_Z "<<ATOMIC_WEIGHT_MAXZ-2<<"\n";
     file<<"namespace catima{\n\n";
     file<<"namespace ls_coefficients{\n\n";
     file<<"// relative difference of mass number for 2nd mass point ls_coefficients_ahi \n\n";
-- 
2.43.0


From eaea648b1dba21ef1a4469ef6cfbf52d6e73d566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:09 +0000
Subject: [PATCH 08/38] fix: use the last LS coefficient above the tabulated
 energies

---
 src/calculations.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index bbbea36..3ee2453 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -582,6 +582,7 @@ double precalculated_lindhard(const Projectile &p){
     int z = (int)p.Z ;
     if(z>LS_MAX_Z)z=LS_MAX_Z;
     if(p.T<ls_coefficients::ls_energy_table(0))T=ls_coefficients::ls_energy_table(0);
+    if(p.T>ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1))T=ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1);
 
     double da = (p.A - element_atomic_weight(z))/element_atomic_weight(z);
     z = z-1;
@@ -601,6 +602,7 @@ double precalculated_lindhard_X(const Projectile &p){
     if(z>LS_MAX_Z)z=LS_MAX_Z;
     //if(p.T<ls_coefficients::ls_energy_table(0))T=ls_coefficients::ls_energy_table(0);
     if(p.T<ls_coefficients::ls_energy_table(0))return 1.0;
+    if(p.T>ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1))T=ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1);
     double da = (p.A - element_atomic_weight(z))/element_atomic_weight(z);
     z = z-1;
 
-- 
2.43.0


From e0ab85182de4e82f6e5b7b7ddb1249ceca944f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:09 +0000
Subject: [PATCH 09/38] fix: pass velocity to Pierce-Blann in global effective
 charge

---
 src/calculations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index 3ee2453..da6dd9e 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -752,7 +752,7 @@ double z_eff_global(double pz, double E, double tz){
     if(E>2000)
         return pz;
     else if(E<30.0 || pz<29){        
-        return z_eff_Pierce_Blann(pz, E);
+        return z_eff_Pierce_Blann(pz, beta_from_T(E));
     }
     else{
         #ifdef GLOBAL
-- 
2.43.0


From b9ff252f4106b8297744d270a66039a6ad19fb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:09 +0000
Subject: [PATCH 10/38] fix: allow adding Layers to itself

---
 src/structures.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/structures.cpp b/src/structures.cpp
index 6257663..6269c5c 100644
--- a/src/structures.cpp
+++ b/src/structures.cpp
@@ -68,7 +68,8 @@ void Layers::add(Material m){
 }
 
 void Layers::add(const Layers& l){
-    for(auto m: l.get_materials()){
+    const auto added = l.get_materials(); // copy, l can be this object
+    for(auto& m: added){
       add(m);
     }
 }
-- 
2.43.0


From d7874e347843782bdd6ab4a6d24176891528ddb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:09 +0000
Subject: [PATCH 11/38] fix: calculate molar mass of weight fraction materials
 in add_element

---
 src/structures.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/structures.cpp b/src/structures.cpp
index 6269c5c..369798c 100644
--- a/src/structures.cpp
+++ b/src/structures.cpp
@@ -50,7 +50,11 @@ Material::Material(double _a, int _z, double _rho, double _th, double _ipot):rho
 void Material::add_element(double _a, int _z, double _stn){
     double a = (_a>0)?_a:element_atomic_weight(_z);
     atoms.push_back({a,_z,_stn});
-    molar_mass += _stn*a;
+    molar_mass = 0.0;
+    for(auto& e: atoms){
+        molar_mass += e.stn*e.A;
+    }
+    calculate(); // average molar mass in case of weight fractions
 }
 
 void Material::calculate(){
-- 
2.43.0


From 0f438e4b2c05e6087d2563bfff62b8921a91dac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:09 +0000
Subject: [PATCH 12/38] fix: use cross section per molecule in nonreaction_rate

---
 src/reactions.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/reactions.cpp b/src/reactions.cpp
index 6ce7958..2bf5982 100644
--- a/src/reactions.cpp
+++ b/src/reactions.cpp
@@ -28,15 +28,14 @@ double nonreaction_rate(Projectile &projectile, const Material &target, const Co
     if(energy_out(projectile.T, target.thickness(), range_spline) < emin_reaction)return -1.0;
     
     auto sigma_r = [&](double th){
-        double stn_sum=0.0, sum=0.0;
+        double sum=0.0;
         double e = energy_out(projectile.T, th, range_spline);
         for(unsigned int i = 0;i<target.ncomponents();i++){
             int zt = target.get_element(i).Z;
             int at = abundance::get_isotope_a(zt,0); // most abundand natural isotope mass
-            stn_sum += target.molar_fraction(i);
             sum += target.molar_fraction(i)*SigmaR_Kox(ap,zp,e,at,zt); 
         }
-        return sum/stn_sum;
+        return sum; // per molecule
     };
 
     //nurex::Nucleus nurex_projectile = nurex::get_default_nucleus(ap,zp);
-- 
2.43.0


From dbb82908af941c151afee8282836e45427fcfe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:09 +0000
Subject: [PATCH 13/38] fix: correct composition of Na2CO3, Polyolefin and RW3

---
 src/material_database.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/material_database.cpp b/src/material_database.cpp
index 114cc81..622c739 100644
--- a/src/material_database.cpp
+++ b/src/material_database.cpp
@@ -28,7 +28,7 @@ namespace catima{
 		 case material::Mylar:	 return Material({{0,6,10},{0,1,8},{0,8,4}},1.38);
 		 case material::NaF:	 return Material({{0,11,1},{0,9,1}},2.56);
 		 case material::P10:	 return Material({{0,18,9},{0,6,1},{0,1,4}},0.00166);
-		 case material::Polyolefin:	 return Material({{0,8,8},{0,1,16}},0.9);
+		 case material::Polyolefin:	 return Material({{0,6,8},{0,1,16}},0.9);
 		 case material::CmO2:	 return Material({{0,96,1},{0,8,2}},12);
 		 case material::Suprasil:	 return Material({{0,14,0.37722},{0,8,0.539562},{0,5,0.040064},{0,11,0.028191},{0,13,0.011644},{0,19,0.003321}},2.2);
 		 case material::HAVAR:	 return Material({{0,27,0.403228},{0,24,0.169412},{0,28,0.124301},{0,74,0.089847},{0,42,0.031259},{0,26,0.181952}},8.3);
@@ -118,7 +118,7 @@ namespace catima{
 		 case material::Muscle_strained:	 return Material({{0,1,0.101997},{0,6,0.123},{0,7,0.035},{0,8,0.729003},{0,11,0.0008},{0,12,0.0002},{0,15,0.002},{0,16,0.005},{0,19,0.003}},1.04);
 		 case material::Muscle_sucrose:	 return Material({{0,1,0.0982341},{0,6,0.156214},{0,7,0.035451},{0,8,0.710101}},1.11);
 		 case material::Muscle_no_sucrose:	 return Material({{0,1,0.101969},{0,6,0.120058},{0,7,0.035451},{0,8,0.742522}},1.07);
-		 case material::Na2CO3:	 return Material({{0,6,1},{0,8,3},{0,11,1}},2.532);
+		 case material::Na2CO3:	 return Material({{0,6,1},{0,8,3},{0,11,2}},2.532);
 		 case material::NaI:	 return Material({{0,11,1},{0,53,1}},3.667);
 		 case material::NaCl:	 return Material({{0,11,1},{0,17,1}},2.165);
 		 case material::Na2O:	 return Material({{0,8,1},{0,11,2}},2.27);
@@ -160,7 +160,7 @@ namespace catima{
 		 case material::LLZO_electrolyte:	 return Material({{0,3,7},{0,57,3},{0,40,2},{0,8,12}},5.1);
 		 case material::Nylon:	 return Material({{0,6,6},{0,1,11},{0,7,1},{0,8,1}},1.14);
 		 case material::Brass:   return Material({{0,29,0.63},{0,30,0.35},{0,82,0.02}},8.73);
-	         case material::RW3:  return Material({{0,1,0.0759},{0,6,0.9041},{0,6,0.008},{0,22,0.012}},1.045);
+	         case material::RW3:  return Material({{0,1,0.0759},{0,6,0.9041},{0,8,0.008},{0,22,0.012}},1.045);
             default:break;
              }
         return Material();
-- 
2.43.0


From dd1ea5ccbab2484db50c6c148780f40218fcfb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:09 +0000
Subject: [PATCH 14/38] fix: search all compounds in materialdb_id

---
 include/catima/convert.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/catima/convert.h b/include/catima/convert.h
index 9370865..12506f1 100644
--- a/include/catima/convert.h
+++ b/include/catima/convert.h
@@ -38,7 +38,7 @@ bool mocadi_material_match(const Material &a, const Material&b){
 }
 
 int materialdb_id(const Material &m){
-    for(int i=201;i<=347;i++){
+    for(int i=201;i<=349;i++){
         if(mocadi_material_match(get_material(i),m)){
             return i;
         }
-- 
2.43.0


From 8b93bba92928417ccd877e3d2d087d7b861150a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:09 +0000
Subject: [PATCH 15/38] fix: report write errors in save_mocadi

---
 include/catima/convert.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/catima/convert.h b/include/catima/convert.h
index 12506f1..f708f4f 100644
--- a/include/catima/convert.h
+++ b/include/catima/convert.h
@@ -73,7 +73,7 @@ bool save_mocadi(const char* filename, const Projectile p, const Layers &layers,
     }
     fw<<"ERWARTUNGSWERTE\nSAVE\nEND";
     fw.close();
-    return true;
+    return !fw.fail();
 }
 
 #endif
-- 
2.43.0


From 91ca0363c209e7543b78c970a85c01744b9a497a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:09 +0000
Subject: [PATCH 16/38] fix: reject negative isotope index

---
 src/abundance_database.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/abundance_database.cpp b/src/abundance_database.cpp
index 2cda3b5..0f44698 100644
--- a/src/abundance_database.cpp
+++ b/src/abundance_database.cpp
@@ -25,20 +25,20 @@ namespace abundance{
     
     int get_isotope_a(int z, int i){
         int num = get_isotopes_num(z);
-        if(num==0|| (i+1) > num)return 0;
+        if(num==0|| i<0 || (i+1) > num)return 0;
         return isotopes_a[abundance_z_index[z-1]+i];
     }
     
     float get_abundance(int z, int i){
         int num = get_isotopes_num(z);
-        if(num==0|| (i+1) > num)return 0;
+        if(num==0|| i<0 || (i+1) > num)return 0;
         return isotopes_abundance[abundance_z_index[z-1]+i];
     }
     
     std::pair<int,float> get_isotope(int z, int i){
         std::pair<int,float> res{0,0.0};
         int num = get_isotopes_num(z);
-        if(num==0|| (i+1) > num)return res;
+        if(num==0|| i<0 || (i+1) > num)return res;
         
         res.first = isotopes_a[abundance_z_index[z-1]+i];
         res.second = isotopes_abundance[abundance_z_index[z-1]+i];
-- 
2.43.0


From 28efdb80cbde836d7ad6bdb6ac64508f00354b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:09 +0000
Subject: [PATCH 17/38] fix: bracket the solution in energy_out

---
 src/catima.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index 7176005..8657599 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -210,13 +210,17 @@ double energy_out(double T, double thickness, const Interpolator &range_spline){
     dedx = 1.0/range_spline.derivative(T);
     if(range<= thickness) return 0.0;
     
+    double emin = Ezero, emax = T; // solution is inside since range > thickness
     e = T - (thickness*dedx);
+    if(e<emin)e = 0.5*(emin+emax);
     while(1){
         r = range - range_spline(e) - thickness;
         if(fabs(r)<Eout_th_epsilon)return e;
+        if(r>0.0)emin = e;
+        else emax = e;
         double step = -r*dedx;
         e = e-step;
-        if(e<Ezero)return 0.0;
+        if(e<emin || e>emax)e = 0.5*(emin+emax);
         dedx = 1.0/range_spline.derivative(e);
         counter++;
         assert(counter<=100);
-- 
2.43.0


From dd0dadc1a0f16492eafc9fc91d25a9325c62def4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:09 +0000
Subject: [PATCH 18/38] fix: do not take square root of negative straggling

---
 src/catima.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index 8657599..2d43a11 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -94,7 +94,7 @@ double range_straggling(const Projectile &p, double T, const Material &t, const
     auto& data = _storage.Get(p,t,c);
     //Interpolator range_straggling_spline(energy_table.values,data.range_straggling.data(),energy_table.num);
     spline_type range_straggling_spline = get_range_straggling_spline(data);
-    return sqrt(range_straggling_spline(T));
+    return sqrt(std::max(0.0,range_straggling_spline(T)));
 }
 
 double range_variance(const Projectile &p, double T, const Material &t, const Config &c){
@@ -197,7 +197,7 @@ double energy_straggling_from_E(const Projectile &p, double T, double Tout,const
     spline_type range_spline = get_range_spline(data);
     spline_type range_straggling_spline = get_range_straggling_spline(data);
     double dEdxo = p.A/range_spline.derivative(Tout);
-    return dEdxo*sqrt(range_straggling_spline(T) - range_straggling_spline(Tout))/p.A;
+    return dEdxo*sqrt(std::max(0.0,range_straggling_spline(T) - range_straggling_spline(Tout)))/p.A;
 }
 
 double energy_out(double T, double thickness, const Interpolator &range_spline){
@@ -290,7 +290,7 @@ Result calculate(Projectile p, const Material &t, const Config &c){
     res.Ein = T;
     res.range = range_spline(T);
     res.dEdxi = p.A/range_spline.derivative(T);   
-    res.sigma_r = sqrt(range_straggling_spline(T));        
+    res.sigma_r = sqrt(std::max(0.0,range_straggling_spline(T)));        
 
     if(t.thickness()==0){
         res.dEdxo = res.dEdxi;
@@ -315,7 +315,7 @@ Result calculate(Projectile p, const Material &t, const Config &c){
             double edif = (res.Ein-res.Eout);            
             double s1 = range_straggling_spline.derivative(T);
             double s2 = range_straggling_spline.derivative(res.Eout);
-            res.sigma_E = res.dEdxo*sqrt(edif*0.5*(s1+s2))/p.A;
+            res.sigma_E = res.dEdxo*sqrt(std::max(0.0,edif*0.5*(s1+s2)))/p.A;
             if(use_angular_spline){
                 s1 = angular_variance_spline.derivative(T);
                 s2 = angular_variance_spline.derivative(res.Eout);
@@ -323,14 +323,14 @@ Result calculate(Projectile p, const Material &t, const Config &c){
             }        
         }
         else{
-            res.sigma_E = res.dEdxo*sqrt(range_straggling_spline(T) - range_straggling_spline(res.Eout))/p.A;            
+            res.sigma_E = res.dEdxo*sqrt(std::max(0.0,range_straggling_spline(T) - range_straggling_spline(res.Eout)))/p.A;            
             if(use_angular_spline){
                 res.sigma_a = sqrt(angular_variance_spline(T) - angular_variance_spline(res.Eout));
             }
             
         }        
         #else
-        res.sigma_E = res.dEdxo*sqrt(range_straggling_spline(T) - range_straggling_spline(res.Eout))/p.A;
+        res.sigma_E = res.dEdxo*sqrt(std::max(0.0,range_straggling_spline(T) - range_straggling_spline(res.Eout)))/p.A;
         if(use_angular_spline){
             res.sigma_a = sqrt(angular_variance_spline(T) - angular_variance_spline(res.Eout));
         }        
-- 
2.43.0


From 166831e8db0b4d5e4f7a53b9413f1d7849c404a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:09 +0000
Subject: [PATCH 19/38] fix: set exit energy for empty layers

---
 src/catima.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/catima.cpp b/src/catima.cpp
index 2d43a11..d79b9d6 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -363,6 +363,7 @@ MultiResult calculate(const Projectile &p, const Phasespace &ps, const Layers &l
     MultiResult res;
     double e = p.T;
     res.total_result.Ein = e;
+    res.total_result.Eout = e;
     res.total_result.sigma_a = ps.sigma_a*ps.sigma_a;
     res.total_result.sigma_x = ps.sigma_x*ps.sigma_x;
     res.total_result.cov = ps.cov_x;
-- 
2.43.0


From 487e035dbab24a970b76c81ee52d21ccd3619fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:09 +0000
Subject: [PATCH 20/38] fix: allow build without reactions

---
 include/catima/constants.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/catima/constants.h b/include/catima/constants.h
index 4620abd..96d4ad4 100644
--- a/include/catima/constants.h
+++ b/include/catima/constants.h
@@ -15,8 +15,8 @@ constexpr double Eout_th_epsilon = 1e-5;  //
 
 constexpr double thin_target_limit = 1 - 1e-3;
 
-#ifdef REACTIONS
 constexpr double emin_reaction = 30.0;
+#ifdef REACTIONS
 constexpr bool reactions = true;
 #else
 constexpr bool reactions = false;
-- 
2.43.0


From f15ef55f3cf789f19497278f15559e79b0b9ac4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:09 +0000
Subject: [PATCH 21/38] fix: return all integration points for odd orders

---
 include/catima/gkq_integrator.h | 6 ++++--
 include/catima/glq_integrator.h | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/catima/gkq_integrator.h b/include/catima/gkq_integrator.h
index 51db896..98f0278 100644
--- a/include/catima/gkq_integrator.h
+++ b/include/catima/gkq_integrator.h
@@ -158,9 +158,11 @@ std::array<double,order> GaussKronrodIntegration<order>::get_points(double a,  d
     double q = 0.5*(b+a);
 
     int num = (order/2);
+    int odd = order%2;
+    if(odd){points[num] = q;} // middle point in case odd-order
     for(int i=0;i< num;i++){
-        points[num-i-1] = -p*x(i) + q;
-        points[num+i] = p*x(i) + q;
+        points[num-i-1] = -p*x(i+odd) + q;
+        points[num+odd+i] = p*x(i+odd) + q;
     }
     return points;
 }
diff --git a/include/catima/glq_integrator.h b/include/catima/glq_integrator.h
index d3aaf3e..69fcc24 100644
--- a/include/catima/glq_integrator.h
+++ b/include/catima/glq_integrator.h
@@ -56,9 +56,11 @@ std::array<double,order> GaussLegendreIntegration<order>::get_points(double a,
     double q = 0.5*(b+a);
 
     int num = (order/2);
+    int odd = order%2;
+    if(odd){points[num] = q;} // middle point in case odd-order
     for(int i=0;i< num;i++){
-        points[num-i-1] = -p*x(i) + q;
-        points[num+i] = p*x(i) + q;
+        points[num-i-1] = -p*x(i+odd) + q;
+        points[num+odd+i] = p*x(i+odd) + q;
     }
     return points;
 }
-- 
2.43.0


From a6d4c2b812b5fb8494f1d3b5f0926fed2fe3b1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:09 +0000
Subject: [PATCH 22/38] fix: include the middle points in 2D integration of odd
 orders

---
 include/catima/glq_integrator.h | 44 ++++++++-------------------------
 1 file changed, 10 insertions(+), 34 deletions(-)

diff --git a/include/catima/glq_integrator.h b/include/catima/glq_integrator.h
index 69fcc24..c0af244 100644
--- a/include/catima/glq_integrator.h
+++ b/include/catima/glq_integrator.h
@@ -80,23 +80,11 @@ private:
 template<int order>
 template<typename F>
 double GaussLegendreIntegration2D<order>::integrate(F& f, double a, double b, double c, double d) const{
-    double res=0.0;
-    double p = (b-a)/2.0;
-    double q = (b+a)/2.0;
-    double r = (d-c)/2.0;
-    double s = (d+c)/2.0;
-
-    double xx, yy, sum;
-    for(int i=0;i<order/2;i++){
-        xx = (p*integrator.x(i));
-        for(int j=0;j<order/2;j++){
-            yy = (r*integrator.x(j));
-            sum = (f(xx + q, yy + s) + f(xx + q, -yy+s));
-            sum += (f(-xx + q, yy + s) + f(-xx + q, -yy+s));
-            res += integrator.w(i) * integrator.w(j) * sum;
-        }
-    }
-    return p*r*res;
+    auto fx = [&](double x){
+        auto fy = [&](double y){return f(x,y);};
+        return integrator.integrate(fy, c, d);
+    };
+    return integrator.integrate(fx, a, b);
 }
 
 template<int order, int order2 = order>
@@ -114,23 +102,11 @@ private:
 template<int order, int order2>
 template<typename F>
 double GaussLegendreIntegration2DA<order, order2>::integrate(F& f, double a, double b, double c, double d) const{
-    double res=0.0;
-    double p = (b-a)/2.0;
-    double q = (b+a)/2.0;
-    double r = (d-c)/2.0;
-    double s = (d+c)/2.0;
-
-    double xx, yy, sum;
-    for(int i=0;i<order/2;i++){
-        xx = (p*integrator.x(i));
-        for(int j=0;j<order2/2;j++){
-            yy = (r*integrator2.x(j));
-            sum = (f(xx + q, yy + s) + f(xx + q, -yy+s));
-            sum += (f(-xx + q, yy + s) + f(-xx + q, -yy+s));
-            res += integrator.w(i) * integrator2.w(j) * sum;
-        }
-    }
-    return p*r*res;
+    auto fx = [&](double x){
+        auto fy = [&](double y){return f(x,y);};
+        return integrator2.integrate(fy, c, d);
+    };
+    return integrator.integrate(fx, a, b);
 }
 
 /// weights
-- 
2.43.0


From a3e4ae5fab315f7eb53ff03f3782e8bc2b40be02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:09 +0000
Subject: [PATCH 23/38] fix: use density from the config file for compounds

---
 bin/catima_calculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/catima_calculator.cpp b/bin/catima_calculator.cpp
index 2b4d482..92fb1bd 100644
--- a/bin/catima_calculator.cpp
+++ b/bin/catima_calculator.cpp
@@ -243,7 +243,7 @@ Material json_material(json &j){
             throw std::invalid_argument("Could not parse json file (material section)");
             }
         
-        if(density<=0){
+        if(density<=0 && z<200){
             density = element_density(z);
             if(density<=0)cout<<"Warning: material density = "<<density<<"\n";
             }
@@ -259,6 +259,7 @@ Material json_material(json &j){
         else{
             Material m = get_material(z);
             m.thickness(th);
+            if(density>0)m.density(density);
             return m;
             }
         
-- 
2.43.0


From 33f27bba0a025075ae295a37a172ffb60285dafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:09 +0000
Subject: [PATCH 24/38] fix: accept 2 energy points in catima_calculator

---
 bin/catima_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/catima_calculator.cpp b/bin/catima_calculator.cpp
index 92fb1bd..c9a81de 100644
--- a/bin/catima_calculator.cpp
+++ b/bin/catima_calculator.cpp
@@ -87,7 +87,7 @@ int main( int argc, char * argv[] )
                         if(e.count("num")){
                             num = e["num"].get<int>();
                         }
-                        if(num>2)
+                        if(num>=2)
                             energies  =  linspace_vector(emin,emax,num);
                     }
                 }
-- 
2.43.0


From 033e0a8618dd455c996d097be9c83cb0e8cca402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:09 +0000
Subject: [PATCH 25/38] fix: use energy step from the config file as given

---
 bin/catima_calculator.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bin/catima_calculator.cpp b/bin/catima_calculator.cpp
index c9a81de..3671441 100644
--- a/bin/catima_calculator.cpp
+++ b/bin/catima_calculator.cpp
@@ -81,12 +81,16 @@ int main( int argc, char * argv[] )
                         double emin = e["min"].get<double>();
                         double emax = e["max"].get<double>();
                         int num=0;
-                        if(e.count("step")){
-                            num = 1+(emax-emin)/e["step"].get<int>();
-                        }
                         if(e.count("num")){
                             num = e["num"].get<int>();
                         }
+                        else{
+                            double step = e["step"].get<double>();
+                            if(step>0.0){
+                                num = 1+(emax-emin)/step + 1e-9;
+                                emax = emin + (num-1)*step;
+                            }
+                        }
                         if(num>=2)
                             energies  =  linspace_vector(emin,emax,num);
                     }
-- 
2.43.0


From f4f07e278a088283549091cc596a3861e912f6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:09 +0000
Subject: [PATCH 26/38] fix: reject projectile which is not an array

---
 bin/catima_calculator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/catima_calculator.cpp b/bin/catima_calculator.cpp
index 3671441..bf0eb8d 100644
--- a/bin/catima_calculator.cpp
+++ b/bin/catima_calculator.cpp
@@ -55,6 +55,9 @@ int main( int argc, char * argv[] )
                     projectile.A = j["projectile"].at(0).get<double>();
                     projectile.Z = j["projectile"].at(1).get<double>();
                 }
+                else{
+                    throw std::invalid_argument("projectile field is not an array");
+                }
             }
             else{
                 throw std::invalid_argument("projectile field is missing");
-- 
2.43.0


From 4ae062d72cee003f29a0cfa412c80027324b4e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:13:33 +0000
Subject: [PATCH 27/38] Allow smaller result cache for state exploration with
 CATIMA_MC_STORAGE

---
 include/catima/constants.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/catima/constants.h b/include/catima/constants.h
index 96d4ad4..45f696b 100644
--- a/include/catima/constants.h
+++ b/include/catima/constants.h
@@ -9,7 +9,11 @@ constexpr double Ezero = 1E-3; // lowest E to calculate, below taken as 0
 constexpr double logEmin = -3; // log of minimum energy
 constexpr double logEmax = 7.0;  // log of max energy
 constexpr int max_datapoints = 600; // how many datapoints between logEmin and logEmax
+#ifdef CATIMA_MC_STORAGE
+constexpr int max_storage_data = CATIMA_MC_STORAGE; // small cache for state exploration
+#else
 constexpr int max_storage_data = 60; // number of datapoints which can be stored in cache
+#endif
 constexpr double numeric_epsilon = 10*std::numeric_limits<double>::epsilon();
 constexpr double Eout_th_epsilon = 1e-5;  //
 
-- 
2.43.0


From 5b1169bf9557c2f989bb74d60df389eaa0849199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:14:50 +0000
Subject: [PATCH 28/38] fix: apply scattering_factor to all scattering moments

---
 src/catima.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index d79b9d6..0fca74e 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -175,9 +175,9 @@ double angular_variance(Projectile p, const Material &t, const Config &c, int or
     
     // corrections      
     if(c.scattering == scattering_types::gottschalk){
-        return integrator.integrate(fx0p_2,0, rrange)*t.density();
+        return c.scattering_factor*integrator.integrate(fx0p_2,0, rrange)*t.density();
     }
-    return integrator.integrate(fx0p,0, rrange)*t.density()*ipow(p.Z,2)*Es2/X0;
+    return c.scattering_factor*integrator.integrate(fx0p,0, rrange)*t.density()*ipow(p.Z,2)*Es2/X0;
 }
 
 double angular_straggling(Projectile p, const Material &t, const Config &c){
-- 
2.43.0


From fad1b6a8ae94a8fc78863f396c26e3a455a6f7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:27 +0000
Subject: [PATCH 29/38] fix: include iodine in photographic emulsion

---
 src/material_database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/material_database.cpp b/src/material_database.cpp
index 622c739..18551dd 100644
--- a/src/material_database.cpp
+++ b/src/material_database.cpp
@@ -129,7 +129,7 @@ namespace catima{
 		 case material::Octane:	 return Material({{0,1,18},{0,6,8}},0.703);
 		 case material::Paraffin:	 return Material({{0,1,0.148605},{0,6,0.851395}},0.93);
 		 case material::nPentane:	 return Material({{0,1,12},{0,6,5}},0.626);
-		 case material::PhotoEmulsion:	 return Material({{0,1,0.0141},{0,6,0.072261},{0,7,0.01932},{0,8,0.066101},{0,16,0.00189},{0,35,0.349103},{0,47,0.474105}},3.815);
+		 case material::PhotoEmulsion:	 return Material({{0,1,0.0141},{0,6,0.072261},{0,7,0.01932},{0,8,0.066101},{0,16,0.00189},{0,35,0.349103},{0,47,0.474105},{0,53,0.00312}},3.815);
 		 case material::PuO2:	 return Material({{0,8,2},{0,94,1}},11.46);
 		 case material::Polyacrylonitrile:	 return Material({{0,1,3},{0,6,3},{0,7,1}},1.184);
 		 case material::Polycarbonate:	 return Material({{0,1,0.055491},{0,6,0.755751},{0,8,0.188758}},1.2);
-- 
2.43.0


From 87f1fff8a2087c820f1afa509caf4bd661446f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:07:11 +0000
Subject: [PATCH 30/38] fix: keep linear table interpolation inside the table
 just below the last point

---
 include/catima/storage.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/catima/storage.h b/include/catima/storage.h
index e6bb910..5ea40ee 100644
--- a/include/catima/storage.h
+++ b/include/catima/storage.h
@@ -74,6 +74,7 @@ namespace catima{
 	    if(xval<table.values[0] || xval>table.values[table.size()-1])return 0.0;
 	    if(xval==table.values[table.size()-1])return y[table.size()-1];
         int i = table.index(xval);
+        if(i>=table.size()-1)return y[table.size()-1]; // index rounds up just below the last point
 	    double linstep = table.values[i+1] - table.values[i];
         if(linstep == 0.0)return table.values[i];
 	    double x = 1.0 - ((xval - table.values[i])/linstep);
-- 
2.43.0


From 5034b97d5dd9eeb03bfefafa9659530205a08a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:47:35 +0000
Subject: [PATCH 31/38] fix: correct sign of the Coulomb correction in the
 radiation length

---
 src/calculations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index da6dd9e..056f735 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -547,7 +547,7 @@ double radiation_length(int z, double m){
     double a2 = fine_structure*fine_structure*z2;
     double a4 = a2*a2;
     double a6 = a4*a2;
-    lr= 716.405*m/(z2* (log(184.15*z_13) + log(1194.0*z_23)/z - -1.202*a2 + 1.0369*a4 - 1.008*a6/(1+a2) ) );
+    lr= 716.405*m/(z2* (log(184.15*z_13) + log(1194.0*z_23)/z - 1.202*a2 + 1.0369*a4 - 1.008*a6/(1+a2) ) );
     return lr;
 }
 
-- 
2.43.0


From 04bfa5a0f4cc8645bf650e45d56d82c13ccd3dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:47:39 +0000
Subject: [PATCH 32/38] fix: do not truncate the mass in the scattering length

---
 src/calculations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index 056f735..caf989d 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -561,7 +561,7 @@ double radiation_length(const Material &material){
     return 1/sum;
 }
 
-double scattering_length(int a, int z){
+double scattering_length(double a, int z){
     double c = 0.00034896*z*z*(2*std::log(33219*std::pow(a*z,-1.0/3.0))-1)/a;
     return 1.0/c;
 }
-- 
2.43.0


From 02b556fd0d89f48f690c7c5f41c579cfd0f89a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:49:05 +0000
Subject: [PATCH 33/38] fix: use e^2 in the Coulomb barrier of the Kox cross
 section

---
 src/reactions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactions.cpp b/src/reactions.cpp
index 2bf5982..565dfaf 100644
--- a/src/reactions.cpp
+++ b/src/reactions.cpp
@@ -76,7 +76,7 @@ double SigmaR_Kox(int Ap, int Zp, double E, int At, int Zt){
     double Ap13 = pow(Ap,1.0/3.0);
     double At13 = pow(At,1.0/3.0);
     double D = 5.0*(At-2*Zt)*Zp/(Ap*At);
-    double Bc = Zp*Zt/(rc*(Ap13+At13));
+    double Bc = 1.44*Zp*Zt/(rc*(Ap13+At13)); // e^2 = 1.44 MeV fm
     double logE = std::log10(E);
     double c = 0;
     if(logE < 1.5){
-- 
2.43.0


From 61da0baebf5145f2c417cc449929297920765da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:56:07 +0000
Subject: [PATCH 34/38] fix: close the namespace inside the include guard of
 reactions.h

---
 include/catima/reactions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/catima/reactions.h b/include/catima/reactions.h
index 2318e4d..e000120 100644
--- a/include/catima/reactions.h
+++ b/include/catima/reactions.h
@@ -63,5 +63,5 @@ inline double Ecm_from_T(double T, double Ap, double At){
 }
 
 #endif //NUREX
-#endif
 } // end of catime namespace
+#endif
-- 
2.43.0


From 0939d583644ba81c9d36df79058378d0eb7c7e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:56:14 +0000
Subject: [PATCH 35/38] fix: add include guard to srim.h

---
 include/catima/srim.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/catima/srim.h b/include/catima/srim.h
index 52043bd..1c6f521 100644
--- a/include/catima/srim.h
+++ b/include/catima/srim.h
@@ -1,3 +1,5 @@
+#ifndef CATIMA_SRIM_H
+#define CATIMA_SRIM_H
 
 namespace catima{
 
@@ -22,4 +24,5 @@ extern const double pse_95[92][8];
 extern const double atima_lambda_screening[92];
 extern const double atima_vfermi[92];
 extern const double proton_stopping_coef[92][8];
-}
\ No newline at end of file
+}
+#endif
-- 
2.43.0


From c41524ae270af37ed843264bc6b10e3c8f7f6b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:56:59 +0000
Subject: [PATCH 36/38] fix: do not index the tables with nan

---
 include/catima/storage.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/catima/storage.h b/include/catima/storage.h
index 5ea40ee..f66192c 100644
--- a/include/catima/storage.h
+++ b/include/catima/storage.h
@@ -51,7 +51,7 @@ namespace catima{
 	const double* begin()const{return values;}
     const double* end()const{return &values[num];}
     int index(double v)const noexcept{        
-        if(v<values[0] || step==0.0)return -1;
+        if(!(v>=values[0]) || step==0.0)return -1; // also nan
         if(v>=values[N-1]-numeric_epsilon)return N-1;
         
         #ifdef ET_CALCULATED_INDEX
@@ -71,7 +71,7 @@ namespace catima{
 	template<typename T>
 	double EnergyTable_interpolate(const T &table, double xval, double *y){
 	    double r;
-	    if(xval<table.values[0] || xval>table.values[table.size()-1])return 0.0;
+	    if(!(xval>=table.values[0]) || xval>table.values[table.size()-1])return 0.0;
 	    if(xval==table.values[table.size()-1])return y[table.size()-1];
         int i = table.index(xval);
         if(i>=table.size()-1)return y[table.size()-1]; // index rounds up just below the last point
@@ -96,7 +96,7 @@ namespace catima{
         double operator()(int i)const noexcept{return value(i);}
         double step_size()const noexcept{return step;}
         int index(double v)const noexcept{
-            if(v<value(0) || step==0.0)return -1;
+            if(!(v>=value(0)) || step==0.0)return -1;
             if(v>= (value(N-1)-numeric_epsilon))return N-1;
             double lxval = (log(v/value(0))/LN10);
             int i = static_cast<int> (std::floor(lxval/step));
@@ -122,7 +122,7 @@ namespace catima{
         constexpr static int size() noexcept{return N;}
         double operator[](int i)const noexcept{return i*step + min;}
         int index(double v)const noexcept{
-            if(v<min || step==0.0)return -1;
+            if(!(v>=min) || step==0.0)return -1;
             if(v>=max)return N-1;
             assert(step>0.0);
             return static_cast<int> (std::floor((v-min)/step));
-- 
2.43.0


From 657209c620f6a1eedb582e9a36367b275b4186f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:58:31 +0000
Subject: [PATCH 37/38] fix: do not read outside the tables for charges below
 one

---
 src/calculations.cpp | 3 +++
 src/srim.cpp         | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index caf989d..668a0a3 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -155,6 +155,7 @@ double bethek_density_effect(double beta, int zt){
     if(zt>97){  // check if data are available, if not take highest z data
         zt=97;
         }
+    if(zt<1)return 0.0;
     i = zt-1;
 
     if (x < density_effect::x0[i] ){
@@ -581,6 +582,7 @@ double precalculated_lindhard(const Projectile &p){
     double T = p.T;
     int z = (int)p.Z ;
     if(z>LS_MAX_Z)z=LS_MAX_Z;
+    if(z<1)z=1;
     if(p.T<ls_coefficients::ls_energy_table(0))T=ls_coefficients::ls_energy_table(0);
     if(p.T>ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1))T=ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1);
 
@@ -600,6 +602,7 @@ double precalculated_lindhard_X(const Projectile &p){
     double T = p.T;
     int z = (int)p.Z ;
     if(z>LS_MAX_Z)z=LS_MAX_Z;
+    if(z<1)z=1;
     //if(p.T<ls_coefficients::ls_energy_table(0))T=ls_coefficients::ls_energy_table(0);
     if(p.T<ls_coefficients::ls_energy_table(0))return 1.0;
     if(p.T>ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1))T=ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1);
diff --git a/src/srim.cpp b/src/srim.cpp
index d7f6c13..e2622a1 100644
--- a/src/srim.cpp
+++ b/src/srim.cpp
@@ -57,6 +57,7 @@ double p_se85(int Z, double energy){
   * @param energy - projectile energy in MeV/u unit
   */
 double srim_dedx_e(int pZ, int tZ, double energy, bool use_new){
+    if(pZ<1 || tZ<1)return 0.0; // no data
     double e=energy*1000; // e in keV/u
     double se = 0;
     double (*const fp_se)(int, double) = (use_new)?p_se:p_se85;
-- 
2.43.0


From 785776cf4c7f64a3a1ce8a55a1fe75593cea4ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:04:19 +0000
Subject: [PATCH 38/38] fix: allow convert.h in several source files

The export functions are defined in the header without inline, so a
program which includes it in two source files did not link.
---
 include/catima/convert.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/catima/convert.h b/include/catima/convert.h
index f708f4f..86702a5 100644
--- a/include/catima/convert.h
+++ b/include/catima/convert.h
@@ -25,7 +25,7 @@
 
 using namespace catima;
 
-bool mocadi_material_match(const Material &a, const Material&b){
+inline bool mocadi_material_match(const Material &a, const Material&b){
     if(std::fabs(a.density() - b.density())> 1e-6)return false;
     if(a.ncomponents() != b.ncomponents())return false;
     for(int i=0;i<a.ncomponents();i++){
@@ -37,7 +37,7 @@ bool mocadi_material_match(const Material &a, const Material&b){
     return true;
 }
 
-int materialdb_id(const Material &m){
+inline int materialdb_id(const Material &m){
     for(int i=201;i<=349;i++){
         if(mocadi_material_match(get_material(i),m)){
             return i;
@@ -46,7 +46,7 @@ int materialdb_id(const Material &m){
     return 0;
 }
 
-bool save_mocadi(const char* filename, const Projectile p, const Layers &layers, const Phasespace &psx={}, const Phasespace &psy={}){
+inline bool save_mocadi(const char* filename, const Projectile p, const Layers &layers, const Phasespace &psx={}, const Phasespace &psy={}){
     std::ofstream fw;
     fw.open(filename, std::ios::out);
     if (!fw.is_open()) { return false;}
-- 
2.43.0

