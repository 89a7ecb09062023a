From 2fa6d5cde64fdc1183c7c05f8d8e7fce97eaf668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:54 +0000
Subject: [PATCH 01/23] fix: don't reuse a cached phase advance when the
 direction of propagation changes

MomentElementBase::advance() stored the output phases in its cache, so a
backward pass starting from the state a previous forward pass started from
(or the other way round) got the phase advance with the wrong sign.
---
 src/moment.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/moment.cpp b/src/moment.cpp
index 6a073e3..413f1b3 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -673,16 +673,6 @@ void MomentElementBase::advance(StateBase& s)
 
         ST.recalc();
 
-        if(!ST.retreat){
-            ST.ref.phis += ST.ref.SampleIonK*length*MtoMM;
-            for(size_t k=0; k<last_real_in.size(); k++)
-                ST.real[k].phis += ST.real[k].SampleIonK*length*MtoMM;
-        } else {
-            ST.ref.phis -= ST.ref.SampleIonK*length*MtoMM;
-            for(size_t k=0; k<last_real_in.size(); k++)
-                ST.real[k].phis -= ST.real[k].SampleIonK*length*MtoMM;
-        }
-
         last_ref_out = ST.ref;
         last_real_out = ST.real;
     } else {
@@ -693,6 +683,17 @@ void MomentElementBase::advance(StateBase& s)
                   ST.real.begin());
     }
 
+    // The phase advance depends on the direction of propagation, so it isn't part of the cached result.
+    if(!ST.retreat){
+        ST.ref.phis += ST.ref.SampleIonK*length*MtoMM;
+        for(size_t k=0; k<last_real_in.size(); k++)
+            ST.real[k].phis += ST.real[k].SampleIonK*length*MtoMM;
+    } else {
+        ST.ref.phis -= ST.ref.SampleIonK*length*MtoMM;
+        for(size_t k=0; k<last_real_in.size(); k++)
+            ST.real[k].phis -= ST.real[k].SampleIonK*length*MtoMM;
+    }
+
     if(!ST.retreat){
         // Forward propagation
         ST.pos += length;
-- 
2.43.0


From adaaf88aa82fc8e1f20b371ae494d10d8c7e07c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:29 +0000
Subject: [PATCH 02/23] fix: don't reuse the cached result of a failed matrix
 computation

When recompute_matrix() throws (eg. required parameter missing) the element's
cache already described the new input, so advancing again from the same input
silently used stale or identity matricies and a NaN energy.
---
 src/flame/moment.h    |  3 +++
 src/flame/rf_cavity.h | 31 ++++++++++++++++++-------------
 src/moment.cpp        | 20 ++++++++++++++++++--
 3 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/src/flame/moment.h b/src/flame/moment.h
index b4c1e91..64a0fc3 100644
--- a/src/flame/moment.h
+++ b/src/flame/moment.h
@@ -170,6 +170,9 @@ struct MomentElementBase : public ElementVoid
     //! in the provided new input state.
     void resize_cache(const state_t& ST);
 
+    //! Forget previous results.  eg. after recompute_matrix() fails
+    void invalidate_cache();
+
     //! recalculate 'transfer' taking into consideration the provided input state
     virtual void recompute_matrix(state_t& ST);
 
diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index 4728129..aa8cc34 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -170,25 +170,30 @@ struct ElementRFCavity : public MomentElementBase
             resize_cache(ST);
             // need to re-calculate energy dependent terms
 
-            std::string newtype = conf().get<std::string>("cavtype");
-            if (CavType != newtype){
-                lattice.clear();
-                SynAccTab.clear();
-                LoadCavityFile(conf());
-            } else if (CavType == "Generic") {
-                std::string newfile = conf().get<std::string>("Eng_Data_Dir", defpath);
-                newfile += "/" + conf().get<std::string>("datafile");
-                if (DataFile != newfile) {
+            try {
+                std::string newtype = conf().get<std::string>("cavtype");
+                if (CavType != newtype){
                     lattice.clear();
                     SynAccTab.clear();
                     LoadCavityFile(conf());
+                } else if (CavType == "Generic") {
+                    std::string newfile = conf().get<std::string>("Eng_Data_Dir", defpath);
+                    newfile += "/" + conf().get<std::string>("datafile");
+                    if (DataFile != newfile) {
+                        lattice.clear();
+                        SynAccTab.clear();
+                        LoadCavityFile(conf());
+                    }
                 }
-            }
 
-            recompute_matrix(ST); // updates transfer and last_Kenergy_out
+                recompute_matrix(ST); // updates transfer and last_Kenergy_out
 
-            for(size_t i=0; i<last_real_in.size(); i++)
-                get_misalign(ST, ST.real[i], misalign[i], misalign_inv[i]);
+                for(size_t i=0; i<last_real_in.size(); i++)
+                    get_misalign(ST, ST.real[i], misalign[i], misalign_inv[i]);
+            }catch(...){
+                invalidate_cache();
+                throw;
+            }
 
             ST.recalc();
 
diff --git a/src/moment.cpp b/src/moment.cpp
index 413f1b3..8875da4 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -669,7 +669,12 @@ void MomentElementBase::advance(StateBase& s)
         last_real_in = ST.real;
         resize_cache(ST);
 
-        recompute_matrix(ST); // updates transfer and last_Kenergy_out
+        try {
+            recompute_matrix(ST); // updates transfer and last_Kenergy_out
+        }catch(...){
+            invalidate_cache();
+            throw;
+        }
 
         ST.recalc();
 
@@ -758,6 +763,12 @@ void MomentElementBase::resize_cache(const state_t& ST)
     misalign_inv.resize(ST.real.size(), boost::numeric::ublas::identity_matrix<double>(state_t::maxsize));
 }
 
+void MomentElementBase::invalidate_cache()
+{
+    last_real_in.clear();
+    last_real_out.clear();
+}
+
 void MomentElementBase::recompute_matrix(state_t& ST)
 {
     // Default, initialize as no-op
@@ -952,7 +963,12 @@ struct ElementSBend : public MomentElementBase
             last_real_in = ST.real;
             resize_cache(ST);
 
-            recompute_matrix(ST); // updates transfer and last_Kenergy_out
+            try {
+                recompute_matrix(ST); // updates transfer and last_Kenergy_out
+            }catch(...){
+                invalidate_cache();
+                throw;
+            }
 
             ST.recalc();
             last_ref_out = ST.ref;
-- 
2.43.0


From 9de068b0e172847583877c1736b99c01f6f4864d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:44 +0000
Subject: [PATCH 03/23] fix: reconfigure() of a source in Vector/TransferMatrix
 simulations

The element's assign() didn't copy the initial state, so the new
configuration was accepted but never used.
---
 src/linear.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/linear.cpp b/src/linear.cpp
index 958595e..4451b0c 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -193,6 +193,13 @@ struct ElementSource : public Base
     virtual ~ElementSource() {}
 
     virtual const char* type_name() const {return "source";}
+
+    virtual void assign(const ElementVoid *other)
+    {
+        base_t::assign(other);
+        const ElementSource* O=static_cast<const ElementSource*>(other);
+        istate.assign(O->istate);
+    }
 };
 
 template<typename Base>
-- 
2.43.0


From fbc718e536fc1e1f9db87df622914f7150f983b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:09 +0000
Subject: [PATCH 04/23] fix: Config::flatten() modifies other Configs sharing
 the same inner scope

---
 src/config.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config.cpp b/src/config.cpp
index df2468f..a4604ff 100644
--- a/src/config.cpp
+++ b/src/config.cpp
@@ -116,6 +116,7 @@ void Config::push_scope()
 void Config::flatten()
 {
     if(implicit_values) {
+        _cow();
         values->insert(implicit_values->begin(),
                        implicit_values->end());
         implicit_values.reset();
-- 
2.43.0


From aa0d95ddef35605c1e5a21a71a16b1014eac7ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:43 +0000
Subject: [PATCH 05/23] fix: sector bend dispersion when horizontally
 defocusing (sinh) or with no net focusing (NaN)

---
 src/moment_sup.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/moment_sup.cpp b/src/moment_sup.cpp
index 6f5387e..def417d 100644
--- a/src/moment_sup.cpp
+++ b/src/moment_sup.cpp
@@ -226,7 +226,8 @@ void GetSBendMatrix(const double L, const double phi, const double phi1, const d
             Kx  = K + 1e0/sqr(rho),
             Ky  = -K,
             dx  = 0e0,
-            sx  = 0e0;
+            sx  = 0e0,
+            lx  = 0e0;
 
     // Horizontal plane.
     GetQuadMatrix(L, Kx, (unsigned)state_t::PS_X, M);
@@ -237,13 +238,16 @@ void GetSBendMatrix(const double L, const double phi, const double phi1, const d
     if (Kx == 0e0) {
         dx = sqr(L)/(2e0*rho);
         sx = L/rho;
+        lx = cube(L)/(6e0*sqr(rho));
     } else if (Kx > 0e0) {
         dx = (1e0-cos(sqrt(Kx)*L))/(rho*Kx);
         sx = sin(sqrt(Kx)*L)/(rho*sqrt(Kx));
     } else {
         dx = (1e0-cosh(sqrt(-Kx)*L))/(rho*Kx);
-        sx = sin(sqrt(-Kx)*L)/(rho*sqrt(-Kx));
+        sx = sinh(sqrt(-Kx)*L)/(rho*sqrt(-Kx));
     }
+    if (Kx != 0e0)
+        lx = (L/rho-sx)/(Kx*rho);
 
     M(state_t::PS_X,  state_t::PS_PS) = dx/(sqr(dip_beta)*dip_gamma*IonEs/MeVtoeV);
     M(state_t::PS_PX, state_t::PS_PS) = sx/(sqr(dip_beta)*dip_gamma*IonEs/MeVtoeV);
@@ -252,11 +256,11 @@ void GetSBendMatrix(const double L, const double phi, const double phi1, const d
     M(state_t::PS_S,  state_t::PS_PX) = dx*dip_IonK;
     // Low beta approximation.
     M(state_t::PS_S,  state_t::PS_PS) =
-            ((L/rho-sx)/(Kx*rho)-L/sqr(ref_gamma))*dip_IonK
+            (lx-L/sqr(ref_gamma))*dip_IonK
             /(sqr(dip_beta)*dip_gamma*IonEs/MeVtoeV);
 
     // Add dipole terms.
-    M(state_t::PS_S,  6) = ((L/rho-sx)/(Kx*rho)*d-L/sqr(ref_gamma)*(d+qmrel))*dip_IonK;
+    M(state_t::PS_S,  6) = (lx*d-L/sqr(ref_gamma)*(d+qmrel))*dip_IonK;
     M(state_t::PS_X,  6) = dx*d;
     M(state_t::PS_PX, 6) = sx*d;
 
-- 
2.43.0


From c7d949597b3e64756e1065438559de94197c50da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:43 +0000
Subject: [PATCH 06/23] fix: electrostatic bend dispersion is NaN when
 horizontally defocusing

---
 src/moment_sup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/moment_sup.cpp b/src/moment_sup.cpp
index def417d..0b1a5b4 100644
--- a/src/moment_sup.cpp
+++ b/src/moment_sup.cpp
@@ -351,7 +351,7 @@ void GetEBendMatrix(const double L, const double phi, const double fringe_x, con
         sx = sin(sqrt(Kx)*L)/sqrt(Kx);
     } else {
         dx = (1e0-cosh(sqrt(-Kx)*L))/(rho*Kx);
-        sx = sin(sqrt(Kx)*L)/sqrt(Kx);
+        sx = sinh(sqrt(-Kx)*L)/sqrt(-Kx);
     }
 
     double Nk   = (sqr(1e0+2e0*eta0)+h)/(2e0*(1e0+eta0)*(1e0+2e0*eta0)),
-- 
2.43.0


From a8ac238b1c2f0c38663b0f8701ca6b123203841d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:44 +0000
Subject: [PATCH 07/23] fix: covariance of a state configured without one is
 uninitialised

MomentState without IonChargeStates left moment1[0] uninitialised when the
configuration gives no (or an unusable) matrix; the ensemble values computed
from it were arbitrary.  Start from the identity, as the comment in
load_storage() says and as done for the charge-state case.
---
 src/moment.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/moment.cpp b/src/moment.cpp
index 8875da4..8881c56 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -186,6 +186,8 @@ MomentState::MomentState(const Config& c)
         moment0[0].resize(maxsize);
         moment1[0].resize(maxsize, maxsize);
         transmat[0].resize(maxsize, maxsize);
+        moment0[0] = boost::numeric::ublas::zero_vector<double>(maxsize);
+        moment1[0] = boost::numeric::ublas::identity_matrix<double>(maxsize);
 
         load_storage(moment0[0].data(), c, vectorname, false);
         load_storage(moment1[0].data(), c, matrixname, false);
-- 
2.43.0


From c19ec22835ab474de6fcb668f2c892e14d5e0f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:31 +0000
Subject: [PATCH 08/23] fix: name lookup is stale after reconfigure() changes
 an element's name

---
 src/base.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/base.cpp b/src/base.cpp
index ef0a1f6..cda4b47 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -210,7 +210,16 @@ void Machine::reconfigure(size_t idx, const Config& c)
 
     element_builder_t *builder = eit->second;
 
-    builder->rebuild(p_elements[idx], c, idx);
+    ElementVoid *E = p_elements[idx];
+    const std::string oldname(E->name);
+
+    builder->rebuild(E, c, idx);
+
+    if(E->name!=oldname) {
+        // keep lookup by name consistent
+        p_lookup.erase(LookupKey(oldname, idx));
+        p_lookup.insert(std::make_pair(LookupKey(E->name, idx), E));
+    }
 }
 
 Machine::p_state_infos_t Machine::p_state_infos;
-- 
2.43.0


From b958724a7fa2154f05315b5cdca338643e00a33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:11 +0000
Subject: [PATCH 09/23] fix: ElementRFCavity::assign() copies every member, so
 reconfigure() after a change of the cavity data is consistent

---
 src/flame/rf_cavity.h | 12 ++++++++++++
 src/rf_cavity.cpp     |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index aa8cc34..19de02d 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -143,6 +143,18 @@ struct ElementRFCavity : public MomentElementBase
         lattice       = O->lattice;
         mlptable      = O->mlptable;
         CavData       = O->CavData;
+        CavType       = O->CavType;
+        DataPath      = O->DataPath;
+        DataFile      = O->DataFile;
+        SynAccTab     = O->SynAccTab;
+        have_RefNrm     = O->have_RefNrm;
+        have_SynComplex = O->have_SynComplex;
+        have_EkLim      = O->have_EkLim;
+        have_NrLim      = O->have_NrLim;
+        RefNrm        = O->RefNrm;
+        SynComplex    = O->SynComplex;
+        EkLim         = O->EkLim;
+        NrLim         = O->NrLim;
         CavTLMLineTab = O->CavTLMLineTab;
         fRF           = O->fRF;
         IonFys        = O->IonFys;
diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 327fd8d..de54f66 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -712,6 +712,9 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
     if (EmitGrowth != 0 && EmitGrowth != 1)
         throw std::runtime_error(SB()<< "Undefined EmitGrowth: " << EmitGrowth);
 
+    have_RefNrm = have_SynComplex = have_EkLim = have_NrLim = false;
+    RefNrm = 0.0;
+
     CavType = c.get<std::string>("cavtype");
     std::string cavfile(c.get<std::string>("Eng_Data_Dir", defpath)),
                 fldmap(cavfile),
-- 
2.43.0


From 8eedea4a467106870585026a52719c167f43d815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:11 +0000
Subject: [PATCH 10/23] fix: report an unreadable Generic RF cavity data file
 instead of dereferencing a null Config

---
 src/rf_cavity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index de54f66..8883624 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -822,6 +822,8 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
             }catch(std::exception& e){
                 std::cerr<<"Error: "<<e.what()<<"\n";
             }
+            if(!conf)
+                throw std::runtime_error(SB()<<"Error parsing RF cavity file '"<<DataFile<<"'");
             CavConfMap.insert(std::make_pair(key, conf));
         } else {
             // found in CavConfMap
-- 
2.43.0


From ae67181eb227155691bca43e303f402dbf0f3fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:19 +0000
Subject: [PATCH 11/23] fix: reject RF cavity data with too short 'attr'
 instead of reading past its end

---
 src/rf_cavity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 8883624..2dc0091 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -848,6 +848,8 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
                 const double eV0(EC.get<double>("V0"));
                 params.E0 = eV0;
                 EC.tryGet<std::vector<double> >("attr", attrs);
+                if(attrs.size() < (etype=="AccGap" && SynAccTab.empty() ? 23u : 20u))
+                    throw std::runtime_error(SB()<<"'attr' of '"<<etype<<"' has too few entries in RF cavity file");
                 for(int i=0; i<10; i++)
                 {
                     params.Tfit.push_back(attrs[i]);
-- 
2.43.0


From 108991d8d06b82e08c0b3ec57347a5f841d09f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:19 +0000
Subject: [PATCH 12/23] fix: numeric_table::readvec() rejects a ragged table
 instead of writing past its end

---
 src/util.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util.cpp b/src/util.cpp
index e09378b..2309702 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -12,6 +12,8 @@
 
 void numeric_table::readvec(std::vector<double> vec, int numcol)
 {
+    if(numcol<=0 || vec.size()%numcol!=0)
+        throw std::invalid_argument("number of values is not a multiple of the number of columns");
     value_t tabletmp(int(vec.size()/numcol),numcol);
     for (unsigned i=0; i < vec.size(); i++){
         int ii,jj;
-- 
2.43.0


From 2e20faba52aaffc9a0b81e6d074e2f66e1d34416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:48 +0000
Subject: [PATCH 13/23] fix: charge stripper rejects too short
 Stripper_Para/Stripper_E0Para instead of reading past their end

---
 src/chg_stripper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chg_stripper.cpp b/src/chg_stripper.cpp
index 6c735ca..0882bf0 100644
--- a/src/chg_stripper.cpp
+++ b/src/chg_stripper.cpp
@@ -86,6 +86,8 @@ void ElementStripper::Stripper_GetMat(const Config &conf,
 
     Stripper_Para = conf.get<std::vector<double> >("Stripper_Para", p1_default);
     Stripper_E0Para = conf.get<std::vector<double> >("Stripper_E0Para", p2_default);
+    if(Stripper_Para.size()<3 || Stripper_E0Para.size()<3)
+        throw std::runtime_error("charge stripper requires that Stripper_Para[] and Stripper_E0Para[] have three entries");
 
     n = ChgState.size();
 
-- 
2.43.0


From 9ff61f8fa118ebe6ef34f9e28162777174751951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:41 +0000
Subject: [PATCH 14/23] fix: thick-lens sextupole slice on axis no longer keeps
 entries of the previous slice's matrix

---
 src/moment_sup.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/moment_sup.cpp b/src/moment_sup.cpp
index 0b1a5b4..d039a5a 100644
--- a/src/moment_sup.cpp
+++ b/src/moment_sup.cpp
@@ -178,6 +178,8 @@ void GetSextMatrix(const double L, const double K3, double Dx, double Dy,
             M(state_t::PS_PY, state_t::PS_Y) = sqrtK*(-(dr-Dx)*sn+(dr+Dx)*sh)/(2e0*dr);
 
         } else {
+            // M may hold the matrix of the previous slice
+            M = boost::numeric::ublas::identity_matrix<double>(state_t::maxsize);
             M(state_t::PS_X, state_t::PS_PX) = L;
             M(state_t::PS_Y, state_t::PS_PY) = L;
         }
-- 
2.43.0


From b4bac3102db0f2e410cd3eafaf7e71ebd89cf7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:16 +0000
Subject: [PATCH 15/23] fix: backward propagation through an RF cavity no
 longer overwrites the cached misalignment of the forward pass

---
 src/flame/rf_cavity.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index 19de02d..6580745 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -172,6 +172,7 @@ struct ElementRFCavity : public MomentElementBase
         using namespace boost::numeric::ublas;
 
         double x0[2], x2[2], s0[2];
+        std::vector<value_t> back_misalign, back_misalign_inv;
 
         // IonEk is Es + E_state; the latter is set by user.
         ST.recalc();
@@ -216,12 +217,16 @@ struct ElementRFCavity : public MomentElementBase
                 throw std::runtime_error(SB()<<
                     "Backward propagation error at " << ST.next_elem << ": beam state does not match to the previous propagation.");
 
+            // keep misalign[] for the next forward propagation with cached results
+            back_misalign.resize(last_real_in.size());
+            back_misalign_inv.resize(last_real_in.size());
+
             ST.ref.phis -= (last_ref_out.phis - last_ref_in.phis);
             ST.ref.IonEk = last_ref_in.IonEk;
             for(size_t k=0; k<last_real_in.size(); k++) {
                 ST.real[k].phis -= (last_real_out[k].phis - last_real_in[k].phis);
                 ST.real[k].IonEk = last_real_in[k].IonEk;
-                get_misalign(ST, ST.real[k], misalign[k], misalign_inv[k]);
+                get_misalign(ST, ST.real[k], back_misalign[k], back_misalign_inv[k]);
             }
 
             ST.recalc();
@@ -288,8 +293,8 @@ struct ElementRFCavity : public MomentElementBase
             ST.pos -= length;
             value_t invmat = boost::numeric::ublas::identity_matrix<double>(state_t::maxsize);
             for(size_t i=0; i<last_real_in.size(); i++) {
-                scratch = prod(transfer[i], misalign[i]);
-                scratch = prod(misalign_inv[i], scratch);
+                scratch = prod(transfer[i], back_misalign[i]);
+                scratch = prod(back_misalign_inv[i], scratch);
 
                 inverse(invmat, scratch);
 
-- 
2.43.0


From 763e7a003f3ab747b31d83f387d5d4d0967160cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:16 +0000
Subject: [PATCH 16/23] fix: reject truncated lines of an RF cavity lattice
 file instead of using uninitialised values

---
 src/rf_cavity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 2dc0091..1c5d2bb 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -794,7 +794,7 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
                 else
                     params.E0 = 0.0;
 
-                if(lstrm.fail() && !lstrm.eof()) {
+                if(lstrm.fail()) {
                     throw std::runtime_error(SB()<<"Error parsing line '"<<line<<"' in '"<<cavfile<<"'");
                 }
                 lattice.push_back(params);
-- 
2.43.0


From eb92f9e49ebfc68bf418efc5cb607d5e9f099d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:16 +0000
Subject: [PATCH 17/23] fix: reject RF cavity limits with fewer than two
 entries instead of reading past their end

---
 src/rf_cavity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 1c5d2bb..2abb6ed 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -882,6 +882,8 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
         have_SynComplex = conf->tryGet<std::vector<double> >("SyncFit", SynComplex);
         have_EkLim = conf->tryGet<std::vector<double> >("EnergyLimit", EkLim);
         have_NrLim = conf->tryGet<std::vector<double> >("NormLimit", NrLim);
+        if((have_EkLim && EkLim.size()<2) || (have_NrLim && NrLim.size()<2))
+            throw std::runtime_error(SB()<<"'EnergyLimit' and 'NormLimit' need 2 entries in RF cavity file");
     }
 }
 
-- 
2.43.0


From 949d34da0fe4bef65ff2134a128f7cfa64184d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:16 +0000
Subject: [PATCH 18/23] fix: synchronous phase of RF cavity data without an
 AccGap read an empty table

---
 src/rf_cavity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 2abb6ed..b23c3c8 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -636,6 +636,8 @@ double GetCavPhase(const int cavi, const Particle& ref, const double IonFys, con
         Fyc = 5.428*pow(IonEk, -0.5008) + 1.6;
         break;
     case 0:
+        if (P.size() < 3)
+            throw std::runtime_error("RF cavity data has no synchronous phase fit");
         Fyc = P[0]*pow(IonEk,P[1])- P[2];
         break;
     default:
-- 
2.43.0


From 682ba7246025d8a2f9998984ef2d7877d52c788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:16 +0000
Subject: [PATCH 19/23] fix: more than two AccGap in an RF cavity lattice file
 read past the end of the gap tables

---
 src/rf_cavity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index b23c3c8..ce78624 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -1210,6 +1210,8 @@ void ElementRFCavity::GenCavMat2(const int cavi, const double dis, const double
             //IonFy = IonFy + real.IonZ*V0s[0]*kfac*(TTF_tab[2]*sin(IonFy)
             //        + TTF_tab[4]*cos(IonFy))/2/((gamma-1)*real.IonEs/MeVtoeV); //TTF_tab[2]~Tp
             seg    = seg + 1;
+            if (seg > 2)
+                throw std::runtime_error("*** GetCavMat: more than two AccGap in RF cavity lattice");
             beta   = beta_tab[seg];
             gamma  = gamma_tab[seg];
             kfac   = 2e0*M_PI/(beta*Lambda);
-- 
2.43.0


From f48879f4f0f85438ff92980763dfcfba7cfad78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:58 +0000
Subject: [PATCH 20/23] fix: repeating a beamline by NaN is an error, as for
 other factors out of range

---
 src/glps_ops.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glps_ops.cpp b/src/glps_ops.cpp
index 105f387..c882be7 100644
--- a/src/glps_ops.cpp
+++ b/src/glps_ops.cpp
@@ -114,7 +114,7 @@ int binary_bl_mult(parse_context* ctxt, expr_value_t *R, const expr_t * const *A
 
     double factor = boost::get<double>(A[MULT]->value);
 
-    if(factor<0.0 || factor>std::numeric_limits<unsigned>::max()) {
+    if(!(factor>=0.0) || factor>std::numeric_limits<unsigned>::max()) {
         ctxt->last_error = "beamline scale by negative value or out of range value";
         return 1;
     }
-- 
2.43.0


From 41c8717fc442276c2f1028a784404d1b2f5c4f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:42 +0000
Subject: [PATCH 21/23] fix: reject RF cavity field data with fewer than two
 rows instead of looping past its end

---
 src/rf_cavity.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index ce78624..7205ef7 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -756,8 +756,8 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
         try{
             numeric_table_cache::table_pointer ent = cache->fetch(fldmap);
             CavData = *ent;
-            if(CavData.table.size1()==0 || CavData.table.size2()<2)
-                throw std::runtime_error("field map needs 2+ columns");
+            if(CavData.table.size1()<2 || CavData.table.size2()<2)
+                throw std::runtime_error("field map needs 2+ rows and 2+ columns");
         }catch(std::exception& e){
             throw std::runtime_error(SB()<<"Error parsing '"<<fldmap<<"' : "<<e.what());
         }
@@ -877,6 +877,7 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
         bool checker = conf->tryGet<std::vector<double> >("Ez", Ez);
         if (!checker) throw std::runtime_error(SB()<<"'Ez' is missing in RF cavity file.\n");
         CavData.readvec(Ez,2);
+        if (CavData.table.size1()<2) throw std::runtime_error(SB()<<"'Ez' needs 2+ rows in RF cavity file.\n");
         conf->tryGet<double>("Rm",cRm);
 
         // Get extra parameters for complex synchronous phase definition
-- 
2.43.0


From 73cd708533d04320a8ffc4b3daeaa8db2a805856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:16 +0000
Subject: [PATCH 22/23] fix: the log of a Generic cavity's EFocus kick read an
 empty line table

GetCavMatGeneric() never fills the thin lens line table, so with the log
level at FINE printing linetab.E0[n] dereferenced a null pointer.
---
 src/rf_cavity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 7205ef7..1954920 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -1358,7 +1358,7 @@ void ElementRFCavity::GetCavMatGeneric(Particle &real, const double EfieldScl, c
             kfdy = kfdx;
             if(logme) {
                 FLAME_LOG(FINE)<<" X EFocus1 kfdx="<<kfdx<<"\n"
-                         <<" Y "<<linetab.E0[n]<<" "<<EfieldScl<<" "<<beta
+                         <<" Y "<<P.E0<<" "<<EfieldScl<<" "<<beta
                          <<" "<<gamma<<" "<<IonFy<<" "<<cRm<<"\n Z "<<T<<" "<<S<<"\n";
             }
 
-- 
2.43.0


From 2e1f60a84e26843c2fa1d381a319c54d06a67bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:56 +0000
Subject: [PATCH 23/23] fix: a cavity data table replaced by a file with an
 older modification time was not reread

---
 src/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cpp b/src/util.cpp
index 2309702..df15c1e 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -143,7 +143,7 @@ numeric_table_cache::table_pointer numeric_table_cache::fetch(const std::string&
     boost::mutex::scoped_lock L(pvt->lock);
 
     Pvt::cache_t::const_iterator it = pvt->cache.find(path);
-    if(it==pvt->cache.end() || mtime>it->second.lastmod) {
+    if(it==pvt->cache.end() || mtime!=it->second.lastmod) {
         // miss
 
         ret.reset(new numeric_table);
-- 
2.43.0

