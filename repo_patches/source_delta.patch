From 891833cdc507086127320e95e730672d157c78f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:58 +0000
Subject: [PATCH 01/71] fix: sextupole step with zero offset kept coupling
 terms of the previous step

---
 src/moment.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/moment.cpp b/src/moment.cpp
index 6a073e3..0bbe0e5 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -1169,6 +1169,9 @@ struct ElementSext : public MomentElementBase
             ST.moment1[k] = prod(scratch, trans(misalign[k]));
 
             for(int i=0; i<step; i++){
+                // GetSextMatrix() only sets some elements, don't keep those of the previous step
+                transfer[k] = boost::numeric::ublas::identity_matrix<double>(state_t::maxsize);
+
                 double Dx = ST.moment0[k][state_t::PS_X],
                        Dy = ST.moment0[k][state_t::PS_Y],
                        D2x = ST.moment1[k](state_t::PS_X, state_t::PS_X),
-- 
2.43.0


From 8813a0645d66ee60f3f83b1cdab7fa0451d964ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:17 +0000
Subject: [PATCH 02/71] fix: sector bend dispersion with net horizontal
 defocusing or no focusing

For Kx<0 the angular dispersion is sinh(), not sin(), and for Kx==0 (e.g. K=-1/rho^2 or
phi=0) the path length term was 0/0.
---
 src/moment_sup.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/moment_sup.cpp b/src/moment_sup.cpp
index 6f5387e..3f0f2be 100644
--- a/src/moment_sup.cpp
+++ b/src/moment_sup.cpp
@@ -226,7 +226,8 @@ void GetSBendMatrix(const double L, const double phi, const double phi1, const d
             Kx  = K + 1e0/sqr(rho),
             Ky  = -K,
             dx  = 0e0,
-            sx  = 0e0;
+            sx  = 0e0,
+            tx  = 0e0;
 
     // Horizontal plane.
     GetQuadMatrix(L, Kx, (unsigned)state_t::PS_X, M);
@@ -242,9 +243,12 @@ void GetSBendMatrix(const double L, const double phi, const double phi1, const d
         sx = sin(sqrt(Kx)*L)/(rho*sqrt(Kx));
     } else {
         dx = (1e0-cosh(sqrt(-Kx)*L))/(rho*Kx);
-        sx = sin(sqrt(-Kx)*L)/(rho*sqrt(-Kx));
+        sx = sinh(sqrt(-Kx)*L)/(rho*sqrt(-Kx));
     }
 
+    // Path length term, with its limit for vanishing focusing.
+    tx = (Kx != 0e0)? (L/rho-sx)/(Kx*rho) : cube(L)/(6e0*sqr(rho));
+
     M(state_t::PS_X,  state_t::PS_PS) = dx/(sqr(dip_beta)*dip_gamma*IonEs/MeVtoeV);
     M(state_t::PS_PX, state_t::PS_PS) = sx/(sqr(dip_beta)*dip_gamma*IonEs/MeVtoeV);
 
@@ -252,11 +256,11 @@ void GetSBendMatrix(const double L, const double phi, const double phi1, const d
     M(state_t::PS_S,  state_t::PS_PX) = dx*dip_IonK;
     // Low beta approximation.
     M(state_t::PS_S,  state_t::PS_PS) =
-            ((L/rho-sx)/(Kx*rho)-L/sqr(ref_gamma))*dip_IonK
+            (tx-L/sqr(ref_gamma))*dip_IonK
             /(sqr(dip_beta)*dip_gamma*IonEs/MeVtoeV);
 
     // Add dipole terms.
-    M(state_t::PS_S,  6) = ((L/rho-sx)/(Kx*rho)*d-L/sqr(ref_gamma)*(d+qmrel))*dip_IonK;
+    M(state_t::PS_S,  6) = (tx*d-L/sqr(ref_gamma)*(d+qmrel))*dip_IonK;
     M(state_t::PS_X,  6) = dx*d;
     M(state_t::PS_PX, 6) = sx*d;
 
-- 
2.43.0


From 7a87910b23347f575e1dd7afe8086e11c1b4b83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:18 +0000
Subject: [PATCH 03/71] fix: phases went the wrong way when the direction
 changed on a cached element

The cached output phase is only valid for the direction it was computed in.
---
 src/moment.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/moment.cpp b/src/moment.cpp
index 0bbe0e5..2d5981d 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -673,16 +673,6 @@ void MomentElementBase::advance(StateBase& s)
 
         ST.recalc();
 
-        if(!ST.retreat){
-            ST.ref.phis += ST.ref.SampleIonK*length*MtoMM;
-            for(size_t k=0; k<last_real_in.size(); k++)
-                ST.real[k].phis += ST.real[k].SampleIonK*length*MtoMM;
-        } else {
-            ST.ref.phis -= ST.ref.SampleIonK*length*MtoMM;
-            for(size_t k=0; k<last_real_in.size(); k++)
-                ST.real[k].phis -= ST.real[k].SampleIonK*length*MtoMM;
-        }
-
         last_ref_out = ST.ref;
         last_real_out = ST.real;
     } else {
@@ -693,6 +683,17 @@ void MomentElementBase::advance(StateBase& s)
                   ST.real.begin());
     }
 
+    // phase advance is not cached as it depends on the direction
+    if(!ST.retreat){
+        ST.ref.phis += ST.ref.SampleIonK*length*MtoMM;
+        for(size_t k=0; k<last_real_in.size(); k++)
+            ST.real[k].phis += ST.real[k].SampleIonK*length*MtoMM;
+    } else {
+        ST.ref.phis -= ST.ref.SampleIonK*length*MtoMM;
+        for(size_t k=0; k<last_real_in.size(); k++)
+            ST.real[k].phis -= ST.real[k].SampleIonK*length*MtoMM;
+    }
+
     if(!ST.retreat){
         // Forward propagation
         ST.pos += length;
-- 
2.43.0


From 1e22d26809043e6dbf7f3cf915fd0c83bc1c5c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:37 +0000
Subject: [PATCH 04/71] fix: a failed matrix calculation left the element cache
 marked valid

Repeating the same propagation then succeeded with a wrong (e.g. identity) matrix.
---
 src/flame/moment.h    |  3 +++
 src/flame/rf_cavity.h | 27 ++++++++++++++++-----------
 src/moment.cpp        | 20 ++++++++++++++++++--
 3 files changed, 37 insertions(+), 13 deletions(-)

diff --git a/src/flame/moment.h b/src/flame/moment.h
index b4c1e91..d78bc95 100644
--- a/src/flame/moment.h
+++ b/src/flame/moment.h
@@ -170,6 +170,9 @@ struct MomentElementBase : public ElementVoid
     //! in the provided new input state.
     void resize_cache(const state_t& ST);
 
+    //! Forget the last computed state, so that the next advance() will re-calculate.
+    void clear_cache();
+
     //! recalculate 'transfer' taking into consideration the provided input state
     virtual void recompute_matrix(state_t& ST);
 
diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index 4728129..3a67ba4 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -170,22 +170,27 @@ struct ElementRFCavity : public MomentElementBase
             resize_cache(ST);
             // need to re-calculate energy dependent terms
 
-            std::string newtype = conf().get<std::string>("cavtype");
-            if (CavType != newtype){
-                lattice.clear();
-                SynAccTab.clear();
-                LoadCavityFile(conf());
-            } else if (CavType == "Generic") {
-                std::string newfile = conf().get<std::string>("Eng_Data_Dir", defpath);
-                newfile += "/" + conf().get<std::string>("datafile");
-                if (DataFile != newfile) {
+            try{
+                std::string newtype = conf().get<std::string>("cavtype");
+                if (CavType != newtype){
                     lattice.clear();
                     SynAccTab.clear();
                     LoadCavityFile(conf());
+                } else if (CavType == "Generic") {
+                    std::string newfile = conf().get<std::string>("Eng_Data_Dir", defpath);
+                    newfile += "/" + conf().get<std::string>("datafile");
+                    if (DataFile != newfile) {
+                        lattice.clear();
+                        SynAccTab.clear();
+                        LoadCavityFile(conf());
+                    }
                 }
-            }
 
-            recompute_matrix(ST); // updates transfer and last_Kenergy_out
+                recompute_matrix(ST); // updates transfer and last_Kenergy_out
+            }catch(...){
+                clear_cache(); // 'transfer' is not valid
+                throw;
+            }
 
             for(size_t i=0; i<last_real_in.size(); i++)
                 get_misalign(ST, ST.real[i], misalign[i], misalign_inv[i]);
diff --git a/src/moment.cpp b/src/moment.cpp
index 2d5981d..69a0efa 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -669,7 +669,12 @@ void MomentElementBase::advance(StateBase& s)
         last_real_in = ST.real;
         resize_cache(ST);
 
-        recompute_matrix(ST); // updates transfer and last_Kenergy_out
+        try{
+            recompute_matrix(ST); // updates transfer and last_Kenergy_out
+        }catch(...){
+            clear_cache(); // 'transfer' is not valid
+            throw;
+        }
 
         ST.recalc();
 
@@ -758,6 +763,12 @@ void MomentElementBase::resize_cache(const state_t& ST)
     misalign_inv.resize(ST.real.size(), boost::numeric::ublas::identity_matrix<double>(state_t::maxsize));
 }
 
+void MomentElementBase::clear_cache()
+{
+    last_real_in.clear();
+    last_real_out.clear();
+}
+
 void MomentElementBase::recompute_matrix(state_t& ST)
 {
     // Default, initialize as no-op
@@ -952,7 +963,12 @@ struct ElementSBend : public MomentElementBase
             last_real_in = ST.real;
             resize_cache(ST);
 
-            recompute_matrix(ST); // updates transfer and last_Kenergy_out
+            try{
+                recompute_matrix(ST); // updates transfer and last_Kenergy_out
+            }catch(...){
+                clear_cache(); // 'transfer' is not valid
+                throw;
+            }
 
             ST.recalc();
             last_ref_out = ST.ref;
-- 
2.43.0


From fc90207de72876b66f18d02aa13fd62a4ee4f272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:37 +0000
Subject: [PATCH 05/71] fix: reconfigure() of an rf cavity kept part of the
 previous cavity data

assign() did not copy all members, so that after a change of the data file the phase
fit of the old file was used together with the field map of the new one.
---
 src/flame/rf_cavity.h | 12 ++++++++++++
 src/rf_cavity.cpp     |  5 +++++
 2 files changed, 17 insertions(+)

diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index 3a67ba4..c45b0fd 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -143,6 +143,18 @@ struct ElementRFCavity : public MomentElementBase
         lattice       = O->lattice;
         mlptable      = O->mlptable;
         CavData       = O->CavData;
+        CavType       = O->CavType;
+        DataPath      = O->DataPath;
+        DataFile      = O->DataFile;
+        SynAccTab     = O->SynAccTab;
+        have_RefNrm   = O->have_RefNrm;
+        have_SynComplex = O->have_SynComplex;
+        have_EkLim    = O->have_EkLim;
+        have_NrLim    = O->have_NrLim;
+        RefNrm        = O->RefNrm;
+        SynComplex    = O->SynComplex;
+        EkLim         = O->EkLim;
+        NrLim         = O->NrLim;
         CavTLMLineTab = O->CavTLMLineTab;
         fRF           = O->fRF;
         IonFys        = O->IonFys;
diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 327fd8d..359df11 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -691,6 +691,11 @@ void EvalGapModel(const double dis, const double IonW0, const Particle &real, co
 
 ElementRFCavity::ElementRFCavity(const Config& c)
     :base_t(c)
+    ,have_RefNrm(false)
+    ,have_SynComplex(false)
+    ,have_EkLim(false)
+    ,have_NrLim(false)
+    ,RefNrm(0.0)
 {
     ElementRFCavity::LoadCavityFile(c);
 }
-- 
2.43.0


From 5ae4eacdfef374770aa67ed84eb771c0fc7fcae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:25 +0000
Subject: [PATCH 06/71] fix: reconfigure() of a linear source element had no
 effect

---
 src/linear.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/linear.cpp b/src/linear.cpp
index 958595e..ac11c28 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -193,6 +193,13 @@ struct ElementSource : public Base
     virtual ~ElementSource() {}
 
     virtual const char* type_name() const {return "source";}
+
+    virtual void assign(const ElementVoid *other)
+    {
+        base_t::assign(other);
+        const ElementSource *O = static_cast<const ElementSource*>(other);
+        istate.assign(O->istate);
+    }
 };
 
 template<typename Base>
-- 
2.43.0


From fc85af44822aff0aee06cdc6760a0ce06f4441b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:25 +0000
Subject: [PATCH 07/71] fix: VectorState::show() did not override
 StateBase::show()

Printing a vector state printed nothing.
---
 src/flame/state/vector.h | 2 +-
 src/linear.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/flame/state/vector.h b/src/flame/state/vector.h
index e5e3383..f79b9f8 100644
--- a/src/flame/state/vector.h
+++ b/src/flame/state/vector.h
@@ -26,7 +26,7 @@ struct VectorState : public StateBase
                     boost::numeric::ublas::bounded_array<double, maxsize>
     > value_t;
 
-    virtual void show(std::ostream& strm) const;
+    virtual void show(std::ostream& strm, int level) const;
 
     value_t state;
 
diff --git a/src/linear.cpp b/src/linear.cpp
index ac11c28..73544a9 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -101,7 +101,7 @@ void VectorState::assign(const StateBase& other)
     StateBase::assign(other);
 }
 
-void VectorState::show(std::ostream& strm) const
+void VectorState::show(std::ostream& strm, int level) const
 {
     strm<<"State: "<<state<<"\n";
 }
-- 
2.43.0


From 4468d51d1accb651212301bd720553757643fc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:25 +0000
Subject: [PATCH 08/71] fix: backward propagation of linear elements silently
 applied the forward matrix

---
 src/flame/linear.h | 3 +++
 src/linear.cpp     | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/flame/linear.h b/src/flame/linear.h
index cd33adf..8043900 100644
--- a/src/flame/linear.h
+++ b/src/flame/linear.h
@@ -2,6 +2,7 @@
 #define FLAME_LINEAR_H
 
 #include <ostream>
+#include <stdexcept>
 #include <math.h>
 
 #include <boost/numeric/ublas/vector.hpp>
@@ -28,6 +29,8 @@ struct LinearElementBase : public ElementVoid
 
     virtual void advance(StateBase& s)
     {
+        if(s.retreat)
+            throw std::runtime_error("Backward propagation error: Backward propagation does not support linear elements.");
         State& ST = static_cast<State&>(s);
         advanceT(ST);
     }
diff --git a/src/linear.cpp b/src/linear.cpp
index 73544a9..cd891aa 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -176,6 +176,8 @@ struct ElementSource : public Base
 
     virtual void advance(StateBase& s)
     {
+        if(s.retreat)
+            throw std::runtime_error("Backward propagation error: Backward propagation does not support linear elements.");
         state_t& ST = static_cast<state_t&>(s);
         // Replace state with our initial values
         ST.assign(istate);
-- 
2.43.0


From ad8c15141b0f7116a1381c71d824e8b78459d9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:25 +0000
Subject: [PATCH 09/71] fix: Config::flatten() and push_scope() changed other
 copies of the Config

---
 src/config.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config.cpp b/src/config.cpp
index df2468f..a4604ff 100644
--- a/src/config.cpp
+++ b/src/config.cpp
@@ -116,6 +116,7 @@ void Config::push_scope()
 void Config::flatten()
 {
     if(implicit_values) {
+        _cow();
         values->insert(implicit_values->begin(),
                        implicit_values->end());
         implicit_values.reset();
-- 
2.43.0


From 4922e5e01ebbb4bd946f78727264501f153e7c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:25 +0000
Subject: [PATCH 10/71] fix: GLPSParser::parse_file("-") did not read stdin

---
 src/config.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config.cpp b/src/config.cpp
index a4604ff..d31f96f 100644
--- a/src/config.cpp
+++ b/src/config.cpp
@@ -365,14 +365,14 @@ Config*
 GLPSParser::parse_file(const char *fname, const bool have_lattice)
 {
     boost::filesystem::path fpath;
-    if(fname) {
+    bool closeme = fname!=NULL && strcmp(fname,"-")!=0;
+    if(closeme) {
         fpath = boost::filesystem::canonical(fname).parent_path();
     } else {
         fpath = boost::filesystem::current_path();
     }
 
     FILE *fp;
-    bool closeme = fname!=NULL && strcmp(fname,"-")!=0;
     if(closeme)
         fp = fopen(fname, "r");
     else
-- 
2.43.0


From 4f6ed60784d42472497bbb5824ef7b8c0da7fefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:47 +0000
Subject: [PATCH 11/71] fix: Machine constructor leaked the elements built
 before a failure

---
 src/base.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/base.cpp b/src/base.cpp
index ef0a1f6..cd55161 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -79,6 +79,18 @@ void ElementVoid::assign(const ElementVoid *other)
     *const_cast<size_t*>(&index) = other->index;
 }
 
+namespace {
+// delete those elements which were not handed over to a Machine
+struct elements_cleanup {
+    std::vector<ElementVoid*>& elems;
+    explicit elements_cleanup(std::vector<ElementVoid*>& e) :elems(e) {}
+    ~elements_cleanup() {
+        for(size_t i=0; i<elems.size(); i++)
+            delete elems[i];
+    }
+};
+}
+
 Machine::Machine(const Config& c)
     :p_elements()
     ,p_trace(NULL)
@@ -106,6 +118,7 @@ Machine::Machine(const Config& c)
     p_elements_t result;
     p_lookup_t result_l, result_t;
     result.reserve(Es.size());
+    elements_cleanup cleanup(result);
 
     size_t idx=0;
     for(elements_t::iterator it=Es.begin(), end=Es.end(); it!=end; ++it)
@@ -136,6 +149,8 @@ Machine::Machine(const Config& c)
             throw std::runtime_error(strm.str());
         }
 
+        result.push_back(E); // from now on deleted on error
+
         if(E->type_name()!=etype) {
             std::ostringstream strm;
             strm<<"Element type inconsistent "<<etype<<" "<<E->type_name();
@@ -144,7 +159,6 @@ Machine::Machine(const Config& c)
 
         *const_cast<size_t*>(&E->index) = idx++; // ugly
 
-        result.push_back(E);
         result_l.insert(std::make_pair(LookupKey(E->name, E->index), E));
         result_t.insert(std::make_pair(LookupKey(etype, E->index), E));
     }
-- 
2.43.0


From 2106592de590279fefeec4a95977079cefafb8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:47 +0000
Subject: [PATCH 12/71] fix: an element renamed by reconfigure() was still
 found by its old name only

---
 src/base.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/base.cpp b/src/base.cpp
index cd55161..a2ecdc6 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -224,7 +224,14 @@ void Machine::reconfigure(size_t idx, const Config& c)
 
     element_builder_t *builder = eit->second;
 
+    const std::string oldname(p_elements[idx]->name);
+
     builder->rebuild(p_elements[idx], c, idx);
+
+    if(p_elements[idx]->name!=oldname) {
+        p_lookup.erase(LookupKey(oldname, idx));
+        p_lookup.insert(std::make_pair(LookupKey(p_elements[idx]->name, idx), p_elements[idx]));
+    }
 }
 
 Machine::p_state_infos_t Machine::p_state_infos;
-- 
2.43.0


From 47d272057d178ab8129ecdb43bc570f280f75eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:47 +0000
Subject: [PATCH 13/71] fix: undefined behaviour in Machine::propagate() with
 max=INT_MIN

---
 src/base.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/base.cpp b/src/base.cpp
index a2ecdc6..7aac98d 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -187,7 +187,10 @@ Machine::propagate(StateBase* S, size_t start, int max) const
     S->next_elem = start;
     S->retreat = std::signbit(max);
 
-    for(int i=0; S->next_elem<nelem && i<abs(max); i++)
+    // negating in unsigned as -INT_MIN is not an int
+    const unsigned count = max<0 ? 0u-(unsigned)max : (unsigned)max;
+
+    for(unsigned i=0; S->next_elem<nelem && i<count; i++)
     {
         size_t n = S->next_elem;
         ElementVoid* E = p_elements[n];
-- 
2.43.0


From d41c5b6bc7bbbbd830cc1828702b609c8df8bb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:04 +0000
Subject: [PATCH 14/71] fix: undefined behaviour when a state of another
 sim_type is propagated

Now throws std::bad_cast.
---
 src/chg_stripper.cpp  | 2 +-
 src/flame/linear.h    | 2 +-
 src/flame/rf_cavity.h | 2 +-
 src/linear.cpp        | 2 +-
 src/moment.cpp        | 8 ++++----
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/chg_stripper.cpp b/src/chg_stripper.cpp
index 6c735ca..c67f32f 100644
--- a/src/chg_stripper.cpp
+++ b/src/chg_stripper.cpp
@@ -185,7 +185,7 @@ void ElementStripper::Stripper_GetMat(const Config &conf,
 
 void ElementStripper::advance(StateBase &s)
 {
-    state_t& ST = static_cast<state_t&>(s);
+    state_t& ST = dynamic_cast<state_t&>(s);
 
     ST.recalc();
     ST.calc_rms(); // paranoia in case someone (python) has made moment0_env inconsistent
diff --git a/src/flame/linear.h b/src/flame/linear.h
index 8043900..b39d422 100644
--- a/src/flame/linear.h
+++ b/src/flame/linear.h
@@ -31,7 +31,7 @@ struct LinearElementBase : public ElementVoid
     {
         if(s.retreat)
             throw std::runtime_error("Backward propagation error: Backward propagation does not support linear elements.");
-        State& ST = static_cast<State&>(s);
+        State& ST = dynamic_cast<State&>(s);
         advanceT(ST);
     }
 
diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index c45b0fd..60a6f12 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -168,7 +168,7 @@ struct ElementRFCavity : public MomentElementBase
 
     virtual void advance(StateBase& s)
     {
-        state_t&  ST = static_cast<state_t&>(s);
+        state_t&  ST = dynamic_cast<state_t&>(s);
         using namespace boost::numeric::ublas;
 
         double x0[2], x2[2], s0[2];
diff --git a/src/linear.cpp b/src/linear.cpp
index cd891aa..99f900c 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -178,7 +178,7 @@ struct ElementSource : public Base
     {
         if(s.retreat)
             throw std::runtime_error("Backward propagation error: Backward propagation does not support linear elements.");
-        state_t& ST = static_cast<state_t&>(s);
+        state_t& ST = dynamic_cast<state_t&>(s);
         // Replace state with our initial values
         ST.assign(istate);
     }
diff --git a/src/moment.cpp b/src/moment.cpp
index 69a0efa..f486e73 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -657,7 +657,7 @@ unsigned MomentElementBase::get_flag(const Config& c, const std::string& name, c
 
 void MomentElementBase::advance(StateBase& s)
 {
-    state_t&  ST = static_cast<state_t&>(s);
+    state_t&  ST = dynamic_cast<state_t&>(s);
     using namespace boost::numeric::ublas;
 
     // IonEk is Es + E_state; the latter is set by user.
@@ -790,7 +790,7 @@ struct ElementSource : public MomentElementBase
 
     virtual void advance(StateBase& s)
     {
-        state_t& ST = static_cast<state_t&>(s);
+        state_t& ST = dynamic_cast<state_t&>(s);
         if (!ST.retreat)
             // Replace state with our initial values
             ST.assign(istate);
@@ -951,7 +951,7 @@ struct ElementSBend : public MomentElementBase
 
     virtual void advance(StateBase& s)
     {
-        state_t&  ST = static_cast<state_t&>(s);
+        state_t&  ST = dynamic_cast<state_t&>(s);
         using namespace boost::numeric::ublas;
 
         // IonEk is Es + E_state; the latter is set by user.
@@ -1157,7 +1157,7 @@ struct ElementSext : public MomentElementBase
         const bool   thinlens = conf().get<double>("thinlens", 0.0) == 1.0,
                      dstkick = conf().get<double>("dstkick", 1.0) == 1.0;
 
-        state_t&  ST = static_cast<state_t&>(s);
+        state_t&  ST = dynamic_cast<state_t&>(s);
         using namespace boost::numeric::ublas;
 
         ST.recalc();
-- 
2.43.0


From 04adcc648d75e84fda97b69de6d88e94c527e516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:04 +0000
Subject: [PATCH 15/71] fix: out of bounds access for too short charge stripper
 parameters

---
 src/chg_stripper.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/chg_stripper.cpp b/src/chg_stripper.cpp
index c67f32f..f65c4fa 100644
--- a/src/chg_stripper.cpp
+++ b/src/chg_stripper.cpp
@@ -87,6 +87,11 @@ void ElementStripper::Stripper_GetMat(const Config &conf,
     Stripper_Para = conf.get<std::vector<double> >("Stripper_Para", p1_default);
     Stripper_E0Para = conf.get<std::vector<double> >("Stripper_E0Para", p2_default);
 
+    if(Stripper_Para.size()<3 || Stripper_E0Para.size()<3)
+        throw std::runtime_error("charge stripper requires that Stripper_Para[] and Stripper_E0Para[] have 3 elements");
+    if(ChgState.empty())
+        throw std::runtime_error("charge stripper requires at least one charge state");
+
     n = ChgState.size();
 
     if(chrgmdl=="off" )
-- 
2.43.0


From 3decc744e4b5321510ec645d58c83c600c2242bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:12 +0000
Subject: [PATCH 16/71] fix: backward pass of an rf cavity replaced the
 alignment used by a later forward pass

The misalignment matrices evaluated on the way back were stored in the cache.
---
 src/flame/rf_cavity.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index 60a6f12..2ae7977 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -172,6 +172,7 @@ struct ElementRFCavity : public MomentElementBase
         using namespace boost::numeric::ublas;
 
         double x0[2], x2[2], s0[2];
+        std::vector<value_t> back_misalign, back_misalign_inv;
 
         // IonEk is Es + E_state; the latter is set by user.
         ST.recalc();
@@ -216,12 +217,16 @@ struct ElementRFCavity : public MomentElementBase
                 throw std::runtime_error(SB()<<
                     "Backward propagation error at " << ST.next_elem << ": beam state does not match to the previous propagation.");
 
+            // not stored in misalign, which is valid for a later forward pass
+            back_misalign     = misalign;
+            back_misalign_inv = misalign_inv;
+
             ST.ref.phis -= (last_ref_out.phis - last_ref_in.phis);
             ST.ref.IonEk = last_ref_in.IonEk;
             for(size_t k=0; k<last_real_in.size(); k++) {
                 ST.real[k].phis -= (last_real_out[k].phis - last_real_in[k].phis);
                 ST.real[k].IonEk = last_real_in[k].IonEk;
-                get_misalign(ST, ST.real[k], misalign[k], misalign_inv[k]);
+                get_misalign(ST, ST.real[k], back_misalign[k], back_misalign_inv[k]);
             }
 
             ST.recalc();
@@ -288,8 +293,8 @@ struct ElementRFCavity : public MomentElementBase
             ST.pos -= length;
             value_t invmat = boost::numeric::ublas::identity_matrix<double>(state_t::maxsize);
             for(size_t i=0; i<last_real_in.size(); i++) {
-                scratch = prod(transfer[i], misalign[i]);
-                scratch = prod(misalign_inv[i], scratch);
+                scratch = prod(transfer[i], back_misalign[i]);
+                scratch = prod(back_misalign_inv[i], scratch);
 
                 inverse(invmat, scratch);
 
-- 
2.43.0


From 13bec21afa18f1e91829764658bfb58872bf3541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:27 +0000
Subject: [PATCH 17/71] fix: property name released with free() after a syntax
 error

It is allocated with new.
---
 src/glps.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glps.y b/src/glps.y
index cdd87c5..1e9c01e 100644
--- a/src/glps.y
+++ b/src/glps.y
@@ -56,7 +56,7 @@ void yyerror (yacc_arg arg, const char* msg)
 %printer { fprintf(yyoutput, "%p", $$); } line_list;
 
 %union { kv_t kv; }
-%destructor { free($$.key); $$.key = NULL;glps_expr_cleanup($$.value); } <kv>
+%destructor { glps_string_cleanup($$.key); $$.key = NULL;glps_expr_cleanup($$.value); } <kv>
 %type <kv> property
 
 %token COMMENT
-- 
2.43.0


From 0ca51d34cea9af3d7db33b8835676a8816979a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:27 +0000
Subject: [PATCH 18/71] fix: error for an undefined operation showed a pointer
 instead of the name

---
 src/glps_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glps_parser.cpp b/src/glps_parser.cpp
index 549352d..e139ce6 100644
--- a/src/glps_parser.cpp
+++ b/src/glps_parser.cpp
@@ -346,7 +346,7 @@ expr_t *glps_add_op(parse_context *ctxt, string_t *name, unsigned N, expr_t **ar
 
         if(!op) {
             std::ostringstream strm;
-            strm << "Operation '" << name <<"'(";
+            strm << "Undefined operation '" << name->str <<"'(";
             for(unsigned i=0; i<N; i++) {
                 if(i>0)
                     strm<<", ";
-- 
2.43.0


From db86161d9840db510da368bed4248f3c44bfc992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:27 +0000
Subject: [PATCH 19/71] fix: use after free while reporting a failed variable
 assignment

---
 src/glps_parser.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/glps_parser.cpp b/src/glps_parser.cpp
index e139ce6..4d661fe 100644
--- a/src/glps_parser.cpp
+++ b/src/glps_parser.cpp
@@ -387,10 +387,9 @@ void glps_assign(parse_context *ctxt, string_t *name, expr_t*value)
 {
     assert(name);
     assert(value);
+    std::auto_ptr<string_t> SN(name);
+    std::auto_ptr<expr_t> VN(value);
     try{
-        std::auto_ptr<string_t> SN(name);
-        std::auto_ptr<expr_t> VN(value);
-
         bool ok = false;
         parse_var V;
         V.name = name->str;
-- 
2.43.0


From cbfd05b3d24548f50f81025ae040952a9ca646e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:27 +0000
Subject: [PATCH 20/71] fix: errors of lattice operations did not name their
 line

They also replaced the first error of the file.
---
 src/glps_ops.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/glps_ops.cpp b/src/glps_ops.cpp
index 105f387..bcf164f 100644
--- a/src/glps_ops.cpp
+++ b/src/glps_ops.cpp
@@ -84,7 +84,7 @@ int binary_div(parse_context* ctxt, expr_value_t *R, const expr_t * const *A)
 {
     double result = boost::get<double>(A[0]->value)/boost::get<double>(A[1]->value);
     if(!isfinite(result)) {
-        ctxt->last_error = "division results in non-finite value";
+        glps_error(ctxt->scanner, ctxt, "division results in non-finite value");
         return 1;
     }
     *R = result;
@@ -115,7 +115,7 @@ int binary_bl_mult(parse_context* ctxt, expr_value_t *R, const expr_t * const *A
     double factor = boost::get<double>(A[MULT]->value);
 
     if(factor<0.0 || factor>std::numeric_limits<unsigned>::max()) {
-        ctxt->last_error = "beamline scale by negative value or out of range value";
+        glps_error(ctxt->scanner, ctxt, "beamline scale by negative value or out of range value");
         return 1;
     }
     unsigned factori = (unsigned)factor;
@@ -160,7 +160,7 @@ int unary_file(parse_context* ctxt, expr_value_t *R, const expr_t * const *A)
     if(!exists(ret)) {
         std::ostringstream strm;
         strm<<"\""<<ret<<"\" does not exist";
-        ctxt->last_error = strm.str();
+        glps_error(ctxt->scanner, ctxt, "%s", strm.str().c_str());
         return 1;
     }
 
@@ -197,8 +197,8 @@ int unary_h5file(parse_context* ctxt, expr_value_t *R, const expr_t * const *A)
 
     std::ostringstream strm;
     strm<<"\""<<inp<<"\" does not exist";
-  ctxt->last_error = strm.str();
-  return 1;
+    glps_error(ctxt->scanner, ctxt, "%s", strm.str().c_str());
+    return 1;
 }
 #endif
 
-- 
2.43.0


From 1021a46a9c43007a55ec0c212fb92ce9b1a202a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:27 +0000
Subject: [PATCH 21/71] fix: beamline repeated NaN times

Conversion of NaN to unsigned is undefined.
---
 src/glps_ops.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glps_ops.cpp b/src/glps_ops.cpp
index bcf164f..54611ba 100644
--- a/src/glps_ops.cpp
+++ b/src/glps_ops.cpp
@@ -114,7 +114,7 @@ int binary_bl_mult(parse_context* ctxt, expr_value_t *R, const expr_t * const *A
 
     double factor = boost::get<double>(A[MULT]->value);
 
-    if(factor<0.0 || factor>std::numeric_limits<unsigned>::max()) {
+    if(!(factor>=0.0) || factor>std::numeric_limits<unsigned>::max()) {
         glps_error(ctxt->scanner, ctxt, "beamline scale by negative value or out of range value");
         return 1;
     }
-- 
2.43.0


From 7d29a0fbdda300fb000f9219cc091bea927368d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:27 +0000
Subject: [PATCH 22/71] fix: h5file() failed without a group and never returned
 for some absolute paths

---
 src/glps_ops.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/glps_ops.cpp b/src/glps_ops.cpp
index 54611ba..6e25115 100644
--- a/src/glps_ops.cpp
+++ b/src/glps_ops.cpp
@@ -180,19 +180,16 @@ int unary_h5file(parse_context* ctxt, expr_value_t *R, const expr_t * const *A)
      * so do as h5ls does and strip off from the right hand side until
      * and try to open while '/' remain.
      */
-    size_t sep = inp.npos;
-
-    while(true) {
-        sep = inp.find_last_of('/', sep-1);
+    size_t sep = inp.size();
 
+    while(sep!=inp.npos && sep>0) {
         path fname(absolute(inp.substr(0, sep), ctxt->cwd));
 
         if(exists(fname)) {
             *R = canonical(fname).native() + inp.substr(sep);
             return 0;
-        } else if(sep==inp.npos) {
-            break;
         }
+        sep = inp.find_last_of('/', sep-1);
     }
 
     std::ostringstream strm;
-- 
2.43.0


From 6fe91fc1fcb75140be7e714ea9c9ee541842dfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:28 +0000
Subject: [PATCH 23/71] fix: opening an absolute HDF5 path without a group
 never returned

H5Loader also could not open a file without naming a group.
---
 src/h5loader.cpp | 5 +++--
 src/h5writer.cpp | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/h5loader.cpp b/src/h5loader.cpp
index c1ce95a..c0c355f 100644
--- a/src/h5loader.cpp
+++ b/src/h5loader.cpp
@@ -59,7 +59,8 @@ void H5Loader::open(const std::string& spec)
     size_t sep = spec.npos;
 
     while(true) {
-        sep = spec.find_last_of('/', sep-1);
+        // a leading '/' isn't a separator, continue with the whole spec
+        sep = sep==0 ? spec.npos : spec.find_last_of('/', sep-1);
 
         std::string fname(spec.substr(0, sep));
 
@@ -73,7 +74,7 @@ void H5Loader::open(const std::string& spec)
             continue; // keep trying
         } CATCH()
 
-        std::string group(spec.substr(sep+1));
+        std::string group(sep==spec.npos ? std::string("/") : spec.substr(sep+1));
 
         try {
             pvt->group = pvt->file.openGroup(group);
diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index 72237c5..a1be2dd 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -74,7 +74,8 @@ void H5StateWriter::open(const std::string& spec)
         size_t sep = spec.npos;
 
         while(true) {
-            sep = spec.find_last_of('/', sep-1);
+            // a leading '/' isn't a separator, continue with the whole spec
+            sep = sep==0 ? spec.npos : spec.find_last_of('/', sep-1);
 
             std::string fname(spec.substr(0, sep));
 
-- 
2.43.0


From dc38b6862da7a71bbe1e181c431533ecabdc7ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:28 +0000
Subject: [PATCH 24/71] fix: H5Loader and H5StateWriter leaked when the
 location can not be opened

---
 src/h5loader.cpp | 14 ++++++++++++--
 src/h5writer.cpp | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/h5loader.cpp b/src/h5loader.cpp
index c0c355f..62d7a61 100644
--- a/src/h5loader.cpp
+++ b/src/h5loader.cpp
@@ -24,12 +24,22 @@ H5Loader::H5Loader() :pvt(new Pvt) {}
 
 H5Loader::H5Loader(const char *spec) :pvt(new Pvt)
 {
-    open(spec);
+    try{
+        open(spec);
+    }catch(...){
+        delete pvt;
+        throw;
+    }
 }
 
 H5Loader::H5Loader(const std::string& spec) :pvt(new Pvt)
 {
-    open(spec);
+    try{
+        open(spec);
+    }catch(...){
+        delete pvt;
+        throw;
+    }
 }
 
 H5Loader::~H5Loader()
diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index a1be2dd..f422c4a 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -38,12 +38,22 @@ H5StateWriter::H5StateWriter() :pvt(new Pvt) {}
 
 H5StateWriter::H5StateWriter(const char *spec) :pvt(new Pvt)
 {
-    open(spec);
+    try{
+        open(spec);
+    }catch(...){
+        delete pvt;
+        throw;
+    }
 }
 
 H5StateWriter::H5StateWriter(const std::string& spec) :pvt(new Pvt)
 {
-    open(spec);
+    try{
+        open(spec);
+    }catch(...){
+        delete pvt;
+        throw;
+    }
 }
 
 H5StateWriter::~H5StateWriter()
-- 
2.43.0


From 0a84e22f0f34119fe34f40acdd1b4c66cdc66692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:28 +0000
Subject: [PATCH 25/71] fix: H5StateWriter kept writing to the previous
 location after close() and open()

---
 src/h5writer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index f422c4a..2242448 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -125,6 +125,7 @@ void H5StateWriter::open(const std::string& spec)
 void H5StateWriter::close()
 {
     try{
+        pvt->elements.clear();
         pvt->group.close();
         pvt->file.close();
     }CATCH()
-- 
2.43.0


From 655e10085eab3be4d84bd876000bd66f6596f454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:28 +0000
Subject: [PATCH 26/71] fix: H5StateWriter::setAttr() read past the end of
 short strings

---
 src/h5writer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index 2242448..d44402e 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -256,9 +256,11 @@ void H5StateWriter::setAttr(const char *name, const char *val)
 
         {
             H5::DataSpace scalar;
-            H5::StrType dtype(H5::PredType::C_S1, std::max((size_t)16u, strlen(val)));
+            std::vector<char> buf(val, val+strlen(val));
+            buf.resize(std::max((size_t)16u, buf.size())); // pad with nil
+            H5::StrType dtype(H5::PredType::C_S1, buf.size());
             H5::Attribute attr(pvt->group.createAttribute(name, dtype, scalar));
-            attr.write(dtype, val);
+            attr.write(dtype, &buf[0]);
         }
     } CATCH()
 }
-- 
2.43.0


From 9b71f8995fbfd7496a4a738653bd3da5836aafb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:28 +0000
Subject: [PATCH 27/71] fix: H5StateWriter ignored the strides of state arrays

Per charge state arrays were recorded with the values of other attributes or in wrong order.
---
 src/h5writer.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index d44402e..4579a37 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -1,5 +1,7 @@
 
 
+#include <string.h>
+
 #include <sstream>
 
 #include <boost/foreach.hpp>
@@ -239,7 +241,23 @@ void H5StateWriter::append(const StateBase *RS)
 
             H5::DataType dtype(elem.dset.getDataType());
 
-            elem.dset.write(info.ptr, dtype, memspace, filespace);
+            // storage isn't necessarily contiguous, but always double or size_t
+            size_t esize = info.type==StateBase::ArrayInfo::Double ? sizeof(double) : sizeof(size_t),
+                   count = 1;
+            for(unsigned d=0; d<info.ndim; d++)
+                count *= info.dim[d];
+
+            std::vector<char> buf(count*esize);
+            for(size_t n=0; n<count; n++) {
+                size_t pos[StateBase::ArrayInfo::maxdims], rem = n;
+                for(unsigned d=info.ndim; d>0; d--) {
+                    pos[d-1] = rem%info.dim[d-1];
+                    rem /= info.dim[d-1];
+                }
+                memcpy(&buf[n*esize], info.raw(pos), esize);
+            }
+
+            elem.dset.write(buf.empty() ? NULL : &buf[0], dtype, memspace, filespace);
 
         }
     } CATCH()
-- 
2.43.0


From dfd9164cfbceab8b9de564c419d83b32a818315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:28 +0000
Subject: [PATCH 28/71] fix: H5StateWriter::append() of a different state type
 was only prevented by an assert()

---
 src/h5writer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index 4579a37..33d8c80 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -216,7 +216,8 @@ void H5StateWriter::append(const StateBase *RS)
             if(!S->getArray(elem.idx, info))
                 throw std::logic_error("can't re-fetch state parameter?");
 
-            assert((elem.info.ndim==info.ndim) && (elem.info.type==info.type));
+            if(elem.info.ndim!=info.ndim || elem.info.type!=info.type || strcmp(elem.info.name, info.name)!=0)
+                throw std::runtime_error("H5StateWriter can't append a state of a different type");
 
             hsize_t shape[StateBase::ArrayInfo::maxdims+1];
             shape[0] = ++elem.nextrow;
-- 
2.43.0


From a72558af758729cef0eec1a61895d14a3c4b8edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:29 +0000
Subject: [PATCH 29/71] fix: H5StateWriter truncated previous records when the
 number of charge states decreased

---
 src/h5writer.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index 33d8c80..cf9dd43 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -221,14 +221,20 @@ void H5StateWriter::append(const StateBase *RS)
 
             hsize_t shape[StateBase::ArrayInfo::maxdims+1];
             shape[0] = ++elem.nextrow;
+            // resize
+            // always in time, maybe in other dimensions.  Never shrink as this would discard previous records
+            {
+                hsize_t cursize[StateBase::ArrayInfo::maxdims+1];
+                elem.dset.getSpace().getSimpleExtentDims(cursize);
+                for(unsigned d=0; d<info.ndim; d++)
+                    shape[d+1] = std::max(cursize[d+1], (hsize_t)info.dim[d]);
+            }
+            elem.dset.extend(shape);
+
             std::copy(info.dim,
                       info.dim+info.ndim,
                       shape+1);
 
-            // resize
-            // always in time, maybe in other dimensions
-            elem.dset.extend(shape);
-
             // filespace is hyper from [index,0...] to [index,shape]
             hsize_t start[StateBase::ArrayInfo::maxdims+1];
             start[0] = shape[0]-1;
-- 
2.43.0


From cc3406088cd1297c21ed985ae4dbd1353253ba7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:57 +0000
Subject: [PATCH 30/71] fix: null pointer dereference after a parse error in a
 Generic cavity data file

---
 src/rf_cavity.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 359df11..e526f74 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -818,11 +818,11 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
                     GLPSParser P;
                     conf.reset(P.parse_file(DataFile.c_str()));
                 }catch(std::exception& e){
-                    std::cerr<<"Parse error: "<<e.what()<<"\n";
+                    throw std::runtime_error(SB()<<"Parse error: "<<e.what()<<"\n");
                 }
 
             }catch(std::exception& e){
-                std::cerr<<"Error: "<<e.what()<<"\n";
+                throw std::runtime_error(SB()<<"Error: "<<e.what()<<"\n");
             }
             CavConfMap.insert(std::make_pair(key, conf));
         } else {
-- 
2.43.0


From 77d1578e9d4ac371ba0ff9ed1caf5699205b7ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:57 +0000
Subject: [PATCH 31/71] fix: out of bounds access for a too short 'attr' in a
 Generic cavity data file

---
 src/rf_cavity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index e526f74..4836e26 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -848,6 +848,8 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
                 const double eV0(EC.get<double>("V0"));
                 params.E0 = eV0;
                 EC.tryGet<std::vector<double> >("attr", attrs);
+                if(attrs.size() < (etype=="AccGap" ? 23u : 20u))
+                    throw std::runtime_error(SB()<<"'attr' of "<<etype<<" in '"<<DataFile<<"' has too few elements");
                 for(int i=0; i<10; i++)
                 {
                     params.Tfit.push_back(attrs[i]);
-- 
2.43.0


From 4788020e1af1e9ba8c4622393301bedea6b14edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:57 +0000
Subject: [PATCH 32/71] fix: out of bounds access for a Generic cavity without
 AccGap

---
 src/rf_cavity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 4836e26..babc5ad 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -636,6 +636,8 @@ double GetCavPhase(const int cavi, const Particle& ref, const double IonFys, con
         Fyc = 5.428*pow(IonEk, -0.5008) + 1.6;
         break;
     case 0:
+        if(P.size()<3)
+            throw std::runtime_error("*** GetCavPhase: no AccGap in RF cavity file");
         Fyc = P[0]*pow(IonEk,P[1])- P[2];
         break;
     default:
-- 
2.43.0


From a6e66aed1b652cdda3128d558b720044da007174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:57 +0000
Subject: [PATCH 33/71] fix: out of bounds access for too short limits in a
 Generic cavity data file

---
 src/rf_cavity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index babc5ad..1eba375 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -884,6 +884,8 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
         have_SynComplex = conf->tryGet<std::vector<double> >("SyncFit", SynComplex);
         have_EkLim = conf->tryGet<std::vector<double> >("EnergyLimit", EkLim);
         have_NrLim = conf->tryGet<std::vector<double> >("NormLimit", NrLim);
+        if((have_EkLim && EkLim.size()<2) || (have_NrLim && NrLim.size()<2))
+            throw std::runtime_error(SB()<<"'EnergyLimit' and 'NormLimit' need two elements in '"<<DataFile<<"'");
     }
 }
 
-- 
2.43.0


From 7e46be3beda06851030ec7d0de3253d27a04481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:57 +0000
Subject: [PATCH 34/71] fix: out of bounds access when logging a Generic cavity
 at DEBUG level

---
 src/rf_cavity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 1eba375..7a5fee8 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -1355,7 +1355,7 @@ void ElementRFCavity::GetCavMatGeneric(Particle &real, const double EfieldScl, c
             kfdy = kfdx;
             if(logme) {
                 FLAME_LOG(FINE)<<" X EFocus1 kfdx="<<kfdx<<"\n"
-                         <<" Y "<<linetab.E0[n]<<" "<<EfieldScl<<" "<<beta
+                         <<" Y "<<P.E0<<" "<<EfieldScl<<" "<<beta
                          <<" "<<gamma<<" "<<IonFy<<" "<<cRm<<"\n Z "<<T<<" "<<S<<"\n";
             }
 
-- 
2.43.0


From 95e223ee0d76ca810cfb9a1a38e23e5d8ad9de8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:57 +0000
Subject: [PATCH 35/71] fix: out of bounds access for too short or incomplete
 cavity field maps

---
 src/rf_cavity.cpp | 9 +++++++--
 src/util.cpp      | 2 ++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 7a5fee8..456299a 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -160,6 +160,9 @@ void calTransfac(const numeric_table& fldmap, int column_no, const int gaplabel,
 
     if (half) n = (int)round((n-1)/2e0);
 
+    if(n<2)
+        throw std::runtime_error("field map has too few rows");
+
     dz  = (z[n-1]-z[0])/(n-1);
 
 //    prt_data(z, EM);
@@ -758,8 +761,8 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
         try{
             numeric_table_cache::table_pointer ent = cache->fetch(fldmap);
             CavData = *ent;
-            if(CavData.table.size1()==0 || CavData.table.size2()<2)
-                throw std::runtime_error("field map needs 2+ columns");
+            if(CavData.table.size1()<2 || CavData.table.size2()<2)
+                throw std::runtime_error("field map needs 2+ rows and columns");
         }catch(std::exception& e){
             throw std::runtime_error(SB()<<"Error parsing '"<<fldmap<<"' : "<<e.what());
         }
@@ -876,8 +879,10 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
         std::vector<double> Ez;
         bool checker = conf->tryGet<std::vector<double> >("Ez", Ez);
         if (!checker) throw std::runtime_error(SB()<<"'Ez' is missing in RF cavity file.\n");
+        if (Ez.size()%2!=0 || Ez.size()<4) throw std::runtime_error(SB()<<"'Ez' in RF cavity file must have two or more rows of two elements.\n");
         CavData.readvec(Ez,2);
         conf->tryGet<double>("Rm",cRm);
+        if (!(cRm>0)) throw std::runtime_error(SB()<<"'Rm' must be positive in RF cavity file or element.\n");
 
         // Get extra parameters for complex synchronous phase definition
         have_RefNrm = conf->tryGet<double>("RefNorm", RefNrm);
diff --git a/src/util.cpp b/src/util.cpp
index e09378b..093afa1 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -12,6 +12,8 @@
 
 void numeric_table::readvec(std::vector<double> vec, int numcol)
 {
+    if(numcol<=0 || vec.size()%numcol!=0)
+        throw std::runtime_error("numeric_table::readvec() incomplete row");
     value_t tabletmp(int(vec.size()/numcol),numcol);
     for (unsigned i=0; i < vec.size(); i++){
         int ii,jj;
-- 
2.43.0


From 51880297a2eee06ded117b51d4c824d1fc178838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:57 +0000
Subject: [PATCH 36/71] fix: truncated lines of the cavity thin lens files were
 used with uninitialised values

---
 src/rf_cavity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 456299a..43badbf 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -801,7 +801,7 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
                 else
                     params.E0 = 0.0;
 
-                if(lstrm.fail() && !lstrm.eof()) {
+                if(lstrm.fail()) {
                     throw std::runtime_error(SB()<<"Error parsing line '"<<line<<"' in '"<<cavfile<<"'");
                 }
                 lattice.push_back(params);
-- 
2.43.0


From bc27f34e3a9aef6ab7fdbc994e3f93e1a3872a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:57 +0000
Subject: [PATCH 37/71] fix: out of bounds access for more than two AccGap in a
 cavity thin lens file

---
 src/rf_cavity.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index 43badbf..b583556 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -780,7 +780,7 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
             std::ifstream fstrm(cavfile.c_str());
 
             std::string rawline;
-            unsigned line=0;
+            unsigned line=0, ngap=0;
             while(std::getline(fstrm, rawline)) {
                 line++;
 
@@ -804,6 +804,8 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
                 if(lstrm.fail()) {
                     throw std::runtime_error(SB()<<"Error parsing line '"<<line<<"' in '"<<cavfile<<"'");
                 }
+                if(params.type=="AccGap" && ++ngap>2)
+                    throw std::runtime_error(SB()<<"More than two AccGap (line "<<line<<") in '"<<cavfile<<"'");
                 lattice.push_back(params);
             }
 
-- 
2.43.0


From e45fa968d89ffb48bfbe0e929d001ca9cae0f847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:31 +0000
Subject: [PATCH 38/71] fix: out of bounds access for a negative or reversed
 'use_range'

---
 src/moment_sup.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/moment_sup.cpp b/src/moment_sup.cpp
index 3f0f2be..f09f14b 100644
--- a/src/moment_sup.cpp
+++ b/src/moment_sup.cpp
@@ -436,12 +436,11 @@ void GetCurveData(const Config &c, const unsigned ncurve, std::vector<double> &S
             unsigned start, end;
             if (range.size() != 2)
                 throw std::runtime_error(SB()<<"Size of 'use_range' must be 2.\n");
+            if (!(range[0] >= 0.0) or !(range[1] > range[0]) or !(range[1] <= cv.size()))
+                throw std::runtime_error(SB()<<"'use_range' is out of curve size.\n");
             start = static_cast<unsigned>(range[0]);
             end   = static_cast<unsigned>(range[1]);
 
-            if (start > cv.size() or end > cv.size())
-                throw std::runtime_error(SB()<<"'use_range' is out of curve size.\n");
-
             std::vector<double> part(cv.begin()+start, cv.begin()+end);
             Curves.push_back(part);
         } else {
-- 
2.43.0


From d1f38677c68dab3f1a8ea0a81ee6ef5a3b8f6815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:31 +0000
Subject: [PATCH 39/71] fix: data race between threads using curve files or
 Generic cavity data files

---
 src/moment_sup.cpp | 3 +++
 src/rf_cavity.cpp  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/moment_sup.cpp b/src/moment_sup.cpp
index f09f14b..ea2fcf1 100644
--- a/src/moment_sup.cpp
+++ b/src/moment_sup.cpp
@@ -1,6 +1,7 @@
 
 #include <boost/lexical_cast.hpp>
 #include <boost/filesystem.hpp>
+#include <boost/thread/mutex.hpp>
 #include <boost/numeric/ublas/lu.hpp>
 
 #include "flame/constants.h"
@@ -16,6 +17,7 @@
 #endif
 
 std::map<std::string,boost::shared_ptr<Config> > CurveMap;
+static boost::mutex CurveMapLock;
 
 // http://www.crystalclearsoftware.com/cgi-bin/boost_wiki/wiki.pl?LU_Matrix_Inversion
 // by LU-decomposition.
@@ -400,6 +402,7 @@ void GetCurveData(const Config &c, const unsigned ncurve, std::vector<double> &S
         std::string CurveFile =  c.get<std::string>("Eng_Data_Dir", defpath);
         CurveFile += "/" + filename;
         std::string key(SB()<<CurveFile<<"|"<<boost::filesystem::last_write_time(CurveFile));
+        boost::mutex::scoped_lock L(CurveMapLock);
         if ( CurveMap.find(key) == CurveMap.end() ) {
             // not found in CurveMap
             try {
diff --git a/src/rf_cavity.cpp b/src/rf_cavity.cpp
index b583556..0986940 100644
--- a/src/rf_cavity.cpp
+++ b/src/rf_cavity.cpp
@@ -3,6 +3,7 @@
 
 #include <boost/lexical_cast.hpp>
 #include <boost/filesystem.hpp>
+#include <boost/thread/mutex.hpp>
 
 #include "flame/constants.h"
 #include "flame/moment.h"
@@ -20,6 +21,7 @@
 #endif
 
 std::map<std::string,boost::shared_ptr<Config> > ElementRFCavity::CavConfMap;
+static boost::mutex CavConfMapLock;
 
 // RF Cavity beam dynamics functions.
 
@@ -818,6 +820,7 @@ void  ElementRFCavity::LoadCavityFile(const Config& c)
     {
         boost::shared_ptr<Config> conf;
         std::string key(SB()<<DataFile<<"|"<<boost::filesystem::last_write_time(DataFile));
+        boost::mutex::scoped_lock L(CavConfMapLock);
         if ( CavConfMap.find(key) == CavConfMap.end() ) {
             // not found in CavConfMap
             try {
-- 
2.43.0


From 112d4bc4e03b8991b51bc45493083596a01501ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:31 +0000
Subject: [PATCH 40/71] fix: numeric_table dropped a malformed last value of a
 line

and mistook blank lines with DOS line ends for data.
---
 src/util.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index 093afa1..4f25582 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -39,13 +39,11 @@ void numeric_table::read(std::istream &strm)
         line++;
         values.clear();
 
-        size_t cpos = rawline.find_first_not_of(" \t");
+        size_t cpos = rawline.find_last_not_of(" \t\r\n");
         if(cpos==rawline.npos)
-            continue; // skip blank and comment lines
+            continue; // skip blank lines
 
-        cpos = rawline.find_last_not_of("\r\n");
-        if(cpos!=rawline.npos)
-            rawline = rawline.substr(0, cpos+1);
+        rawline = rawline.substr(0, cpos+1);
 
         if(rawline[0]=='%') {
             // headers
@@ -77,7 +75,7 @@ void numeric_table::read(std::istream &strm)
                     values.push_back(val);
             }
 
-            if(!lstrm.eof() && lstrm.fail())
+            if(lstrm.fail())
                 throw std::runtime_error(SB()<<"Error parsing data line "<<line<<" '"<<rawline<<"'");
 
             if(!table.empty() && table.back().size()!=values.size())
-- 
2.43.0


From 2f27513d1b788cb0128ac7195776254a2a5b5cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:31 +0000
Subject: [PATCH 41/71] fix: numeric_table kept the size of the previous table
 when reading an empty one

---
 src/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cpp b/src/util.cpp
index 4f25582..6cde6fd 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -92,7 +92,7 @@ void numeric_table::read(std::istream &strm)
     if(!strm.eof() && strm.fail())
         throw std::runtime_error(SB()<<"Error parsing line "<<line<<" '"<<rawline<<"'");
     else if(table.empty()) {
-        this->table.clear();
+        this->table.resize(0, 0, false);
     } else {
         value_t result(table.size(), table.front().size());
 
-- 
2.43.0


From 53fa9e768da256ca8901769bc551a3def70e00b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:31 +0000
Subject: [PATCH 42/71] fix: numeric_table_cache served stale data for a file
 replaced by one with older time stamp

---
 src/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index 6cde6fd..baa27fe 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -141,7 +141,7 @@ numeric_table_cache::table_pointer numeric_table_cache::fetch(const std::string&
     boost::mutex::scoped_lock L(pvt->lock);
 
     Pvt::cache_t::const_iterator it = pvt->cache.find(path);
-    if(it==pvt->cache.end() || mtime>it->second.lastmod) {
+    if(it==pvt->cache.end() || mtime!=it->second.lastmod) {
         // miss
 
         ret.reset(new numeric_table);
@@ -151,7 +151,7 @@ numeric_table_cache::table_pointer numeric_table_cache::fetch(const std::string&
         ret->read(strm);
 
         Pvt::Value v;
-        v.lastmod = boost::filesystem::last_write_time(P); // fetch again to avoid some, but not all, races
+        v.lastmod = mtime; // from before reading, so a concurrent change is noticed by the next fetch()
         v.table = ret;
 
         pvt->cache[path] = v;
-- 
2.43.0


From ec9606e27fda9fca33a46a87e53a175156304cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:55 +0000
Subject: [PATCH 43/71] fix: flame tool reported success when the txt output
 could not be written

---
 tools/cli.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/cli.cpp b/tools/cli.cpp
index 2927a85..d3254a4 100644
--- a/tools/cli.cpp
+++ b/tools/cli.cpp
@@ -276,6 +276,8 @@ struct StreamObserver : public Observer
                 if(cmd.substr(0,5)=="file=") {
                     owned_strm.reset(new std::ofstream(cmd.substr(5).c_str()));
                     strm = owned_strm.get();
+                    if(!strm->good())
+                        throw std::runtime_error("Unable to open output file "+cmd.substr(5));
                 } else if(cmd=="verbose") {
                     detail=1;
                 } else if(cmd.substr(0,8)=="verbose=") {
@@ -294,6 +296,8 @@ struct StreamObserver : public Observer
         virtual void after_sim(Machine&)
         {
             strm->flush();
+            if(!strm->good())
+                throw std::runtime_error("Error writing output");
         }
     };
 };
-- 
2.43.0


From 6542ed09903fa359c1df240a3db1c90e5563b166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:55 +0000
Subject: [PATCH 44/71] fix: element with an empty curve was silently ignored

---
 src/moment_sup.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/moment_sup.cpp b/src/moment_sup.cpp
index ea2fcf1..e10ff95 100644
--- a/src/moment_sup.cpp
+++ b/src/moment_sup.cpp
@@ -434,6 +434,7 @@ void GetCurveData(const Config &c, const unsigned ncurve, std::vector<double> &S
             cvchecker = c.tryGet<std::vector<double> >("curve"+num, cv);
         }
         if (!cvchecker)throw std::runtime_error(SB()<<"'curve" << num << "' is missing in lattice file.\n");
+        if (cv.empty())throw std::runtime_error(SB()<<"'curve" << num << "' is empty.\n");
 
         if (rngchecker){
             unsigned start, end;
-- 
2.43.0


From 0ec0ec66986546744b59aa73d7d653fced18ec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:28 +0000
Subject: [PATCH 45/71] fix: deleting an attribute of a State crashed the
 interpreter

---
 python/flame/modstate.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/flame/modstate.cpp b/python/flame/modstate.cpp
index 5a071f2..deb9fd2 100644
--- a/python/flame/modstate.cpp
+++ b/python/flame/modstate.cpp
@@ -141,6 +141,11 @@ int PyState_setattro(PyObject *raw, PyObject *attr, PyObject *val)
             return PyObject_GenericSetAttr(raw, attr, val);
         int i = PyInt_AsLong(idx);
 
+        if(!val) {
+            PyErr_SetString(PyExc_AttributeError, "can't delete State attribute");
+            return -1;
+        }
+
         StateBase::ArrayInfo info;
 
         if(!state->state->getArray(i, info)) {
-- 
2.43.0


From 5e31029e14d80056597a9fba8cdb84eda4496626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:28 +0000
Subject: [PATCH 46/71] fix: a refused assignment to a scalar State attribute
 overwrote its value

---
 python/flame/modstate.cpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/python/flame/modstate.cpp b/python/flame/modstate.cpp
index deb9fd2..236dab8 100644
--- a/python/flame/modstate.cpp
+++ b/python/flame/modstate.cpp
@@ -158,27 +158,35 @@ int PyState_setattro(PyObject *raw, PyObject *attr, PyObject *val)
 
             switch(info.type) {
             case StateBase::ArrayInfo::Double: {
-                double *dest = (double*)info.ptr;
+                double *dest = (double*)info.ptr, num = 0.0;
                 if(PyFloat_Check(val))
-                    *dest = PyFloat_AsDouble(val);
+                    num = PyFloat_AsDouble(val);
                 else if(PyLong_Check(val))
-                    *dest = PyLong_AsDouble(val);
+                    num = PyLong_AsDouble(val);
                 else if(PyInt_Check(val))
-                    *dest = PyInt_AsLong(val);
+                    num = PyInt_AsLong(val);
                 else
                     PyErr_Format(PyExc_ValueError, "Can't assign to double field");
+                if(!PyErr_Occurred())
+                    *dest = num;
             }
                 break;
             case StateBase::ArrayInfo::Sizet: {
-                size_t *dest = (size_t*)info.ptr;
-                if(PyFloat_Check(val))
-                    *dest = PyFloat_AsDouble(val);
-                else if(PyLong_Check(val))
-                    *dest = PyLong_AsUnsignedLongLong(val);
+                size_t *dest = (size_t*)info.ptr, num = 0;
+                if(PyFloat_Check(val)) {
+                    double dval = PyFloat_AsDouble(val);
+                    if(dval>=0.0 && dval<(double)SIZE_MAX)
+                        num = dval;
+                    else
+                        PyErr_Format(PyExc_ValueError, "Can't assign to integer field");
+                } else if(PyLong_Check(val))
+                    num = PyLong_AsUnsignedLongLong(val);
                 else if(PyInt_Check(val))
-                    *dest = PyInt_AsLong(val);
+                    num = PyInt_AsLong(val);
                 else
-                    PyErr_Format(PyExc_ValueError, "Can't assign to double field");
+                    PyErr_Format(PyExc_ValueError, "Can't assign to integer field");
+                if(!PyErr_Occurred())
+                    *dest = num;
             }
                 break;
             default:
-- 
2.43.0


From 62d1921dd25b98679bad3b9fe89b09e4e0a78643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:28 +0000
Subject: [PATCH 47/71] fix: State was visible to the garbage collector while
 being destroyed

---
 python/flame/modstate.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/flame/modstate.cpp b/python/flame/modstate.cpp
index 236dab8..0b319a2 100644
--- a/python/flame/modstate.cpp
+++ b/python/flame/modstate.cpp
@@ -50,6 +50,8 @@ static
 void PyState_free(PyObject *raw)
 {
     TRY {
+        PyObject_GC_UnTrack(raw);
+
         std::auto_ptr<StateBase> S(state->state);
         state->state = NULL;
 
-- 
2.43.0


From dccce2467d7a8eed64b6720adc564c57e0452911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:28 +0000
Subject: [PATCH 48/71] fix: Machine() with bad arguments dereferenced a null
 pointer, repeated __init__ leaked

---
 python/flame/modmachine.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index af91b72..ffe7d34 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -20,9 +20,12 @@ static
 int PyMachine_init(PyObject *raw, PyObject *args, PyObject *kws)
 {
     TRY {
-        assert(!machine->weak);
+        if(machine->machine)
+            throw std::runtime_error("Machine is already initialized");
 
         std::auto_ptr<Config> C(PyGLPSParse2Config(raw, args, kws));
+        if(!C.get())
+            return -1; // a py exception is active
 
         machine->machine = new Machine(*C);
 
-- 
2.43.0


From 64450b40e2a096c0ff6e02e8de45d832930046c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:28 +0000
Subject: [PATCH 49/71] fix: methods of a Machine which was not initialized
 dereferenced a null pointer

---
 python/flame/modmachine.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index ffe7d34..6723d46 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -7,6 +7,10 @@
 
 #define TRY PyMachine *machine = reinterpret_cast<PyMachine*>(raw); try
 
+// for methods, which may be called before __init__()
+#define TRYM TRY { \
+    if(!machine->machine) throw std::runtime_error("Machine is not initialized");
+
 namespace {
 
 struct PyMachine {
@@ -52,7 +56,7 @@ void PyMachine_free(PyObject *raw)
 static
 PyObject *PyMachine_str(PyObject *raw)
 {
-    TRY {
+    TRYM
         std::ostringstream strm;
         strm << *(machine->machine);
         return PyString_FromString(strm.str().c_str());
@@ -62,7 +66,7 @@ PyObject *PyMachine_str(PyObject *raw)
 static
 PyObject *PyMachine_conf(PyObject *raw, PyObject *args, PyObject *kws)
 {
-    TRY {
+    TRYM
         PyObject *pyindex = Py_None;
         const char *pnames[] = {"index", NULL};
         if(!PyArg_ParseTupleAndKeywords(args, kws, "|O", (char**)pnames, &pyindex))
@@ -89,7 +93,7 @@ PyObject *PyMachine_conf(PyObject *raw, PyObject *args, PyObject *kws)
 static
 PyObject *PyMachine_allocState(PyObject *raw, PyObject *args, PyObject *kws)
 {
-    TRY {
+    TRYM
         PyObject *d = Py_None, *W = Py_False;
         const char *pnames[] = {"config", "inherit", NULL};
         if(!PyArg_ParseTupleAndKeywords(args, kws, "|OO", (char**)pnames, &d, &W))
@@ -159,7 +163,7 @@ static
 PyObject *PyMachine_propagate(PyObject *raw, PyObject *args, PyObject *kws)
 {
 
-    TRY {
+    TRYM
         PyObject *state, *toobserv = Py_None, *pymax = Py_None;
         unsigned long start = 0;
         int max = INT_MAX;
@@ -197,7 +201,7 @@ PyObject *PyMachine_propagate(PyObject *raw, PyObject *args, PyObject *kws)
 static
 PyObject *PyMachine_reconfigure(PyObject *raw, PyObject *args, PyObject *kws)
 {
-    TRY{
+    TRYM
         unsigned long idx;
         PyObject *conf, *replace = Py_False;
         const char *pnames[] = {"index", "config", "replace", NULL};
@@ -224,7 +228,7 @@ PyObject *PyMachine_reconfigure(PyObject *raw, PyObject *args, PyObject *kws)
 static
 PyObject *PyMachine_find(PyObject *raw, PyObject *args, PyObject *kws)
 {
-    TRY{
+    TRYM
         const char *ename = NULL, *etype = NULL;
         const char *pnames[] = {"name", "type", NULL};
         if(!PyArg_ParseTupleAndKeywords(args, kws, "|zz", (char**)pnames, &ename, &etype))
@@ -260,7 +264,7 @@ PyObject *PyMachine_find(PyObject *raw, PyObject *args, PyObject *kws)
 static
 Py_ssize_t PyMachine_len(PyObject *raw)
 {
-    TRY{
+    TRYM
         return machine->machine->size();
     }CATCH1(-1)
 }
-- 
2.43.0


From 383ab4de52d8ca0ffb1796a6ec5e0860c0cf7a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:28 +0000
Subject: [PATCH 50/71] fix: Machine.propagate() ignored an invalid or too
 large 'max'

---
 python/flame/modmachine.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index 6723d46..31c8529 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -171,7 +171,14 @@ PyObject *PyMachine_propagate(PyObject *raw, PyObject *args, PyObject *kws)
         if(!PyArg_ParseTupleAndKeywords(args, kws, "O|kOO", (char**)pnames, &state, &start, &pymax, &toobserv))
             return NULL;
 
-        if (pymax!=Py_None) max = (int) PyLong_AsLong(pymax);
+        if (pymax!=Py_None) {
+            long lmax = PyLong_AsLong(pymax);
+            if(lmax==-1 && PyErr_Occurred())
+                return NULL;
+            if(lmax<INT_MIN || lmax>INT_MAX)
+                return PyErr_Format(PyExc_OverflowError, "'max' out of range");
+            max = (int)lmax;
+        }
 
         PyStoreObserver observer;
         PyScopedObserver observing(machine->machine);
-- 
2.43.0


From 7c876edc667ce16da68530ccd4ef0f248be437aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:28 +0000
Subject: [PATCH 51/71] fix: errors raised by an iterator were ignored, and
 left pending

---
 python/flame/modconfig.cpp  | 6 +++++-
 python/flame/modmachine.cpp | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index d1eed62..4696dff 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -27,7 +27,11 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
     PyRef<> iter(PyObject_GetIter(list));
     while(true) {
         PyObject *item = PyIter_Next(iter.py());
-        if(!item) break;
+        if(!item) {
+            if(PyErr_Occurred())
+                throw std::runtime_error("error while iterating");
+            break;
+        }
         PyRef<> itemref(item);
         const char *kname;
         PyObject *value;
diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index 31c8529..49ed273 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -193,6 +193,8 @@ PyObject *PyMachine_propagate(PyObject *raw, PyObject *args, PyObject *kws)
                 observing.observe(num, &observer);
 
             }
+            if(PyErr_Occurred())
+                throw std::runtime_error(""); // error from iterator
         }
 
         machine->machine->propagate(unwrapstate(state), start, max);
-- 
2.43.0


From 46ac6fd6391a10e82dd0846186a62e238652ed38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:28 +0000
Subject: [PATCH 52/71] fix: GLPSParser.parse() leaked the Config, the file
 name, and a type when failing

---
 python/flame/modconfig.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index 4696dff..f4680d2 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -71,7 +71,7 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
                     elem.reset(PyMapping_Items(elem.py()));
                 }
                 if(!PyList_Check(elem.py())) {
-                    PyTypeObject *valuetype = (PyTypeObject*)PyObject_Type(elem.py());
+                    PyTypeObject *valuetype = Py_TYPE(elem.py());
                     throw std::invalid_argument(SB()<<"lists must contain only dict or list of tuples, not "<<valuetype->tp_name);
                 }
 
@@ -83,7 +83,7 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
             ret.set<Config::vector_t>(kname, output);
 
         } else {
-            PyTypeObject *valuetype = (PyTypeObject*)PyObject_Type(value);
+            PyTypeObject *valuetype = Py_TYPE(value);
             throw std::invalid_argument(SB()<<"Must be a dict, not "<<valuetype->tp_name);
         }
     }
@@ -240,7 +240,11 @@ Config* PyGLPSParse2Config(PyObject *, PyObject *args, PyObject *kws)
         PyCString pyname;
 
         if(!path && PyObject_HasAttrString(conf, "name")) {
-            path = pyname.c_str(pydirname(PyObject_GetAttrString(conf, "name")));
+            PyRef<> name(PyObject_GetAttrString(conf, "name"));
+            if(PyString_Check(name.py())) { // eg. not a file descriptor
+                PyRef<> dir(pydirname(name.py()));
+                path = pyname.c_str(dir.py());
+            }
         }
 
         PyRef<> pybytes(PyObject_CallMethod(conf, "read", ""));
@@ -280,6 +284,7 @@ Config* PyGLPSParse2Config(PyObject *, PyObject *args, PyObject *kws)
 PyObject* PyGLPSParse(PyObject *unused, PyObject *args, PyObject *kws)
 {
     try{
-        return conf2dict(PyGLPSParse2Config(unused, args, kws));
+        std::auto_ptr<Config> conf(PyGLPSParse2Config(unused, args, kws));
+        return conf2dict(conf.get());
     }CATCH()
 }
-- 
2.43.0


From 9c22a9092ca8dd92a919fcd7caadbc905aa19c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:44 +0000
Subject: [PATCH 53/71] fix: strings with embedded null characters were
 truncated

---
 python/flame/modconfig.cpp | 14 +++++++++-----
 python/flame/pyflame.h     |  2 ++
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index f4680d2..ee5f321 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -56,7 +56,7 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
             PyCString sval(valref);
             const char *val = sval.c_str();
 
-            ret.set<std::string>(kname, val);
+            ret.set<std::string>(kname, std::string(val, sval.size()));
 
         } else if(PySequence_Check(value)) { // list of dict
             Py_ssize_t N = PySequence_Size(value);
@@ -108,7 +108,7 @@ struct confval : public boost::static_visitor<PyRef<> >
 
     PyRef<> operator()(const std::string& v) const
     {
-        return PyRef<>(PyString_FromString(v.c_str()));
+        return PyRef<>(PyString_FromStringAndSize(v.c_str(), v.size()));
     }
 
     PyRef<> operator()(const std::vector<double>& v) const
@@ -179,7 +179,10 @@ PyObject* PyGLPSPrint(PyObject *, PyObject *args)
         List2Config(conf, inp);
         std::ostringstream strm;
         GLPSPrint(strm, conf);
-        return PyString_FromString(strm.str().c_str());
+        {
+            std::string str(strm.str());
+            return PyString_FromStringAndSize(str.c_str(), str.size());
+        }
     }CATCH()
 }
 
@@ -217,7 +220,8 @@ Config* PyGLPSParse2Config(PyObject *, PyObject *args, PyObject *kws)
                 PyRef<> valuex(value, borrow());
                 PyCString valstr(valuex);
 
-                curval = valstr.c_str();
+                const char *val = valstr.c_str();
+                curval = std::string(val, valstr.size());
 
             } else {
                 PyErr_SetString(PyExc_ValueError, "extra {} can contain only numbers or strings");
@@ -262,7 +266,7 @@ Config* PyGLPSParse2Config(PyObject *, PyObject *args, PyObject *kws)
         PyCString buf;
         const char *cbuf = buf.c_str(conf);
 
-        C.reset(parser.parse_byte(cbuf, strlen(cbuf), path));
+        C.reset(parser.parse_byte(cbuf, buf.size(), path));
 #endif
 
     } else {
diff --git a/python/flame/pyflame.h b/python/flame/pyflame.h
index fa864ce..74e4f49 100644
--- a/python/flame/pyflame.h
+++ b/python/flame/pyflame.h
@@ -36,6 +36,7 @@ int registerModState(PyObject *mod);
 #define PyInt_AsLong PyLong_AsLong
 #define PyString_Check PyUnicode_Check
 #define PyString_FromString PyUnicode_FromString
+#define PyString_FromStringAndSize PyUnicode_FromStringAndSize
 #define MODINIT_RET(VAL) return (VAL)
 
 #else
@@ -149,6 +150,7 @@ struct PyCString
         reset(obj);
         return c_str();
     }
+    size_t size() const { return PyBytes_Size(pystr.py()); }
     const char *c_str() const {
         const char *ret = PyBytes_AsString(pystr.py());
         if(!ret)
-- 
2.43.0


From 850bf50f7dab2973bddce63ca25a87ac53670b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:44 +0000
Subject: [PATCH 54/71] fix: last character of log messages was dropped

---
 python/flame/modmain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/flame/modmain.cpp b/python/flame/modmain.cpp
index 715cdaf..c3898d7 100644
--- a/python/flame/modmain.cpp
+++ b/python/flame/modmain.cpp
@@ -23,7 +23,7 @@ struct PyLogger : public Machine::Logger
             std::string msg(r.strm.str());
             size_t pos = msg.find_last_not_of('\n');
             if(pos!=msg.npos)
-                msg = msg.substr(0, pos);
+                msg = msg.substr(0, pos+1);
 
             // name, level, function name, lineno, message, args, exc_info
             PyRef<> rec(PyObject_CallMethod(logger.py(), "makeRecord", "sHsHsOO",
-- 
2.43.0


From f5541e55a15f59dc83a26079fa68dd012925e933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:15 +0000
Subject: [PATCH 55/71] fix: elements given in a dict did not see entries
 listed after 'elements'

---
 python/flame/modconfig.cpp | 50 ++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index ee5f321..290df57 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -24,6 +24,9 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
     if(depth>3)
         throw std::runtime_error("too deep for Dict2Config");
 
+    // element lists are handled last, to inherit all of the other entries
+    std::list<PyRef<> > nested;
+
     PyRef<> iter(PyObject_GetIter(list));
     while(true) {
         PyObject *item = PyIter_Next(iter.py());
@@ -59,33 +62,44 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
             ret.set<std::string>(kname, std::string(val, sval.size()));
 
         } else if(PySequence_Check(value)) { // list of dict
-            Py_ssize_t N = PySequence_Size(value);
+            nested.push_back(itemref);
 
-            Config::vector_t output;
-            output.reserve(N);
+        } else {
+            PyTypeObject *valuetype = Py_TYPE(value);
+            throw std::invalid_argument(SB()<<"Must be a dict, not "<<valuetype->tp_name);
+        }
+    }
 
-            for(Py_ssize_t i=0; i<N; i++) {
-                PyRef<> elem(PySequence_GetItem(value, i));
+    for(std::list<PyRef<> >::const_iterator it=nested.begin(), end=nested.end(); it!=end; ++it) {
+        const char *kname;
+        PyObject *value;
+        if(!PyArg_ParseTuple(it->py(), "sO", &kname, &value))
+            throw std::runtime_error("list item is not a tuple?");
+
+        Py_ssize_t N = PySequence_Size(value);
+        if(N<0)
+            throw std::runtime_error("unable to get length"); // a py exception is active
 
-                if(PyDict_Check(elem.py())) {
-                    elem.reset(PyMapping_Items(elem.py()));
-                }
-                if(!PyList_Check(elem.py())) {
-                    PyTypeObject *valuetype = Py_TYPE(elem.py());
-                    throw std::invalid_argument(SB()<<"lists must contain only dict or list of tuples, not "<<valuetype->tp_name);
-                }
+        Config::vector_t output;
+        output.reserve(N);
 
-                output.push_back(ret.new_scope());
+        for(Py_ssize_t i=0; i<N; i++) {
+            PyRef<> elem(PySequence_GetItem(value, i));
 
-                List2Config(output.back(), elem.py(), depth+1); // inheirt parent scope
+            if(PyDict_Check(elem.py())) {
+                elem.reset(PyMapping_Items(elem.py()));
+            }
+            if(!PyList_Check(elem.py())) {
+                PyTypeObject *valuetype = Py_TYPE(elem.py());
+                throw std::invalid_argument(SB()<<"lists must contain only dict or list of tuples, not "<<valuetype->tp_name);
             }
 
-            ret.set<Config::vector_t>(kname, output);
+            output.push_back(ret.new_scope());
 
-        } else {
-            PyTypeObject *valuetype = Py_TYPE(value);
-            throw std::invalid_argument(SB()<<"Must be a dict, not "<<valuetype->tp_name);
+            List2Config(output.back(), elem.py(), depth+1); // inheirt parent scope
         }
+
+        ret.set<Config::vector_t>(kname, output);
     }
 }
 
-- 
2.43.0


From 2c882004743e1d766c8a5661c1cc16f5d2795441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:29 +0000
Subject: [PATCH 56/71] fix: moments of a state without IonChargeStates were
 not initialised

---
 src/moment.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/moment.cpp b/src/moment.cpp
index f486e73..28ae81d 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -187,6 +187,10 @@ MomentState::MomentState(const Config& c)
         moment1[0].resize(maxsize, maxsize);
         transmat[0].resize(maxsize, maxsize);
 
+        // defaults when not given
+        moment0[0] = boost::numeric::ublas::zero_vector<double>(maxsize);
+        moment1[0] = boost::numeric::ublas::zero_matrix<double>(maxsize, maxsize);
+
         load_storage(moment0[0].data(), c, vectorname, false);
         load_storage(moment1[0].data(), c, matrixname, false);
         transmat[0] = boost::numeric::ublas::identity_matrix<double>(maxsize);
-- 
2.43.0


From a436c91d2480447b292d95dda8a0bfc84fe8e9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:09 +0000
Subject: [PATCH 57/71] fix: a lattice file which parse()s itself overflowed
 the stack

---
 src/glps_ops.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/glps_ops.cpp b/src/glps_ops.cpp
index 6e25115..30fb7c5 100644
--- a/src/glps_ops.cpp
+++ b/src/glps_ops.cpp
@@ -137,12 +137,33 @@ int binary_bl_mult(parse_context* ctxt, expr_value_t *R, const expr_t * const *A
     return 0;
 }
 
+// nesting of parse() in this thread, limited as a file may (indirectly) name itself
+#ifdef _MSC_VER
+__declspec(thread)
+#else
+__thread
+#endif
+unsigned parse_depth = 0;
+const unsigned max_parse_depth = 50;
+
+struct parse_nesting {
+    parse_nesting()
+    {
+        if(parse_depth>=max_parse_depth)
+            throw std::runtime_error("parse() nested too deeply");
+        parse_depth++;
+    }
+    ~parse_nesting() { parse_depth--; }
+};
+
 int unary_parse(parse_context* ctxt, expr_value_t *R, const expr_t * const *A)
 {
     using namespace boost::filesystem;
     assert(A[0]->etype==glps_expr_string);
     path name(canonical(boost::get<std::string>(A[0]->value), ctxt->cwd));
 
+    parse_nesting nesting;
+
     GLPSParser P;
     P.setPrinter(ctxt->printer);
 
-- 
2.43.0


From 7da8501baedf4aab2d70dad49b43ab2e1ed83583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:38 +0000
Subject: [PATCH 58/71] fix: an error reading a lattice file ended the process

---
 src/glps.l | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/glps.l b/src/glps.l
index 0eeb8e7..d88d054 100644
--- a/src/glps.l
+++ b/src/glps.l
@@ -6,6 +6,18 @@
 #include "glps.par.h"
 
 #define YYSTYPE         GLPS_STYPE
+
+/* as the default, except that a read error is a parse error.  By default flex ends the process */
+#define YY_INPUT(buf, result, max_size) \
+    errno = 0; \
+    while((result = (int)fread(buf, 1, (size_t)(max_size), yyin))==0 && ferror(yyin)) { \
+        if(errno!=EINTR) { \
+            glps_error(yyscanner, yyextra, "Error reading input: %s", strerror(errno)); \
+            break; \
+        } \
+        errno = 0; \
+        clearerr(yyin); \
+    }
 %}
 
 %option 8bit reentrant batch bison-bridge
-- 
2.43.0


From d09c13394a56337a17d46fadbd43b769b2c371f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:10 +0000
Subject: [PATCH 59/71] fix: refused H5StateWriter::append() left datasets of
 different length

---
 src/h5writer.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/h5writer.cpp b/src/h5writer.cpp
index cf9dd43..9d51e8e 100644
--- a/src/h5writer.cpp
+++ b/src/h5writer.cpp
@@ -209,15 +209,24 @@ void H5StateWriter::append(const StateBase *RS)
         if(pvt->elements.empty())
             prepare(RS);
 
-        BOOST_FOREACH(StateElement& elem, pvt->elements)
+        // check everything first so that no dataset grows unless all do
+        BOOST_FOREACH(const StateElement& elem, pvt->elements)
         {
             StateBase::ArrayInfo info;
 
             if(!S->getArray(elem.idx, info))
-                throw std::logic_error("can't re-fetch state parameter?");
+                throw std::runtime_error("H5StateWriter can't append a state of a different type");
 
             if(elem.info.ndim!=info.ndim || elem.info.type!=info.type || strcmp(elem.info.name, info.name)!=0)
                 throw std::runtime_error("H5StateWriter can't append a state of a different type");
+        }
+
+        BOOST_FOREACH(StateElement& elem, pvt->elements)
+        {
+            StateBase::ArrayInfo info;
+
+            if(!S->getArray(elem.idx, info))
+                throw std::logic_error("can't re-fetch state parameter?");
 
             hsize_t shape[StateBase::ArrayInfo::maxdims+1];
             shape[0] = ++elem.nextrow;
-- 
2.43.0


From 6263a53ab706779eea8f05815627c23695f6bedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:24 +0000
Subject: [PATCH 60/71] fix: refused registerElement() leaked the element
 builder

---
 src/base.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/base.cpp b/src/base.cpp
index 7aac98d..11df4aa 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -255,6 +255,7 @@ void Machine::p_registerState(const char *name, state_builder_t b)
 
 void Machine::p_registerElement(const std::string& sname, const char *ename, element_builder_t *b)
 {
+    std::auto_ptr<element_builder_t> guard(b); // we own b, also when refusing it
     info_mutex_t::scoped_lock G(info_mutex);
     p_state_infos_t::iterator it = p_state_infos.find(sname);
     if(it==p_state_infos.end()) {
@@ -270,6 +271,7 @@ void Machine::p_registerElement(const std::string& sname, const char *ename, ele
         throw std::logic_error(strm.str());
     }
     I.elements[ename] = b;
+    guard.release();
 }
 
 void Machine::registeryCleanup()
-- 
2.43.0


From acd1c4e92bc37590853f96eef8b5e3ef380b1e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:15 +0000
Subject: [PATCH 61/71] fix: help of the command-line tool promised that a
 lattice may redefine -D variables

---
 tools/cli.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/cli.cpp b/tools/cli.cpp
index d3254a4..7921745 100644
--- a/tools/cli.cpp
+++ b/tools/cli.cpp
@@ -103,7 +103,7 @@ void getargs(int argc, char *argv[], po::variables_map& args)
                    "Definitions:\n\n"
                    " Variable defintions made by arguments must specify a name, type, and value\n"
                    " The type may be: 'str'' or 'double', which may be abbreviated as 'S' or 'D'.\n"
-                   " Definitions are overwritten by those in the lattice file.\n"
+                   " A lattice file which defines one of them again is refused.\n"
                    ;
         exit(1);
     }
-- 
2.43.0


From 16f0bb9924d68a109b71e84c6d41132220a3161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:54 +0000
Subject: [PATCH 62/71] fix: sextupole parameter step that is no positive
 integer was cast to int unchecked

---
 src/moment.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/moment.cpp b/src/moment.cpp
index 28ae81d..5c94f95 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -1157,10 +1157,14 @@ struct ElementSext : public MomentElementBase
     {
         const double B3= conf().get<double>("B3"),
                      L = conf().get<double>("L")*MtoMM;
-        const int    step = conf().get<double>("step", 1.0);
+        const double nstep = conf().get<double>("step", 1.0);
         const bool   thinlens = conf().get<double>("thinlens", 0.0) == 1.0,
                      dstkick = conf().get<double>("dstkick", 1.0) == 1.0;
 
+        if(!(nstep >= 1.0 && nstep <= std::numeric_limits<int>::max())) throw std::runtime_error(SB()<<
+            "Sextupole parameter 'step' must be a positive integer, not "<<nstep);
+        const int    step = nstep;
+
         state_t&  ST = dynamic_cast<state_t&>(s);
         using namespace boost::numeric::ublas;
 
-- 
2.43.0


From 0370622d465530edb84f3609d7afdc80a4376a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:14 +0000
Subject: [PATCH 63/71] fix: NaN as a flag of an element was cast to unsigned

---
 src/moment.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/moment.cpp b/src/moment.cpp
index 5c94f95..c51b36d 100644
--- a/src/moment.cpp
+++ b/src/moment.cpp
@@ -650,6 +650,8 @@ unsigned MomentElementBase::get_flag(const Config& c, const std::string& name, c
 
     //Check the value is an unsigned integer
     try {
+        if (!(check_value >= 0.0 && check_value <= std::numeric_limits<unsigned>::max()))
+            throw std::runtime_error(SB()<< name << " must be an unsigned integer");
         read_value = boost::lexical_cast<unsigned>(check_value);
         if (boost::lexical_cast<double>(read_value) != check_value)
             throw std::runtime_error(SB()<< name << " must be an unsigned integer");
-- 
2.43.0


From 8005690534022f12b26eace9c9ec71a0cf6ecf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:50 +0000
Subject: [PATCH 64/71] fix: Python reconfigure() and propagate() took large or
 negative indices modulo 2**64

---
 python/flame/modmachine.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index 49ed273..e93a0f0 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -20,6 +20,17 @@ struct PyMachine {
     Machine *machine;
 };
 
+// Convert element index.  'k' format would silently drop the high bits of large numbers
+static
+unsigned long asIndex(PyObject *obj)
+{
+    PyRef<> num(PyNumber_Index(obj));
+    unsigned long ret = PyLong_AsUnsignedLong(num.py());
+    if(PyErr_Occurred())
+        throw std::invalid_argument("invalid element index"); // caller will get active python exception
+    return ret;
+}
+
 static
 int PyMachine_init(PyObject *raw, PyObject *args, PyObject *kws)
 {
@@ -164,13 +175,16 @@ PyObject *PyMachine_propagate(PyObject *raw, PyObject *args, PyObject *kws)
 {
 
     TRYM
-        PyObject *state, *toobserv = Py_None, *pymax = Py_None;
+        PyObject *state, *pystart = NULL, *toobserv = Py_None, *pymax = Py_None;
         unsigned long start = 0;
         int max = INT_MAX;
         const char *pnames[] = {"state", "start", "max", "observe", NULL};
-        if(!PyArg_ParseTupleAndKeywords(args, kws, "O|kOO", (char**)pnames, &state, &start, &pymax, &toobserv))
+        if(!PyArg_ParseTupleAndKeywords(args, kws, "O|OOO", (char**)pnames, &state, &pystart, &pymax, &toobserv))
             return NULL;
 
+        if(pystart)
+            start = asIndex(pystart);
+
         if (pymax!=Py_None) {
             long lmax = PyLong_AsLong(pymax);
             if(lmax==-1 && PyErr_Occurred())
@@ -211,12 +225,12 @@ static
 PyObject *PyMachine_reconfigure(PyObject *raw, PyObject *args, PyObject *kws)
 {
     TRYM
-        unsigned long idx;
-        PyObject *conf, *replace = Py_False;
+        PyObject *pyidx, *conf, *replace = Py_False;
         const char *pnames[] = {"index", "config", "replace", NULL};
-        if(!PyArg_ParseTupleAndKeywords(args, kws, "kO!|O", (char**)pnames, &idx, &PyDict_Type, &conf, &replace))
+        if(!PyArg_ParseTupleAndKeywords(args, kws, "OO!|O", (char**)pnames, &pyidx, &PyDict_Type, &conf, &replace))
             return NULL;
 
+        const unsigned long idx = asIndex(pyidx);
         if(idx>=machine->machine->size())
             return PyErr_Format(PyExc_ValueError, "invalid element index %lu", idx);
 
-- 
2.43.0


From ecdca785943228fb6f1fe2683db07ae6c185975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:50 +0000
Subject: [PATCH 65/71] fix: list item that is no tuple raised SystemError

---
 python/flame/modconfig.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/flame/modconfig.cpp b/python/flame/modconfig.cpp
index 290df57..3c32b37 100644
--- a/python/flame/modconfig.cpp
+++ b/python/flame/modconfig.cpp
@@ -36,6 +36,8 @@ void List2Config(Config& ret, PyObject *list, unsigned depth)
             break;
         }
         PyRef<> itemref(item);
+        if(!PyTuple_Check(item))
+            throw std::invalid_argument(SB()<<"list items must be tuples, not "<<Py_TYPE(item)->tp_name);
         const char *kname;
         PyObject *value;
         if(!PyArg_ParseTuple(item, "sO", &kname, &value))
-- 
2.43.0


From 19dfa0def1ad42787a41611cd68cd11df0997627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:24 +0000
Subject: [PATCH 66/71] fix: exception of a Python log handler ended the
 process

---
 python/flame/modmain.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/flame/modmain.cpp b/python/flame/modmain.cpp
index c3898d7..83a5621 100644
--- a/python/flame/modmain.cpp
+++ b/python/flame/modmain.cpp
@@ -19,7 +19,8 @@ struct PyLogger : public Machine::Logger
     PyRef<> logger;
     virtual void log(const Machine::LogRecord &r)
     {
-        if(logger.py()) {
+        // called from a destructor, so no exception may escape
+        if(logger.py()) try {
             std::string msg(r.strm.str());
             size_t pos = msg.find_last_not_of('\n');
             if(pos!=msg.npos)
@@ -30,6 +31,8 @@ struct PyLogger : public Machine::Logger
                                             FLAME_LOGGER_NAME, r.level, r.fname, r.lnum,
                                             msg.c_str(), Py_None, Py_None));
             PyRef<> junk(PyObject_CallMethod(logger.py(), "handle", "O", rec.py()));
+        } catch(std::exception&) {
+            PyErr_WriteUnraisable(logger.py()); // report and clear error of the log handler
         }
     }
     static void noopdtor(Machine::Logger*) {}
-- 
2.43.0


From 0986c7b2a76473aab8eb8e7a698d76de2806c506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:39 +0000
Subject: [PATCH 67/71] fix: error from the truth value of allocState(inherit=)
 and reconfigure(replace=) was ignored

---
 python/flame/modmachine.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/flame/modmachine.cpp b/python/flame/modmachine.cpp
index e93a0f0..e106181 100644
--- a/python/flame/modmachine.cpp
+++ b/python/flame/modmachine.cpp
@@ -114,7 +114,10 @@ PyObject *PyMachine_allocState(PyObject *raw, PyObject *args, PyObject *kws)
         if(d==Py_None) {
             C = machine->machine->conf();
         } else if(PyDict_Check(d)) {
-            if(PyObject_IsTrue(W)) {
+            int inherit = PyObject_IsTrue(W);
+            if(inherit<0)
+                return NULL; // a py exception is active
+            if(inherit) {
                 C = machine->machine->conf();
                 C.push_scope();
             }
@@ -234,8 +237,12 @@ PyObject *PyMachine_reconfigure(PyObject *raw, PyObject *args, PyObject *kws)
         if(idx>=machine->machine->size())
             return PyErr_Format(PyExc_ValueError, "invalid element index %lu", idx);
 
+        int replaceall = PyObject_IsTrue(replace);
+        if(replaceall<0)
+            return NULL; // a py exception is active
+
         Config newconf;
-        if(!PyObject_IsTrue(replace))
+        if(!replaceall)
             newconf = (*machine->machine)[idx]->conf();
 
         PyRef<> list(PyMapping_Items(conf));
-- 
2.43.0


From dcb379586d3e93697fe8dc679f71c3f7dc68cca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:15 +0000
Subject: [PATCH 68/71] fix: fractional use_range could select an empty curve

---
 src/moment_sup.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/moment_sup.cpp b/src/moment_sup.cpp
index e10ff95..e1e5a2d 100644
--- a/src/moment_sup.cpp
+++ b/src/moment_sup.cpp
@@ -444,6 +444,8 @@ void GetCurveData(const Config &c, const unsigned ncurve, std::vector<double> &S
                 throw std::runtime_error(SB()<<"'use_range' is out of curve size.\n");
             start = static_cast<unsigned>(range[0]);
             end   = static_cast<unsigned>(range[1]);
+            if (!(end > start))
+                throw std::runtime_error(SB()<<"'use_range' selects nothing.\n");
 
             std::vector<double> part(cv.begin()+start, cv.begin()+end);
             Curves.push_back(part);
-- 
2.43.0


From 4e6b4240337dc137cbc3bedd5f3f914a6409c50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:56 +0000
Subject: [PATCH 69/71] fix: electrostatic dipole without horizontal focusing
 gives NaN instead of its matrix

---
 src/moment_sup.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/moment_sup.cpp b/src/moment_sup.cpp
index e1e5a2d..6a65e12 100644
--- a/src/moment_sup.cpp
+++ b/src/moment_sup.cpp
@@ -346,22 +346,25 @@ void GetEBendMatrix(const double L, const double phi, const double fringe_x, con
 
     // Include dispersion.
     if (Kx == 0e0) {
-        dx = 0e0;
-        sx = 0e0;
+        dx = sqr(L)/(2e0*rho);
+        sx = L;
     } else if (Kx > 0e0) {
         dx = (1e0-cos(sqrt(Kx)*L))/(rho*Kx);
         sx = sin(sqrt(Kx)*L)/sqrt(Kx);
     } else {
         dx = (1e0-cosh(sqrt(-Kx)*L))/(rho*Kx);
-        sx = sin(sqrt(Kx)*L)/sqrt(Kx);
+        sx = sinh(sqrt(-Kx)*L)/sqrt(-Kx);
     }
 
+    // Path length term, with its limit for vanishing focusing.
+    const double lx = (Kx != 0e0)? (L-sx)/Kx : cube(L)/6e0;
+
     double Nk   = (sqr(1e0+2e0*eta0)+h)/(2e0*(1e0+eta0)*(1e0+2e0*eta0)),
            Nt   = 1e0 + h/sqr(1e0+2e0*eta0),
            CorT = -real_gamma/(1e0+real_gamma),
            tx   = sx/rho*Nt*CorT,
            txp  = dx*Nt*CorT,
-           tzp  = (-L/(2e0*(1e0+eta0)*(1e0+2e0*eta0))+((L-sx)/Kx/sqr(rho))*Nk*Nt)*CorT;
+           tzp  = (-L/(2e0*(1e0+eta0)*(1e0+2e0*eta0))+(lx/sqr(rho))*Nk*Nt)*CorT;
 
     M(state_t::PS_X,  state_t::PS_PS) = dx*Nk/scl;
     M(state_t::PS_PX, state_t::PS_PS) = sx/rho*Nk/scl;
-- 
2.43.0


From 09dce6d4e714a515dfc8fb3dbc014f706a0b7530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:01 +0000
Subject: [PATCH 70/71] fix: address repeated elements by their occurrence in
 the generated IOC database

With a mangler giving equal prefixes to elements of different name, or
different prefixes to occurrences of one element, ELEM named a missing
or a wrong element.
---
 python/flame/ioc.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/flame/ioc.py b/python/flame/ioc.py
index 515973a..d7394de 100644
--- a/python/flame/ioc.py
+++ b/python/flame/ioc.py
@@ -30,6 +30,7 @@ class Generator(object):
 
         stype = self._D['sim_type']
         outnames = set()
+        instances = defaultdict(int)
 
         nmarkers = 0
 
@@ -44,12 +45,17 @@ class Generator(object):
             if etype=='marker':
                 nmarkers += 1
 
+            # the VIOC addresses repeated elements by their occurrence of this name
+            inst = instances[ename]
+            instances[ename] += 1
+            if inst>0:
+                ename = '%s[%d]'%(ename,inst)
+
             if rname in outnames:
                 N = 1
                 while '%s%d'%(rname,N) in outnames:
                     N += 1
                 rname = '%s%d'%(rname,N)
-                ename = '%s[%d]'%(ename,N)
             outnames.add(rname)
 
             _log.debug("Inspect %(name)s : %(type)s"%elem)
-- 
2.43.0


From dea4df1a1bfe65a3b6d7c908a1b7f1c1bebf14c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:55 +0000
Subject: [PATCH 71/71] fix: a cavity whose misalignment cannot be inverted
 left its cache marked valid

The next pass with the same beam succeeded with stale values, or read
beyond the end of the cached particles with EmitGrowth.
---
 src/flame/rf_cavity.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/flame/rf_cavity.h b/src/flame/rf_cavity.h
index 2ae7977..e1c5324 100644
--- a/src/flame/rf_cavity.h
+++ b/src/flame/rf_cavity.h
@@ -200,14 +200,14 @@ struct ElementRFCavity : public MomentElementBase
                 }
 
                 recompute_matrix(ST); // updates transfer and last_Kenergy_out
+
+                for(size_t i=0; i<last_real_in.size(); i++)
+                    get_misalign(ST, ST.real[i], misalign[i], misalign_inv[i]);
             }catch(...){
                 clear_cache(); // 'transfer' is not valid
                 throw;
             }
 
-            for(size_t i=0; i<last_real_in.size(); i++)
-                get_misalign(ST, ST.real[i], misalign[i], misalign_inv[i]);
-
             ST.recalc();
 
             last_ref_out = ST.ref;
-- 
2.43.0

