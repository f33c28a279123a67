From 75b77e3ee6de38c37fc3b8242f200d40b831ac95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:20 +0000
Subject: [PATCH 01/73] fix: allocate dhalf in 1D CTU integrator for
 cylindrical coordinates

dhalf is needed by the geometric source terms even without a static potential
or cooling; a 1D cylindrical run without either crashed.
---
 src/integrators/integrate_1d_ctu.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/integrators/integrate_1d_ctu.c b/src/integrators/integrate_1d_ctu.c
index ae9b491..8ddf0ba 100644
--- a/src/integrators/integrate_1d_ctu.c
+++ b/src/integrators/integrate_1d_ctu.c
@@ -677,12 +677,7 @@ void integrate_init_1d(MeshS *pM)
   if ((Wl = (Prim1DS*)malloc(size1*sizeof(Prim1DS))) == NULL) goto on_error;
   if ((Wr = (Prim1DS*)malloc(size1*sizeof(Prim1DS))) == NULL) goto on_error;
 
-#ifdef CYLINDRICAL
-  if((StaticGravPot != NULL) || (CoolingFunc != NULL))
-#endif
-  {
-    if ((dhalf  = (Real*)malloc(size1*sizeof(Real))) == NULL) goto on_error;
-  }
+  if ((dhalf  = (Real*)malloc(size1*sizeof(Real))) == NULL) goto on_error;
   if(CoolingFunc != NULL){
     if ((phalf  = (Real*)malloc(size1*sizeof(Real))) == NULL) goto on_error;
   }
-- 
2.43.0


From 2ff297ff65b55c503586e42849a18b8b8af47560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:59 +0000
Subject: [PATCH 02/73] fix: keep interface B3 equal to cell-centred B3 in 2D
 SR MHD

The 2D relativistic integrator never updated B3i, so a restart (which
rebuilds B3c from B3i) went back to the initial out-of-plane field.
---
 src/integrators/integrate_2d_vl_sr.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/integrators/integrate_2d_vl_sr.c b/src/integrators/integrate_2d_vl_sr.c
index da1f143..eebe664 100644
--- a/src/integrators/integrate_2d_vl_sr.c
+++ b/src/integrators/integrate_2d_vl_sr.c
@@ -1024,6 +1024,15 @@ void integrate_2d_vl(DomainS *pD)
 #endif /* MHD */
 #endif /* FIRST_ORDER_FLUX_CORRECTION */
 
+/* Update interface centered B3 (needed by restarts) */
+#ifdef MHD
+  for (j=js; j<=je; j++) {
+    for (i=is; i<=ie; i++) {
+      pG->B3i[ks][j][i] = pG->U[ks][j][i].B3c;
+    }
+  }
+#endif /* MHD */
+
 #ifdef STATIC_MESH_REFINEMENT
 /*=== STEP 16: With SMR, store fluxes at fine/coarse boundaries ==============*/
 
-- 
2.43.0


From 1b1f16c20d7c860f7d04e0ed0396871c3318bf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:18 +0000
Subject: [PATCH 03/73] fix: evaluate resistive diffusion coefficients after a
 restart

---
 src/main.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/main.c b/src/main.c
index 01de31d..1e5c21e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -430,6 +430,19 @@ int main(int argc, char *argv[])
 
   if(ires == 0) new_dt(&Mesh);
 
+/* For restarts, dt is read from the restart file, but the diffusion coefficients
+ * used in the first step still have to be evaluated */
+
+#ifdef RESISTIVITY
+  if(ires != 0) {
+    for (nl=0; nl<(Mesh.NLevels); nl++){
+      for (nd=0; nd<(Mesh.DomainsPerLevel[nl]); nd++){
+        if (Mesh.Domain[nl][nd].Grid != NULL) get_eta(Mesh.Domain[nl][nd].Grid);
+      }
+    }
+  }
+#endif
+
 /*--- Step 7. ----------------------------------------------------------------*/
 /* Set function pointers for integrator; self-gravity (based on dimensions)
  * Initialize gravitational potential for new runs
-- 
2.43.0


From 7dbdaf8a29accd8470a427b311b19879e8ab769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:18 +0000
Subject: [PATCH 04/73] fix: compute self-gravity potential of new density at
 the new time

---
 src/main.c | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/main.c b/src/main.c
index 1e5c21e..a5b6bbf 100644
--- a/src/main.c
+++ b/src/main.c
@@ -582,6 +582,22 @@ int main(int argc, char *argv[])
     Userwork_in_loop(&Mesh);
 
 /*--- Step 9f. ---------------------------------------------------------------*/
+/* Update Mesh time, and time in all Grid's.  Must be done before the potential
+ * is computed, since with shearing box BCs it depends on time. */
+
+    Mesh.nstep++;
+    Mesh.time += Mesh.dt;
+    for (nl=0; nl<(Mesh.NLevels); nl++){
+      for (nd=0; nd<(Mesh.DomainsPerLevel[nl]); nd++){
+        if (Mesh.Domain[nl][nd].Grid != NULL){
+          Mesh.Domain[nl][nd].Grid->time = Mesh.time;
+        }
+      }
+    }
+
+    dt_done = Mesh.dt;
+
+/*--- Step 9g. ---------------------------------------------------------------*/
 /* Compute gravitational potential using new density, and add second-order
  * correction to fluxes for accelerations due to self-gravity. */
 
@@ -597,21 +613,6 @@ int main(int argc, char *argv[])
     }
 #endif
 
-/*--- Step 9g. ---------------------------------------------------------------*/
-/* Update Mesh time, and time in all Grid's. */
-
-    Mesh.nstep++;
-    Mesh.time += Mesh.dt;
-    for (nl=0; nl<(Mesh.NLevels); nl++){
-      for (nd=0; nd<(Mesh.DomainsPerLevel[nl]); nd++){
-        if (Mesh.Domain[nl][nd].Grid != NULL){
-          Mesh.Domain[nl][nd].Grid->time = Mesh.time;
-        }
-      }
-    }
-
-    dt_done = Mesh.dt;
-
 /*--- Step 9h. ---------------------------------------------------------------*/
 /* Boundary values must be set after time is updated for t-dependent BCs.
  * With SMR, ghost zones at internal fine/coarse boundaries set by Prolongate */
-- 
2.43.0


From 07c2a4a14c5b74f493e4be6c6bb27482bc09ad72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:33 +0000
Subject: [PATCH 05/73] fix: prolongate using up-to-date parent ghost zones
 when refinement levels are nested

---
 src/smr.c | 219 +++++++++++++++++++++++++++---------------------------
 1 file changed, 110 insertions(+), 109 deletions(-)

diff --git a/src/smr.c b/src/smr.c
index 0b3b8f3..fb1665b 100644
--- a/src/smr.c
+++ b/src/smr.c
@@ -1389,8 +1389,8 @@ void Prolongate(MeshS *pM)
 
 #ifdef MPI_PARALLEL
 /* Post non-blocking receives at level nl+1 for data from parent Grids at this
- * level (nl). This data is sent in Step 1 below,
- * and will be read in Step 2 during the next iteration of nl */
+ * level (nl). This data is sent in Step 3 below,
+ * and will be read in Step 1 during the next iteration of nl */
 
   if (nl<(pM->NLevels)-1) {
     for (nd=0; nd<(pM->DomainsPerLevel[nl+1]); nd++){
@@ -1429,106 +1429,7 @@ void Prolongate(MeshS *pM)
   }
 #endif /* MPI_PARALLEL */
 
-/*=== Step 1. Send step ======================================================*/
-/* Loop over all Domains, and send ghost zones to all child Grids. */
-
-  for (nd=0; nd<(pM->DomainsPerLevel[nl]); nd++){
-
-  if (pM->Domain[nl][nd].Grid != NULL) { /* there is a Grid on this processor */
-    pG=pM->Domain[nl][nd].Grid;
-    for(i=0; i<maxND; i++) start_addrP[i] = 0;
-    nZeroP = 0;
-
-    for (ncg=0; ncg<(pG->NCGrid); ncg++){
-
-/* Skip if no prolongation needed for this child (only flux correction) */
-    if (pG->CGrid[ncg].nWordsP == 0) { 
-        if(ncg >= pG->NmyCGrid)
-              nZeroP += 1;
-    } else {
-
-      pCO=(GridOvrlpS*)&(pG->CGrid[ncg]);    /* ptr to child Grid overlap */
-
-/* index send_buf with DomN of child, since could be multiple child Domains on
- * same processor.  Start address must be different for each DomN */
-      pSnd = (double*)&(send_bufP[pCO->DomN][start_addrP[pCO->DomN]]); 
-
-      for (dim=0; dim<(2*nDim); dim++){
-        if (pCO->myFlx[dim] != NULL) {
-
-/* Get coordinates ON THIS GRID of zones that overlap child Grid ghost zones */
-
-          ics = pCO->ijks[0] - (nghost/2) - 1;
-          ice = pCO->ijke[0] + (nghost/2) + 1;
-          if (pG->Nx[1] > 1) {
-            jcs = pCO->ijks[1] - (nghost/2) - 1;
-            jce = pCO->ijke[1] + (nghost/2) + 1;
-          } else {
-            jcs = pCO->ijks[1];
-            jce = pCO->ijke[1];
-          }
-          if (pG->Nx[2] > 1) {
-            kcs = pCO->ijks[2] - (nghost/2) - 1;
-            kce = pCO->ijke[2] + (nghost/2) + 1;
-          } else {
-            kcs = pCO->ijks[2];
-            kce = pCO->ijke[2];
-          }
-          if (dim == 0) ice = pCO->ijks[0];
-          if (dim == 1) ics = pCO->ijke[0];
-          if (dim == 2) jce = pCO->ijks[1];
-          if (dim == 3) jcs = pCO->ijke[1];
-          if (dim == 4) kce = pCO->ijks[2];
-          if (dim == 5) kcs = pCO->ijke[2];
-
-/*--- Step 1a. ---------------------------------------------------------------*/
-/* Load send buffer with values in zones that overlap child ghost zones */
-
-          for (k=kcs; k<=kce; k++) {
-          for (j=jcs; j<=jce; j++) {
-          for (i=ics; i<=ice; i++) {
-            *(pSnd++) = pG->U[k][j][i].d;
-            *(pSnd++) = pG->U[k][j][i].M1;
-            *(pSnd++) = pG->U[k][j][i].M2;
-            *(pSnd++) = pG->U[k][j][i].M3;
-#ifndef BAROTROPIC
-            *(pSnd++) = pG->U[k][j][i].E;
-#endif
-#ifdef MHD
-            *(pSnd++) = pG->U[k][j][i].B1c;
-            *(pSnd++) = pG->U[k][j][i].B2c;
-            *(pSnd++) = pG->U[k][j][i].B3c;
-            *(pSnd++) = pG->B1i[k][j][i];
-            *(pSnd++) = pG->B2i[k][j][i];
-            *(pSnd++) = pG->B3i[k][j][i];
-#endif
-#if (NSCALARS > 0)
-            for (ns=0; ns<NSCALARS; ns++) {
-               *(pSnd++) = pG->U[k][j][i].s[ns];
-            }
-#endif
-          }}}
-        }
-      }
-
-/*--- Step 1b. ---------------------------------------------------------------*/
-/* non-blocking send of data to child, using Domain number as tag. */
-#ifdef MPI_PARALLEL
-      if (ncg >= pG->NmyCGrid) {
-        mIndex = ncg - pG->NmyCGrid - nZeroP;
-        ierr = MPI_Isend(&(send_bufP[pCO->DomN][start_addrP[pCO->DomN]]),
-          pG->CGrid[ncg].nWordsP, MPI_DOUBLE, pG->CGrid[ncg].ID, nd,
-          pM->Domain[nl][nd].Comm_Children, &(send_rq[nd][mIndex]));
-      }
-#endif /* MPI_PARALLEL */
-
-      start_addrP[pCO->DomN] += pG->CGrid[ncg].nWordsP;
-
-    } /* end if/else on nWordsP */ 
-    } /* end loop over child grids */
-  }} /* end loop over Domains */
-
-/*=== Step 2. Get step =======================================================*/
+/*=== Step 1. Get step =======================================================*/
 /* Loop over all Domains, get data sent by parent Grids, and prolongate solution
  * into ghost zones. */
 
@@ -1554,7 +1455,7 @@ void Prolongate(MeshS *pM)
 
 #ifdef MPI_PARALLEL
 /* Check non-blocking receives posted above for data in ghost zone from parent
- * Grids, sent in Step 1.  Accept messages in any order. */
+ * Grids, sent in Step 3.  Accept messages in any order. */
 
         mCount = pG->NPGrid - pG->NmyPGrid - nZeroP;
         ierr = MPI_Waitany(mCount,recv_rq[nl][nd],&mIndex,MPI_STATUS_IGNORE);
@@ -1581,13 +1482,13 @@ void Prolongate(MeshS *pM)
 #endif /* MPI_PARALLEL */
       }
 
-/*=== Step 3. Set ghost zones ================================================*/
+/*=== Step 2. Set ghost zones ================================================*/
 /* Loop over 6 boundaries, set ghost zones */
 
       for (dim=0; dim<(2*nDim); dim++){
         if ((pPO->myFlx[dim] != NULL) && (pPO->nWordsP > 0)) {
 
-/*--- Steps 3a.  Set GZ and BFld arrays --------------------------------------*/
+/*--- Steps 2a.  Set GZ and BFld arrays --------------------------------------*/
 /* Compute size of array containing ghost zones from parent Grid.  Set
  * starting and ending indices of GZ array. */
 
@@ -1688,7 +1589,7 @@ void Prolongate(MeshS *pM)
 #endif /* MHD */
           }
 
-/*--- Steps 3b.  Prolongate cell-centered values -----------------------------*/
+/*--- Steps 2b.  Prolongate cell-centered values -----------------------------*/
 /* Get coordinates ON THIS GRID of ghost zones that overlap parent Grid */
 
           ips = pPO->ijks[0] - nghost;
@@ -1749,7 +1650,7 @@ void Prolongate(MeshS *pM)
             }}}
 
 #ifdef MHD
-/*--- Steps 3c.  Prolongate face-centered B ----------------------------------*/
+/*--- Steps 2c.  Prolongate face-centered B ----------------------------------*/
 /* Set prolonged face-centered B fields for 1D (trivial case)  */
 
             if (nDim == 1) {
@@ -1908,9 +1809,109 @@ void Prolongate(MeshS *pM)
     } /* end loop over parent grids */
   }} /* end loop over Domains */
 
+/*=== Step 3. Send step ======================================================*/
+/* Loop over all Domains, and send ghost zones to all child Grids.  Must follow
+ * Step 2, since these zones can include ghost zones of this Grid. */
+
+  for (nd=0; nd<(pM->DomainsPerLevel[nl]); nd++){
+
+  if (pM->Domain[nl][nd].Grid != NULL) { /* there is a Grid on this processor */
+    pG=pM->Domain[nl][nd].Grid;
+    for(i=0; i<maxND; i++) start_addrP[i] = 0;
+    nZeroP = 0;
+
+    for (ncg=0; ncg<(pG->NCGrid); ncg++){
+
+/* Skip if no prolongation needed for this child (only flux correction) */
+    if (pG->CGrid[ncg].nWordsP == 0) { 
+        if(ncg >= pG->NmyCGrid)
+              nZeroP += 1;
+    } else {
+
+      pCO=(GridOvrlpS*)&(pG->CGrid[ncg]);    /* ptr to child Grid overlap */
+
+/* index send_buf with DomN of child, since could be multiple child Domains on
+ * same processor.  Start address must be different for each DomN */
+      pSnd = (double*)&(send_bufP[pCO->DomN][start_addrP[pCO->DomN]]); 
+
+      for (dim=0; dim<(2*nDim); dim++){
+        if (pCO->myFlx[dim] != NULL) {
+
+/* Get coordinates ON THIS GRID of zones that overlap child Grid ghost zones */
+
+          ics = pCO->ijks[0] - (nghost/2) - 1;
+          ice = pCO->ijke[0] + (nghost/2) + 1;
+          if (pG->Nx[1] > 1) {
+            jcs = pCO->ijks[1] - (nghost/2) - 1;
+            jce = pCO->ijke[1] + (nghost/2) + 1;
+          } else {
+            jcs = pCO->ijks[1];
+            jce = pCO->ijke[1];
+          }
+          if (pG->Nx[2] > 1) {
+            kcs = pCO->ijks[2] - (nghost/2) - 1;
+            kce = pCO->ijke[2] + (nghost/2) + 1;
+          } else {
+            kcs = pCO->ijks[2];
+            kce = pCO->ijke[2];
+          }
+          if (dim == 0) ice = pCO->ijks[0];
+          if (dim == 1) ics = pCO->ijke[0];
+          if (dim == 2) jce = pCO->ijks[1];
+          if (dim == 3) jcs = pCO->ijke[1];
+          if (dim == 4) kce = pCO->ijks[2];
+          if (dim == 5) kcs = pCO->ijke[2];
+
+/*--- Step 3a. ---------------------------------------------------------------*/
+/* Load send buffer with values in zones that overlap child ghost zones */
+
+          for (k=kcs; k<=kce; k++) {
+          for (j=jcs; j<=jce; j++) {
+          for (i=ics; i<=ice; i++) {
+            *(pSnd++) = pG->U[k][j][i].d;
+            *(pSnd++) = pG->U[k][j][i].M1;
+            *(pSnd++) = pG->U[k][j][i].M2;
+            *(pSnd++) = pG->U[k][j][i].M3;
+#ifndef BAROTROPIC
+            *(pSnd++) = pG->U[k][j][i].E;
+#endif
+#ifdef MHD
+            *(pSnd++) = pG->U[k][j][i].B1c;
+            *(pSnd++) = pG->U[k][j][i].B2c;
+            *(pSnd++) = pG->U[k][j][i].B3c;
+            *(pSnd++) = pG->B1i[k][j][i];
+            *(pSnd++) = pG->B2i[k][j][i];
+            *(pSnd++) = pG->B3i[k][j][i];
+#endif
+#if (NSCALARS > 0)
+            for (ns=0; ns<NSCALARS; ns++) {
+               *(pSnd++) = pG->U[k][j][i].s[ns];
+            }
+#endif
+          }}}
+        }
+      }
+
+/*--- Step 3b. ---------------------------------------------------------------*/
+/* non-blocking send of data to child, using Domain number as tag. */
+#ifdef MPI_PARALLEL
+      if (ncg >= pG->NmyCGrid) {
+        mIndex = ncg - pG->NmyCGrid - nZeroP;
+        ierr = MPI_Isend(&(send_bufP[pCO->DomN][start_addrP[pCO->DomN]]),
+          pG->CGrid[ncg].nWordsP, MPI_DOUBLE, pG->CGrid[ncg].ID, nd,
+          pM->Domain[nl][nd].Comm_Children, &(send_rq[nd][mIndex]));
+      }
+#endif /* MPI_PARALLEL */
+
+      start_addrP[pCO->DomN] += pG->CGrid[ncg].nWordsP;
+
+    } /* end if/else on nWordsP */ 
+    } /* end loop over child grids */
+  }} /* end loop over Domains */
+
 /*=== Step 4. Clear send_bufP ================================================*/
 /* For child/parent Grids on same processor, copy send_bufP into recv_bufP to
- * prevent "send" in Step 1 above from over-writing data in buffer on the next
+ * prevent "send" in Step 3 above from over-writing data in buffer on the next
  * iteration of the loop over levels (for nl=nl+1). */
 
   for (nd=0; nd<(pM->DomainsPerLevel[nl]); nd++){
@@ -1932,7 +1933,7 @@ void Prolongate(MeshS *pM)
   }
 
 #ifdef MPI_PARALLEL
-/* For MPI jobs, wait for all non-blocking sends in Step 1 to complete */
+/* For MPI jobs, wait for all non-blocking sends in Step 3 to complete */
 
   for (nd=0; nd<(pM->DomainsPerLevel[nl]); nd++){
     if (pM->Domain[nl][nd].Grid != NULL) {
-- 
2.43.0


From 09058a8344cb1c86c8d0068bb640c688d345f980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:52 +0000
Subject: [PATCH 06/73] fix: keep interface B equal to cell-centred B in
 flux-corrected cells in 1D/2D SMR

---
 src/smr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/smr.c b/src/smr.c
index fb1665b..983895e 100644
--- a/src/smr.c
+++ b/src/smr.c
@@ -403,6 +403,8 @@ void RestrictCorrect(MeshS *pM)
             pG->U[k][j][i].B1c -= q1*(pCO->myFlx[dim][kk][jj].B1c - *(pRcv++));
             pG->U[k][j][i].B2c -= q1*(pCO->myFlx[dim][kk][jj].B2c - *(pRcv++));
             pG->U[k][j][i].B3c -= q1*(pCO->myFlx[dim][kk][jj].B3c - *(pRcv++));
+            if (nDim < 2) pG->B2i[k][j][i] = pG->U[k][j][i].B2c;
+            if (nDim < 3) pG->B3i[k][j][i] = pG->U[k][j][i].B3c;
 #endif /* MHD */
 #if (NSCALARS > 0)
             for (n=0; n<NSCALARS; n++) pG->U[k][j][i].s[n] -= 
@@ -431,6 +433,7 @@ void RestrictCorrect(MeshS *pM)
             pG->U[k][j][i].B1c -= q2*(pCO->myFlx[dim][kk][ii].B1c - *(pRcv++));
             pG->U[k][j][i].B2c -= q2*(pCO->myFlx[dim][kk][ii].B2c - *(pRcv++));
             pG->U[k][j][i].B3c -= q2*(pCO->myFlx[dim][kk][ii].B3c - *(pRcv++));
+            if (nDim < 3) pG->B3i[k][j][i] = pG->U[k][j][i].B3c;
 #endif /* MHD */
 #if (NSCALARS > 0)
             for (n=0; n<NSCALARS; n++) pG->U[k][j][i].s[n] -= 
-- 
2.43.0


From e0e4d283b7c7b3fe568a80c971569eb9559f8e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:58 +0000
Subject: [PATCH 07/73] fix: timestep limit of a refined Grid uses velocities
 on that Grid only

---
 src/new_dt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/new_dt.c b/src/new_dt.c
index 595fe3b..e7deac6 100644
--- a/src/new_dt.c
+++ b/src/new_dt.c
@@ -77,6 +77,7 @@ void new_dt(MeshS *pM)
 
   if (pM->Domain[nl][nd].Grid != NULL) {
     pGrid=(pM->Domain[nl][nd].Grid);
+    max_v1 = max_v2 = max_v3 = 0.0;  /* velocities on this Grid limit dt with its own dx */
 
 /* Maximum velocity is always c with special relativity */
 #ifdef SPECIAL_RELATIVITY
-- 
2.43.0


From fb3ca225c021cc7d2e9f8036af14d2289d8d89a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:59 +0000
Subject: [PATCH 08/73] fix: particles moving in the negative direction also
 limit the timestep

---
 src/new_dt.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/new_dt.c b/src/new_dt.c
index e7deac6..7536071 100644
--- a/src/new_dt.c
+++ b/src/new_dt.c
@@ -158,11 +158,11 @@ void new_dt(MeshS *pM)
 #ifdef PARTICLES
     for (q=0; q<pGrid->nparticle; q++) {
       if (pGrid->Nx[0] > 1)
-        max_v1 = MAX(max_v1, pGrid->particle[q].v1);
+        max_v1 = MAX(max_v1, fabs((double)pGrid->particle[q].v1));
       if (pGrid->Nx[1] > 1)
-        max_v2 = MAX(max_v2, pGrid->particle[q].v2);
+        max_v2 = MAX(max_v2, fabs((double)pGrid->particle[q].v2));
       if (pGrid->Nx[2] > 1)
-        max_v3 = MAX(max_v3, pGrid->particle[q].v3);
+        max_v3 = MAX(max_v3, fabs((double)pGrid->particle[q].v3));
     }
 #endif /* PARTICLES */
 
-- 
2.43.0


From f3c000d6acffd89349f900a8fd618ab19c6b1ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:59 +0000
Subject: [PATCH 09/73] fix: make shearing-box MPI buffers large enough for
 ghost zones exchanged in x2

---
 src/bvals_shear.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bvals_shear.c b/src/bvals_shear.c
index af9ff34..f548f83 100644
--- a/src/bvals_shear.c
+++ b/src/bvals_shear.c
@@ -5501,6 +5501,7 @@ void bvals_shear_init(MeshS *pM)
 
 #ifdef MPI_PARALLEL
   size1 = nghost*pG->Nx[1]*(pG->Nx[2]+1)*(NREMAP+NSCALARS);
+  size1 = MAX(size1, nghost*nghost*(pG->Nx[2]+1)*(NVAR_SHARE));
 #ifdef FARGO
   size2 = nfghost*(pG->Nx[0]+1)*(pG->Nx[2]+1)*(NFARGO+NSCALARS);
 #endif
-- 
2.43.0


From c51671e1f5278cebb3b8f881929da2c30ae6699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:25 +0000
Subject: [PATCH 10/73] fix: rank of a child Grid in the parent-child
 communicator

---
 src/init_mesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/init_mesh.c b/src/init_mesh.c
index ed90b88..a28499f 100644
--- a/src/init_mesh.c
+++ b/src/init_mesh.c
@@ -784,7 +784,7 @@ void init_mesh(MeshS *pM)
             groupn++;
             Nranks++;
           } else {
-            pCD->GData[n][m][l].ID_Comm_Parent = ranks[irank];
+            pCD->GData[n][m][l].ID_Comm_Parent = irank;
           }
         }}}
       }
-- 
2.43.0


From 7e7ec31c795e782d507bf956faaf8038daf02785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:55 +0000
Subject: [PATCH 11/73] fix: outflow at outer boundaries extends the normal
 field from the boundary face

---
 src/bvals_mhd.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bvals_mhd.c b/src/bvals_mhd.c
index f1218d4..00ffac0 100644
--- a/src/bvals_mhd.c
+++ b/src/bvals_mhd.c
@@ -1391,7 +1391,7 @@ static void outflow_ox1(GridS *pGrid)
   for (k=ks; k<=ke; k++) {
     for (j=js; j<=je; j++) {
       for (i=2; i<=nghost; i++) {
-        pGrid->B1i[k][j][ie+i] = pGrid->B1i[k][j][ie];
+        pGrid->B1i[k][j][ie+i] = pGrid->B1i[k][j][ie+1];
       }
     }
   }
@@ -1508,7 +1508,7 @@ static void outflow_ox2(GridS *pGrid)
   for (k=ks; k<=ke; k++) {
     for (j=2; j<=nghost; j++) {
       for (i=is-nghost; i<=ie+nghost; i++) {
-        pGrid->B2i[k][je+j][i] = pGrid->B2i[k][je][i];
+        pGrid->B2i[k][je+j][i] = pGrid->B2i[k][je+1][i];
       }
     }
   }
@@ -1619,7 +1619,7 @@ static void outflow_ox3(GridS *pGrid)
   for (k=2; k<=nghost; k++) {
     for (j=js-nghost; j<=je+nghost; j++) {
       for (i=is-nghost; i<=ie+nghost; i++) {
-        pGrid->B3i[ke+k][j][i] = pGrid->B3i[ke][j][i];
+        pGrid->B3i[ke+k][j][i] = pGrid->B3i[ke+1][j][i];
       }
     }
   }
-- 
2.43.0


From e648ea666a474759429bd7b5fd538b86e5685cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:55 +0000
Subject: [PATCH 12/73] fix: timestep uses the larger face field magnitude
 whatever the sign of B

---
 src/new_dt.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/new_dt.c b/src/new_dt.c
index 7536071..d5d8076 100644
--- a/src/new_dt.c
+++ b/src/new_dt.c
@@ -96,11 +96,11 @@ void new_dt(MeshS *pM)
 #ifdef MHD
 
 /* Use maximum of face-centered fields (always larger than cell-centered B) */
-        b1 = pGrid->U[k][j][i].B1c 
+        b1 = fabs((double)pGrid->U[k][j][i].B1c)
           + fabs((double)(pGrid->B1i[k][j][i] - pGrid->U[k][j][i].B1c));
-        b2 = pGrid->U[k][j][i].B2c 
+        b2 = fabs((double)pGrid->U[k][j][i].B2c)
           + fabs((double)(pGrid->B2i[k][j][i] - pGrid->U[k][j][i].B2c));
-        b3 = pGrid->U[k][j][i].B3c 
+        b3 = fabs((double)pGrid->U[k][j][i].B3c)
           + fabs((double)(pGrid->B3i[k][j][i] - pGrid->U[k][j][i].B3c));
         bsq = b1*b1 + b2*b2 + b3*b3;
 /* compute sound speed squared */
-- 
2.43.0


From afcb8375f4530ef93cd876d025f4dba71abf6a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:07 +0000
Subject: [PATCH 13/73] fix: anisotropic heat flux in 2D is along the full
 field direction, including B3

---
 src/microphysics/conduction.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/microphysics/conduction.c b/src/microphysics/conduction.c
index 1e78ffe..a26f6bd 100644
--- a/src/microphysics/conduction.c
+++ b/src/microphysics/conduction.c
@@ -249,7 +249,8 @@ void HeatFlux_aniso(DomainS *pD)
 
       if (pD->Nx[2] == 1) {
         By = 0.5*(pG->U[k][j][i-1].B2c + pG->U[k][j][i].B2c);
-        B02 = SQR(pG->B1i[k][j][i]) + SQR(By);
+        Bz = 0.5*(pG->U[k][j][i-1].B3c + pG->U[k][j][i].B3c);
+        B02 = SQR(pG->B1i[k][j][i]) + SQR(By) + SQR(Bz);
         B02 = MAX(B02,TINY_NUMBER); /* limit in case B=0 */
         bDotGradT = pG->B1i[k][j][i]*(Temp[k][j][i]-Temp[k][j][i-1])/pG->dx1
            + By*dTdy;
@@ -297,7 +298,8 @@ void HeatFlux_aniso(DomainS *pD)
 
       if (pD->Nx[2] == 1) {
         Bx = 0.5*(pG->U[k][j-1][i].B1c + pG->U[k][j][i].B1c);
-        B02 = SQR(Bx) + SQR(pG->B2i[k][j][i]);
+        Bz = 0.5*(pG->U[k][j-1][i].B3c + pG->U[k][j][i].B3c);
+        B02 = SQR(Bx) + SQR(pG->B2i[k][j][i]) + SQR(Bz);
         B02 = MAX(B02,TINY_NUMBER); /* limit in case B=0 */
 
         bDotGradT = pG->B2i[k][j][i]*(Temp[k][j][i]-Temp[k][j-1][i])/pG->dx2
-- 
2.43.0


From ca565400ad7a18fb4cd86f34841532a1f5bc7635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:05 +0000
Subject: [PATCH 14/73] fix: relativistic MHD signal speeds with negative
 normal field

---
 src/rsolvers/hllc_sr.c | 2 +-
 src/rsolvers/hlld_sr.c | 2 +-
 src/rsolvers/hlle_sr.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rsolvers/hllc_sr.c b/src/rsolvers/hllc_sr.c
index bdc3d51..f6f5305 100644
--- a/src/rsolvers/hllc_sr.c
+++ b/src/rsolvers/hllc_sr.c
@@ -844,7 +844,7 @@ void getVChar_pluto(const Prim1DS W, const Real Bx, Real* lm, Real* lp)
 	
   w_1 = 1.0/(rhoh + bsq);   
 	
-  if (Bx < 1.0e-14) {
+  if (fabs(Bx) < 1.0e-14) {
 		
     eps2  = cssq + bsq*w_1*(1.0 - cssq);
 		
diff --git a/src/rsolvers/hlld_sr.c b/src/rsolvers/hlld_sr.c
index a35afc5..bc14918 100644
--- a/src/rsolvers/hlld_sr.c
+++ b/src/rsolvers/hlld_sr.c
@@ -958,7 +958,7 @@ void getVChar_pluto(const Prim1DS W, const Real Bx, Real* lm, Real* lp)
 	
   w_1 = 1.0/(rhoh + bsq);   
 	
-  if (Bx < 1.0e-14) {
+  if (fabs(Bx) < 1.0e-14) {
 		
     eps2  = cssq + bsq*w_1*(1.0 - cssq);
 		
diff --git a/src/rsolvers/hlle_sr.c b/src/rsolvers/hlle_sr.c
index 1310989..6325bdd 100644
--- a/src/rsolvers/hlle_sr.c
+++ b/src/rsolvers/hlle_sr.c
@@ -445,7 +445,7 @@ void getVChar_pluto(const Prim1DS W, const Real Bx, Real* lm, Real* lp)
 	
   w_1 = 1.0/(rhoh + bsq);   
 	
-  if (Bx < 1.0e-14) {
+  if (fabs(Bx) < 1.0e-14) {
 		
     eps2  = cssq + bsq*w_1*(1.0 - cssq);
 		
-- 
2.43.0


From fc264c581cb514e511911f9e3d6e650824ddbdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:04 +0000
Subject: [PATCH 15/73] fix: self-gravity energy correction in x2 of 2D
 problems uses the old potential

---
 src/gravity/selfg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gravity/selfg.c b/src/gravity/selfg.c
index 4aee809..2b46ca3 100644
--- a/src/gravity/selfg.c
+++ b/src/gravity/selfg.c
@@ -175,7 +175,7 @@ void selfg_fc(DomainS *pD)
         phil_old = 0.5*(pG->Phi_old[ks][j-1][i] + pG->Phi_old[ks][j  ][i]);
         phir_old = 0.5*(pG->Phi_old[ks][j  ][i] + pG->Phi_old[ks][j+1][i]);
 
-        dphic = phic - pG->Phi[ks][j][i];
+        dphic = phic - pG->Phi_old[ks][j][i];
         dphil = phil - phil_old;
         dphir = phir - phir_old;
 
-- 
2.43.0


From e90d1ce4b319ab5fa027a10921b0b9c8b12ea3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:56 +0000
Subject: [PATCH 16/73] fix: allow more outputs than the default maximum
 without overrunning the dump flag array

---
 src/output.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/output.c b/src/output.c
index 30c419e..384a3ce 100644
--- a/src/output.c
+++ b/src/output.c
@@ -485,9 +485,14 @@ void data_output(MeshS *pM, const int flag)
   PropFun_t mypar_prop = NULL;
 #endif
   int n;
-  int dump_flag[MAXOUT_DEFAULT+1];
+  int *dump_flag;
   char block[80];
 
+/* One flag for each element of the output array, plus one for the restart */
+  if((dump_flag = (int *)malloc((out_count+1)*sizeof(int))) == NULL){
+    ath_error("[data_output]: Error allocating dump flag array\n");
+  }
+
 /* Loop over all elements in output array
  * set dump flag to input argument, check whether time for output */
 
@@ -555,6 +560,8 @@ void data_output(MeshS *pM, const int flag)
     }
   }
 
+  free(dump_flag);
+
   return;
 }
 
-- 
2.43.0


From 298ef7cfec9ab6664e9ce043489d40f17c61bd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:56 +0000
Subject: [PATCH 17/73] fix: pdf output with several Domains: reset statistics,
 size arrays per Domain, no early return, reduce avg. deviation

---
 src/output_pdf.c | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/output_pdf.c b/src/output_pdf.c
index 41852c2..3394cdc 100644
--- a/src/output_pdf.c
+++ b/src/output_pdf.c
@@ -44,7 +44,7 @@ void output_pdf(MeshS *pM, OutputS *pOut)
   char fmt[80];
   char fid[80]; /* File "id" for the statistics table */
   char *fname,*plev=NULL,*pdom=NULL,*pdir=NULL;
-  char levstr[8],domstr[8],dirstr[8];
+  char levstr[8],domstr[8],dirstr[20];
   int nl,nd,i,j,k,is,ie,js,je,ks,ke;
   int n, data_cnt;
   double dmin, dmax, delta, dpdf, dat, scl;
@@ -78,33 +78,37 @@ void output_pdf(MeshS *pM, OutputS *pOut)
         ks = pG->ks, ke = pG->ke;
         data_cnt = (ie - is + 1)*(je - js + 1)*(ke - ks + 1);
 
-/* Are the requisite arrays allocated? */
-        if(data == NULL){
+/* Are the requisite arrays allocated, and large enough for this Domain? */
+        if(data_cnt > size_dat){
           size_dat = data_cnt;
-          data = (double *)calloc(size_dat,sizeof(double));
+          data = (double *)realloc(data,size_dat*sizeof(double));
           if(data == NULL)
             ath_error("[output_pdf]: Failed to allocate data array\n");
+        }
 
 /* This choice for size_pdf represents a balance between
  * resolution in the PDF and "shot noise" in the data binning. */
 #ifdef MPI_PARALLEL
-          size_pdf = (int)sqrt((double)cd_data_cnt);
+        size_pdf = (int)sqrt((double)cd_data_cnt);
 #else /* MPI_PARALLEL */
-          size_pdf = (int)sqrt((double)size_dat);
+        size_pdf = (int)sqrt((double)data_cnt);
 #endif /* MPI_PARALLEL */
-          pdf = (int *)calloc(size_pdf,sizeof(int));
-          if(pdf == NULL)
-            ath_error("[output_pdf]: Failed to allocate pdf array\n");
+        pdf = (int *)realloc(pdf,size_pdf*sizeof(int));
+        if(pdf == NULL)
+          ath_error("[output_pdf]: Failed to allocate pdf array\n");
+        for(n=0; n<size_pdf; n++) pdf[n] = 0;
 
 #ifdef MPI_PARALLEL
-          if(myID_Comm_Domain == 0){ /* I'm the parent */
-            cd_pdf = (int *)calloc(size_pdf,sizeof(int));
-            if(cd_pdf == NULL)
-              ath_error("[output_pdf]: Failed to allocate cd_pdf array\n");
-          }
-#endif /* MPI_PARALLEL */
+        if(myID_Comm_Domain == 0){ /* I'm the parent */
+          cd_pdf = (int *)realloc(cd_pdf,size_pdf*sizeof(int));
+          if(cd_pdf == NULL)
+            ath_error("[output_pdf]: Failed to allocate cd_pdf array\n");
         }
+#endif /* MPI_PARALLEL */
 
+/* Initialize the moments and the parts of the filename for this Domain */
+        mean = var = adev = sdev = skew = kurt = ep = 0.0;
+        plev = pdom = pdir = NULL;
 
 /* Initialize dmin, dmax */
         dmin = dmax = (*pOut->expr)(pG,is,js,ks);
@@ -154,6 +158,9 @@ void output_pdf(MeshS *pM, OutputS *pOut)
           }
 
 #ifdef MPI_PARALLEL
+          dat = adev;
+          ierr = MPI_Allreduce(&dat,&adev,1,MPI_DOUBLE,MPI_SUM,pD->Comm_Domain);
+
           dat = ep;
           ierr = MPI_Allreduce(&dat,&ep,1,MPI_DOUBLE,MPI_SUM,pD->Comm_Domain);
 
@@ -213,7 +220,7 @@ void output_pdf(MeshS *pM, OutputS *pOut)
 
 #ifdef MPI_PARALLEL
 /* For parallel calculations, only the parent writes the output. */
-        if(myID_Comm_Domain != 0) return;
+        if(myID_Comm_Domain != 0) continue;
 #endif /* MPI_PARALLEL */
 
 /* Create filename and open file.  pdf files are always written in lev#
@@ -223,7 +230,7 @@ void output_pdf(MeshS *pM, OutputS *pOut)
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
           pdir = &dirstr[0];
-          sprintf(pdir,"../lev%d",nl);
+          sprintf(pdir,"../id0/lev%d",nl);
         }
 #else
         if (nl>0) {
-- 
2.43.0


From cd987159bc6dd2302494fb16d396abbf7cab49b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:56 +0000
Subject: [PATCH 18/73] fix: do not carry domain number of an earlier Domain
 into output file names

---
 src/dump_binary.c  | 1 +
 src/dump_history.c | 1 +
 src/dump_tab.c     | 2 ++
 src/dump_vtk.c     | 1 +
 src/output_pgm.c   | 1 +
 src/output_ppm.c   | 1 +
 6 files changed, 7 insertions(+)

diff --git a/src/dump_binary.c b/src/dump_binary.c
index b803ed7..6b8cfe8 100644
--- a/src/dump_binary.c
+++ b/src/dump_binary.c
@@ -90,6 +90,7 @@ void dump_binary(MeshS *pM, OutputS *pOut)
         }
 
 /* construct filename, open file */
+        plev = pdom = NULL;
         if (nl>0) {
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
diff --git a/src/dump_history.c b/src/dump_history.c
index afae5e2..ae6f5ae 100644
--- a/src/dump_history.c
+++ b/src/dump_history.c
@@ -326,6 +326,7 @@ void dump_history(MeshS *pM, OutputS *pOut)
 
 /* Create filename and open file.  History files are always written in lev#
  * directories of root process (rank=0 in MPI_COMM_WORLD) */
+          plev = pdom = pdir = NULL;
 #ifdef MPI_PARALLEL
           if (nl>0) {
             plev = &levstr[0];
diff --git a/src/dump_tab.c b/src/dump_tab.c
index b859e97..b609f95 100644
--- a/src/dump_tab.c
+++ b/src/dump_tab.c
@@ -69,6 +69,7 @@ void dump_tab_cons(MeshS *pM, OutputS *pOut)
         col_cnt = 1;
 
 /* construct output filename. */
+        plev = pdom = NULL;
         if (nl>0) {
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
@@ -319,6 +320,7 @@ void dump_tab_prim(MeshS *pM, OutputS *pOut)
         col_cnt = 1;
 
 /* construct output filename. */
+        plev = pdom = NULL;
         if (nl>0) {
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
diff --git a/src/dump_vtk.c b/src/dump_vtk.c
index 210348c..915ec34 100644
--- a/src/dump_vtk.c
+++ b/src/dump_vtk.c
@@ -90,6 +90,7 @@ void dump_vtk(MeshS *pM, OutputS *pOut)
         }
 
 /* construct filename, open file */
+        plev = pdom = NULL;
         if (nl>0) {
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
diff --git a/src/output_pgm.c b/src/output_pgm.c
index 1f83a52..84e0621 100644
--- a/src/output_pgm.c
+++ b/src/output_pgm.c
@@ -60,6 +60,7 @@ void output_pgm(MeshS *pM, OutputS *pOut)
 /* construct output filename.  pOut->id will either be name of variable,
  * if 'id=...' was included in <ouput> block, or 'outN' where N is number of
  * <output> block.  */
+          plev = pdom = NULL;
           if (nl>0) {
             plev = &levstr[0];
             sprintf(plev,"lev%d",nl);
diff --git a/src/output_ppm.c b/src/output_ppm.c
index b297079..ced7732 100644
--- a/src/output_ppm.c
+++ b/src/output_ppm.c
@@ -72,6 +72,7 @@ void output_ppm(MeshS *pM, OutputS *pOut)
 /* construct output filename.  pOut->id will either be name of variable,
  * if 'id=...' was included in <ouput> block, or 'outN' where N is number of
  * <output> block.  */
+          plev = pdom = NULL;
           if (nl>0) {
             plev = &levstr[0];
             sprintf(plev,"lev%d",nl);
-- 
2.43.0


From 2018c3bddd0a2c58f085ae3c9c647c68f328053b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:33 +0000
Subject: [PATCH 19/73] fix: history averages in 1D/2D are not multiplied by
 the extent of inactive dimensions

---
 src/dump_history.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dump_history.c b/src/dump_history.c
index ae6f5ae..fb60d83 100644
--- a/src/dump_history.c
+++ b/src/dump_history.c
@@ -174,8 +174,8 @@ void dump_history(MeshS *pM, OutputS *pOut)
             for (i=is; i<=ie; i++) {
               dVol = 1.0; 
               if (pG->dx1 > 0.0) dVol *= pG->dx1;
-              if (pG->dx2 > 0.0) dVol *= pG->dx2;
-              if (pG->dx3 > 0.0) dVol *= pG->dx3;
+              if (pD->Nx[1] > 1) dVol *= pG->dx2;
+              if (pD->Nx[2] > 1) dVol *= pG->dx3;
 #ifndef SPECIAL_RELATIVITY
 #ifdef CYLINDRICAL
               cc_pos(pG,i,j,k,&x1,&x2,&x3);
-- 
2.43.0


From 052a244ba8202d795d1d360c013114a0305717fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:33 +0000
Subject: [PATCH 20/73] fix: only the first process of a Domain writes its
 history file

---
 src/dump_history.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dump_history.c b/src/dump_history.c
index fb60d83..60e40e7 100644
--- a/src/dump_history.c
+++ b/src/dump_history.c
@@ -101,7 +101,7 @@ void dump_history(MeshS *pM, OutputS *pOut)
   FILE *pfile;
   char *fname,*plev=NULL,*pdom=NULL,*pdir=NULL,fmt[80];
   char levstr[8],domstr[8],dirstr[20];
-  int n, total_hst_cnt, mhst, myID_Comm_Domain=1;
+  int n, total_hst_cnt, mhst, myID_Comm_Domain=0;
 #ifdef MPI_PARALLEL
   double my_scal[NSCAL + NSCALARS + MAX_USR_H_COUNT]; /* My Volume averages */
   int ierr;
@@ -305,12 +305,12 @@ void dump_history(MeshS *pM, OutputS *pOut)
 #endif
 
 /* Only the parent (rank=0) process computes the average and writes output.
- * For single-processor jobs, myID_Comm_world is always zero. */
+ * For single-processor jobs, myID_Comm_Domain is always zero. */
 
 #ifdef MPI_PARALLEL
         ierr = MPI_Comm_rank(pD->Comm_Domain, &myID_Comm_Domain);
 #endif
-        if((myID_Comm_Domain==0) || (myID_Comm_world==0)){  /* I'm the parent */
+        if(myID_Comm_Domain==0){  /* I'm the parent */
 
 /* Compute volume averages */
 
-- 
2.43.0


From 8202492b91cc1c65350c2545e7d32d2eb183894d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:33 +0000
Subject: [PATCH 21/73] fix: history buffer holds all columns of special
 relativistic MHD

---
 src/dump_history.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dump_history.c b/src/dump_history.c
index 60e40e7..d067d43 100644
--- a/src/dump_history.c
+++ b/src/dump_history.c
@@ -74,7 +74,7 @@
 #include "prototypes.h"
 
 /* Maximum Number of default history dump columns. */
-#define NSCAL 14
+#define NSCAL 18
 
 /* Maximum number of history dump columns that the user routine can add. */
 #define MAX_USR_H_COUNT 30
-- 
2.43.0


From 958480791a655decf455e6b299ca63c835efde87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:33 +0000
Subject: [PATCH 22/73] fix: velocity, pressure, sound speed and entropy
 outputs with special relativity

---
 src/output.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/output.c b/src/output.c
index 384a3ce..e1c64a3 100644
--- a/src/output.c
+++ b/src/output.c
@@ -1168,17 +1168,32 @@ Real expr_ME(const GridS *pG, const int i, const int j, const int k) {
 /*! \fn Real expr_V1(const GridS *pG, const int i, const int j, const int k)  
  *  \brief 1-velocity */
 Real expr_V1(const GridS *pG, const int i, const int j, const int k) {
+#ifdef SPECIAL_RELATIVITY
+  PrimS W = Cons_to_Prim(&(pG->U[k][j][i]));
+  return W.V1;
+#else
   return pG->U[k][j][i].M1/pG->U[k][j][i].d;
+#endif
 }
 /*! \fn Real expr_V2(const GridS *pG, const int i, const int j, const int k)  
  *  \brief 2-velocity */
 Real expr_V2(const GridS *pG, const int i, const int j, const int k) {
+#ifdef SPECIAL_RELATIVITY
+  PrimS W = Cons_to_Prim(&(pG->U[k][j][i]));
+  return W.V2;
+#else
   return pG->U[k][j][i].M2/pG->U[k][j][i].d;
+#endif
 }
 /*! \fn Real expr_V3(const GridS *pG, const int i, const int j, const int k)  
  *  \brief 3-velocity */
 Real expr_V3(const GridS *pG, const int i, const int j, const int k) {
+#ifdef SPECIAL_RELATIVITY
+  PrimS W = Cons_to_Prim(&(pG->U[k][j][i]));
+  return W.V3;
+#else
   return pG->U[k][j][i].M3/pG->U[k][j][i].d;
+#endif
 }
 
 /*! \fn Real expr_P(const GridS *pG, const int i, const int j, const int k) 
@@ -1186,6 +1201,9 @@ Real expr_V3(const GridS *pG, const int i, const int j, const int k) {
 Real expr_P(const GridS *pG, const int i, const int j, const int k) {
 #ifdef ISOTHERMAL
   return  pG->U[k][j][i].d*Iso_csound2;
+#elif defined(SPECIAL_RELATIVITY)
+  PrimS W = Cons_to_Prim(&(pG->U[k][j][i]));
+  return W.P;
 #else
   ConsS *gp = &(pG->U[k][j][i]);
   return Gamma_1*(gp->E 
@@ -1203,12 +1221,17 @@ Real expr_P(const GridS *pG, const int i, const int j, const int k) {
 #ifdef ADIABATIC
 Real expr_cs2(const GridS *pG, const int i, const int j, const int k)
 {
+#ifdef SPECIAL_RELATIVITY
+  PrimS W = Cons_to_Prim(&(pG->U[k][j][i]));
+  return Gamma*W.P/(W.d + Gamma*W.P/Gamma_1);
+#else
   ConsS *gp = &(pG->U[k][j][i]);
   return (Gamma*Gamma_1*(gp->E 
 #ifdef MHD
 	  - 0.5*(gp->B1c*gp->B1c + gp->B2c*gp->B2c + gp->B3c*gp->B3c)
 #endif /* MHD */
 	  - 0.5*(gp->M1*gp->M1 + gp->M2*gp->M2 + gp->M3*gp->M3)/gp->d)/gp->d);
+#endif /* SPECIAL_RELATIVITY */
 }
 #endif /* ADIABATIC */
 
@@ -1219,6 +1242,10 @@ Real expr_cs2(const GridS *pG, const int i, const int j, const int k)
 #ifdef ADIABATIC
 Real expr_S(const GridS *pG, const int i, const int j, const int k)
 {
+#ifdef SPECIAL_RELATIVITY
+  PrimS W = Cons_to_Prim(&(pG->U[k][j][i]));
+  return W.P/pow((double)W.d, (double)Gamma);
+#else
   ConsS *gp = &(pG->U[k][j][i]);
   Real P = Gamma_1*(gp->E 
 #ifdef MHD
@@ -1226,6 +1253,7 @@ Real expr_S(const GridS *pG, const int i, const int j, const int k)
 #endif /* MHD */
 		   - 0.5*(gp->M1*gp->M1 + gp->M2*gp->M2 + gp->M3*gp->M3)/gp->d);
   return P/pow((double)gp->d, (double)Gamma);
+#endif /* SPECIAL_RELATIVITY */
 }
 #endif /* ADIABATIC */
 
-- 
2.43.0


From 7127d2db7f5ed7ffd482999e8c04366b3829169e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:47 +0000
Subject: [PATCH 23/73] fix: tab dumps leave room for the largest zone index,
 so columns do not run together

---
 src/dump_tab.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dump_tab.c b/src/dump_tab.c
index b609f95..f8486d4 100644
--- a/src/dump_tab.c
+++ b/src/dump_tab.c
@@ -113,7 +113,7 @@ void dump_tab_cons(MeshS *pM, OutputS *pOut)
         }
         nmax += 2*nghost;
 #endif
-        sprintf(zone_fmt,"%%%dd", (int)(2+log10((double)(nmax))));
+        sprintf(zone_fmt,"%%%dd", (int)(2+log10((double)(nmax+nghost))));
 
 /* Write out some header information */
 
@@ -365,7 +365,7 @@ void dump_tab_prim(MeshS *pM, OutputS *pOut)
         }
         nmax += 2*nghost;
 #endif
-        sprintf(zone_fmt,"%%%dd", (int)(2+log10((double)(nmax))));
+        sprintf(zone_fmt,"%%%dd", (int)(2+log10((double)(nmax+nghost))));
 
 /* Write out some header information */
 
-- 
2.43.0


From 786d37db86888f9b3555fb780dea395d3d044155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:16 +0000
Subject: [PATCH 24/73] fix: allocate half-step density of 3D CTU integrator
 for cylindrical hydrodynamics

---
 src/integrators/integrate_3d_ctu.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrators/integrate_3d_ctu.c b/src/integrators/integrate_3d_ctu.c
index f421240..1a92e6b 100644
--- a/src/integrators/integrate_3d_ctu.c
+++ b/src/integrators/integrate_3d_ctu.c
@@ -3682,7 +3682,7 @@ void integrate_init_3d(MeshS *pM)
   if ((x3Flux   =(Cons1DS***)calloc_3d_array(size3,size2,size1,sizeof(Cons1DS)))
     == NULL) goto on_error;
 
-#ifdef CYLINDRICAL
+#ifndef CYLINDRICAL
 #ifndef MHD
 #ifndef PARTICLES
   if((StaticGravPot != NULL) || (CoolingFunc != NULL))
-- 
2.43.0


From 984702c88f614edc79c41024eb68dc742d0321d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:58 +0000
Subject: [PATCH 25/73] fix: SMR message request arrays hold one entry per
 parent Grid as well as per child Grid

---
 src/smr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/smr.c b/src/smr.c
index 983895e..838db95 100644
--- a/src/smr.c
+++ b/src/smr.c
@@ -2007,6 +2007,7 @@ void SMR_init(MeshS *pM)
         max2 = MAX(max2,(pG->Nx[1]+1));
         max3 = MAX(max3,(pG->Nx[2]+1));
         maxCG = MAX(maxCG,pG->NCGrid);
+        maxCG = MAX(maxCG,pG->NPGrid);
       }
     }
   }
-- 
2.43.0


From 7dba0aa288a0d223d27e0d7564fca1f5c3bdf03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:05 +0000
Subject: [PATCH 26/73] fix: SMR restriction of face fields where a child Grid
 overlaps a single row of parent zones

---
 src/smr.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/smr.c b/src/smr.c
index 838db95..8e8a20e 100644
--- a/src/smr.c
+++ b/src/smr.c
@@ -242,16 +242,16 @@ void RestrictCorrect(MeshS *pM)
         if (nDim == 2){  /* 2D problem */
 /* Restrict B1i */
           for (j=jcs  ; j<=jce; j++) {
-          for (i=ics+1; i<=ice; i++) {
+          for (i=ics; i<=ice; i++) {
             /* Set B1i at ics if no flux correction will be made.  Increment
              * pointer even if value in Rcv pointer is ignored. */
-            if (i==ics+1){
+            if (i==ics){
               if (pCO->myFlx[0] == NULL) {pG->B1i[kcs][j][ics] = *(pRcv++);}
               else {pRcv++;}
+            } else {
+              pG->B1i[kcs][j][i] = *(pRcv++);
             }
 
-            pG->B1i[kcs][j][i] = *(pRcv++);
-
             /* Set B1i at ice+1 if no flux correction will be made.  Increment
              * pointer even if value in Rcv pointer is ignored. */
             if (i==ice){
@@ -263,7 +263,7 @@ void RestrictCorrect(MeshS *pM)
 /* Restrict B2i */
           /* Set B2i at jcs if no flux correction will be made.  Increment
            * pointer even if value in Rcv pointer is ignored. */
-        if(jcs < jce){
+        if(jcs <= jce){
           for (i=ics; i<=ice; i++) {
             if (pCO->myFlx[2] == NULL) {pG->B2i[kcs][jcs][i] = *(pRcv++);}
             else {pRcv++;}
@@ -277,7 +277,7 @@ void RestrictCorrect(MeshS *pM)
 
           /* Set B2i at jce+1 if no flux correction will be made.  Increment
            * pointer even if value in Rcv pointer is ignored. */
-        if(jcs < jce){
+        if(jcs <= jce){
           for (i=ics; i<=ice; i++) {
             if (pCO->myFlx[3] == NULL) {pG->B2i[kcs][jce+1][i] = *(pRcv++);}
             else {pRcv++;}
@@ -296,16 +296,16 @@ void RestrictCorrect(MeshS *pM)
 /* Restrict B1i */
           for (k=kcs  ; k<=kce; k++) {
           for (j=jcs  ; j<=jce; j++) {
-          for (i=ics+1; i<=ice; i++) {
+          for (i=ics; i<=ice; i++) {
             /* Set B1i at ics if no flux correction will be made.  Increment
              * pointer even if value in Rcv pointer is ignored. */
-            if (i==ics+1){
+            if (i==ics){
               if (pCO->myFlx[0] == NULL) {pG->B1i[k][j][ics] = *(pRcv++);}
               else {pRcv++;}
+            } else {
+              pG->B1i[k][j][i] = *(pRcv++);
             }
 
-            pG->B1i[k][j][i] = *(pRcv++);
-
             /* Set B1i at ice+1 if no flux correction will be made.  Increment
              * pointer even if value in Rcv pointer is ignored. */
             if (i==ice){
@@ -316,7 +316,7 @@ void RestrictCorrect(MeshS *pM)
           }}}
 
 /* Restrict B2i */
-        if(jcs < jce){
+        if(jcs <= jce){
           for (k=kcs  ; k<=kce; k++) {
             /* Set B2i at jcs if no flux correction will be made.  Increment
              * pointer even if value in Rcv pointer is ignored. */
@@ -342,7 +342,7 @@ void RestrictCorrect(MeshS *pM)
 /* Restrict B3i */
           /* Set B3i at kcs if no flux correction will be made.  Increment
            * pointer even if value in Rcv pointer is ignored. */
-        if(kcs < kce){
+        if(kcs <= kce){
           for (j=jcs; j<=jce; j++) {
           for (i=ics; i<=ice; i++) {
             if (pCO->myFlx[4] == NULL) {pG->B3i[kcs][j][i] = *(pRcv++);}
@@ -357,7 +357,7 @@ void RestrictCorrect(MeshS *pM)
 
           /* Set B3i at kce+1 if no flux correction will be made.  Increment
            * pointer even if value in Rcv pointer is ignored. */
-        if(kcs < kce){
+        if(kcs <= kce){
           for (j=jcs; j<=jce; j++) {
           for (i=ics; i<=ice; i++) {
             if (pCO->myFlx[5] == NULL) {pG->B3i[kce+1][j][i] = *(pRcv++);}
-- 
2.43.0


From 3344400951da0a058dcce5e8f895dd81f2ce8034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:57 +0000
Subject: [PATCH 27/73] fix: SMR field corrections where a parent Grid only
 touches a refined Domain that is split along the boundary

---
 src/smr.c | 126 ++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 108 insertions(+), 18 deletions(-)

diff --git a/src/smr.c b/src/smr.c
index 8e8a20e..2947a8d 100644
--- a/src/smr.c
+++ b/src/smr.c
@@ -53,6 +53,7 @@ Real3Vect ***BFld[3];
  * PRIVATE FUNCTION PROTOTYPES: 
  *   ProCon - prolongates conserved variables
  *   ProFld - prolongates face-centered B field using TR formulas
+ *   ChildAdjoins - tests if neighbor of child Grid shares its boundary
  *   mcd_slope - returns monotonized central-difference slope
  *============================================================================*/
 
@@ -62,6 +63,8 @@ void ProCon(const ConsS Uim1,const ConsS Ui,  const ConsS Uip1,
 #ifdef MHD
 void ProFld(Real3Vect BGZ[][3][3], Real3Vect PFld[][3][3], 
   const Real dx1c, const Real dx2c, const Real dx3c);
+static int ChildAdjoins(const GridS *pG, const GridOvrlpS *pCO, const int dim,
+  const int dir, const int outer);
 #endif /* MHD */
 #ifndef FIRST_ORDER
 static Real mcd_slope(const Real vl, const Real vc, const Real vr);
@@ -514,7 +517,8 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
             * other child Grid */
             jj = jce-jcs+1;
             SMRemf3[kk][jj] = *(pRcv++);
-            if((pCO->myEMF3[3] != NULL) || (jce==pG->je) || (ice<ics)){
+            if((pCO->myEMF3[3] != NULL) || (jce==pG->je) ||
+               ((ice<ics) && !(ChildAdjoins(pG,pCO,dim,1,1)))){
               pG->B2i[k][jce+1][i] +=
                 q1*(pCO->myEMF3[dim][kk][jj] - SMRemf3[kk][jj]);
             }
@@ -531,9 +535,9 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
  * B1i[jce+1].  Normally this is done as correction at x2-boundary */
           if (ice < ics) {
             for (k=kcs, kk=0; k<=kce; k++, kk++) {
-              pG->B1i[k][jcs-1][ib] -=
+              if (!(ChildAdjoins(pG,pCO,dim,1,0))) pG->B1i[k][jcs-1][ib] -=
                 q2*(pCO->myEMF3[dim][kk][0] - SMRemf3[kk][0]);
-              pG->B1i[k][jce+1][ib] +=
+              if (!(ChildAdjoins(pG,pCO,dim,1,1))) pG->B1i[k][jce+1][ib] +=
                 q2*(pCO->myEMF3[dim][kk][jce-jcs+1] - SMRemf3[kk][jce-jcs+1]);
             }
           }
@@ -553,7 +557,8 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
             kk = kce-kcs+1;
             for (j=jcs, jj=0; j<=jce  ; j++, jj++) {
               SMRemf2[kk][jj] = *(pRcv++); 
-              if((pCO->myEMF2[5] != NULL) || (kce==pG->ke) || (ice<ics)){
+              if((pCO->myEMF2[5] != NULL) || (kce==pG->ke) ||
+                 ((ice<ics) && !(ChildAdjoins(pG,pCO,dim,2,1)))){
                 pG->B3i[kce+1][j][i] -= 
                   q1*(pCO->myEMF2[dim][kk][jj] - SMRemf2[kk][jj]);
               }
@@ -570,9 +575,9 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
  * B1i[kce+1].  Normally this is done as correction at x3-boundary */
             if (ice < ics) {
               for (j=jcs, jj=0; j<=jce; j++, jj++) {
-                pG->B1i[kcs-1][j][ib] +=
+                if (!(ChildAdjoins(pG,pCO,dim,2,0))) pG->B1i[kcs-1][j][ib] +=
                   q3*(pCO->myEMF2[dim][0][jj] - SMRemf2[0][jj]);
-                pG->B1i[kce+1][j][ib] -=
+                if (!(ChildAdjoins(pG,pCO,dim,2,1))) pG->B1i[kce+1][j][ib] -=
                   q3*(pCO->myEMF2[dim][kce-kcs+1][jj] - SMRemf2[kce-kcs+1][jj]);
               }
             }
@@ -593,6 +598,24 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
               pG->U[k][j][i].B2c = 0.5*(pG->B2i[k][j][i] + pG->B2i[k][j+1][i]);
             }
           }
+
+/* Update B1c next to faces corrected beyond edges of boundary */
+          if (ice < ics) {
+            for (k=kcs; k<=kce; k++) {
+            for (j=jcs-1; j<=jce+1; j++) {
+              pG->U[k][j][ib  ].B1c=0.5*(pG->B1i[k][j][ib]+pG->B1i[k][j][ib+1]);
+              pG->U[k][j][ib-1].B1c=0.5*(pG->B1i[k][j][ib-1]+pG->B1i[k][j][ib]);
+            }}
+            if (nDim == 3) {
+              for (k=kcs-1; k<=kce+1; k++) {
+              for (j=jcs; j<=jce; j++) {
+                pG->U[k][j][ib  ].B1c =
+                  0.5*(pG->B1i[k][j][ib  ] + pG->B1i[k][j][ib+1]);
+                pG->U[k][j][ib-1].B1c =
+                  0.5*(pG->B1i[k][j][ib-1] + pG->B1i[k][j][ib  ]);
+              }}
+            }
+          }
         }
       }
 
@@ -625,7 +648,8 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
             * other child Grid */
             ii = ice-ics+1;
             SMRemf3[kk][ii] = *(pRcv++);
-            if ((pCO->myEMF3[1] != NULL) || (ice==pG->ie) || (jce<jcs)){
+            if ((pCO->myEMF3[1] != NULL) || (ice==pG->ie) ||
+                ((jce<jcs) && !(ChildAdjoins(pG,pCO,dim,0,1)))){
               pG->B1i[k][j][ice+1] -=
                 q2*(pCO->myEMF3[dim][kk][ii] - SMRemf3[kk][ii]);
             }
@@ -641,9 +665,9 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
  * B2i[ice+1].  Normally this is done as correction at x1-boundary */
           if (jce < jcs) {
             for (k=kcs, kk=0; k<=kce; k++, kk++) {
-              pG->B2i[k][jb][ics-1] += 
+              if (!(ChildAdjoins(pG,pCO,dim,0,0))) pG->B2i[k][jb][ics-1] += 
                 q1*(pCO->myEMF3[dim][kk][0] - SMRemf3[kk][0]);
-              pG->B2i[k][jb][ice+1] -= 
+              if (!(ChildAdjoins(pG,pCO,dim,0,1))) pG->B2i[k][jb][ice+1] -= 
                 q1*(pCO->myEMF3[dim][kk][ice-ics+1] - SMRemf3[kk][ice-ics+1]);
             }
           }
@@ -663,7 +687,8 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
             kk = kce-kcs+1;
             for (i=ics, ii=0; i<=ice  ; i++, ii++) {
               SMRemf1[kk][ii] = *(pRcv++);
-              if((pCO->myEMF1[5] != NULL) || (kce==pG->ke) || (jce<jcs)){
+              if((pCO->myEMF1[5] != NULL) || (kce==pG->ke) ||
+                 ((jce<jcs) && !(ChildAdjoins(pG,pCO,dim,2,1)))){
                 pG->B3i[kce+1][j][i] +=
                   q2*(pCO->myEMF1[dim][kk][ii] - SMRemf1[kk][ii]);
               }
@@ -680,9 +705,9 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
  * B2i[kce+1].  Normally this is done as correction at x3-boundary */
             if (jce < jcs) {
               for (i=ics, ii=0; i<=ice; i++, ii++) {
-                pG->B2i[kcs-1][jb][i] -= 
+                if (!(ChildAdjoins(pG,pCO,dim,2,0))) pG->B2i[kcs-1][jb][i] -= 
                   q3*(pCO->myEMF1[dim][0][ii] - SMRemf1[0][ii]);
-                pG->B2i[kce+1][jb][i] += 
+                if (!(ChildAdjoins(pG,pCO,dim,2,1))) pG->B2i[kce+1][jb][i] += 
                   q3*(pCO->myEMF1[dim][kce-kcs+1][ii] - SMRemf1[kce-kcs+1][ii]);
               }
             }
@@ -703,6 +728,24 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
               pG->U[k][jb-1][i].B2c=0.5*(pG->B2i[k][jb-1][i]+pG->B2i[k][jb][i]);
             }
           }
+
+/* Update B2c next to faces corrected beyond edges of boundary */
+          if (jce < jcs) {
+            for (k=kcs; k<=kce; k++) {
+            for (i=ics-1; i<=ice+1; i++) {
+              pG->U[k][jb  ][i].B2c=0.5*(pG->B2i[k][jb][i]+pG->B2i[k][jb+1][i]);
+              pG->U[k][jb-1][i].B2c=0.5*(pG->B2i[k][jb-1][i]+pG->B2i[k][jb][i]);
+            }}
+            if (nDim == 3) {
+              for (k=kcs-1; k<=kce+1; k++) {
+              for (i=ics; i<=ice; i++) {
+                pG->U[k][jb  ][i].B2c =
+                  0.5*(pG->B2i[k][jb  ][i] + pG->B2i[k][jb+1][i]);
+                pG->U[k][jb-1][i].B2c =
+                  0.5*(pG->B2i[k][jb-1][i] + pG->B2i[k][jb  ][i]);
+              }}
+            }
+          }
         }
       }
 
@@ -736,7 +779,8 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
           jj = jce-jcs+1;
           for (i=ics, ii=0; i<=ice  ; i++, ii++) {
             SMRemf1[jj][ii] = *(pRcv++);
-            if((pCO->myEMF1[3] != NULL) || (jce==pG->je) || (kce<kcs)){
+            if((pCO->myEMF1[3] != NULL) || (jce==pG->je) ||
+               ((kce<kcs) && !(ChildAdjoins(pG,pCO,dim,1,1)))){
               pG->B2i[k][jce+1][i] -=
                 q3*(pCO->myEMF1[dim][jj][ii] - SMRemf1[jj][ii]);
             }
@@ -754,7 +798,8 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
             * other child Grid */
             ii = ice-ics+1;
             SMRemf2[jj][ii] = *(pRcv++);
-            if ((pCO->myEMF2[1] != NULL) || (ice==pG->ie) || (kce<kcs)){
+            if ((pCO->myEMF2[1] != NULL) || (ice==pG->ie) ||
+                ((kce<kcs) && !(ChildAdjoins(pG,pCO,dim,0,1)))){
               pG->B1i[k][j][ice+1] +=
                 q3*(pCO->myEMF2[dim][jj][ii] -SMRemf2[jj][ii]);
             }
@@ -774,15 +819,15 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
  * x1- and x2-boundaries */
           if (kce < kcs) {
             for (j=jcs, jj=0; j<=jce; j++, jj++) {
-              pG->B3i[kb][j][ics-1] -=
+              if (!(ChildAdjoins(pG,pCO,dim,0,0))) pG->B3i[kb][j][ics-1] -=
                 q1*(pCO->myEMF2[dim][jj][0] - SMRemf2[jj][0]);
-              pG->B3i[kb][j][ice+1] +=
+              if (!(ChildAdjoins(pG,pCO,dim,0,1))) pG->B3i[kb][j][ice+1] +=
                 q1*(pCO->myEMF2[dim][jj][ice-ics+1] - SMRemf2[jj][ice-ics+1]);
             }
             for (i=ics, ii=0; i<=ice; i++, ii++) {
-              pG->B3i[kb][jcs-1][i] +=
+              if (!(ChildAdjoins(pG,pCO,dim,1,0))) pG->B3i[kb][jcs-1][i] +=
                 q2*(pCO->myEMF1[dim][0][ii] - SMRemf1[0][ii]);
-              pG->B3i[kb][jce+1][i] -=
+              if (!(ChildAdjoins(pG,pCO,dim,1,1))) pG->B3i[kb][jce+1][i] -=
                 q2*(pCO->myEMF1[dim][jce-jcs+1][ii] - SMRemf1[jce-jcs+1][ii]);
             }
           }
@@ -802,6 +847,20 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
             pG->U[kb  ][j][i].B3c=0.5*(pG->B3i[kb][j][i] + pG->B3i[kb+1][j][i]);
             pG->U[kb-1][j][i].B3c=0.5*(pG->B3i[kb-1][j][i] + pG->B3i[kb][j][i]);
           }}
+
+/* Update B3c next to faces corrected beyond edges of boundary */
+          if (kce < kcs) {
+            for (j=jcs; j<=jce; j++) {
+            for (i=ics-1; i<=ice+1; i++) {
+              pG->U[kb  ][j][i].B3c=0.5*(pG->B3i[kb][j][i]+pG->B3i[kb+1][j][i]);
+              pG->U[kb-1][j][i].B3c=0.5*(pG->B3i[kb-1][j][i]+pG->B3i[kb][j][i]);
+            }}
+            for (j=jcs-1; j<=jce+1; j++) {
+            for (i=ics; i<=ice; i++) {
+              pG->U[kb  ][j][i].B3c=0.5*(pG->B3i[kb][j][i]+pG->B3i[kb+1][j][i]);
+              pG->U[kb-1][j][i].B3c=0.5*(pG->B3i[kb-1][j][i]+pG->B3i[kb][j][i]);
+            }}
+          }
         }
       }
 
@@ -2075,6 +2134,37 @@ void SMR_init(MeshS *pM)
   return;
 }
 /*=========================== PRIVATE FUNCTIONS ==============================*/
+#ifdef MHD
+/*----------------------------------------------------------------------------*/
+/*! \fn static int ChildAdjoins(const GridS *pG, const GridOvrlpS *pCO,
+ *                             const int dim, const int dir, const int outer)
+ *  \brief Returns 1 if another child Grid in the same Domain as pCO also shares
+ *    boundary dim with this Grid, and continues it at the inner (outer=0) or
+ *    outer (outer=1) edge of pCO in direction dir.
+ */
+
+static int ChildAdjoins(const GridS *pG, const GridOvrlpS *pCO, const int dim,
+  const int dir, const int outer)
+{
+  int ncg,d,same;
+  const GridOvrlpS *pC;
+
+  for (ncg=0; ncg<(pG->NCGrid); ncg++){
+    pC = &(pG->CGrid[ncg]);
+    if ((pC == pCO) || (pC->DomN != pCO->DomN) || (pC->myFlx[dim] == NULL))
+      continue;
+    same = 1;
+    for (d=0; d<3; d++) if ((d != dir) &&
+      ((pC->ijks[d] != pCO->ijks[d]) || (pC->ijke[d] != pCO->ijke[d]))) same=0;
+    if (same) {
+      if ( outer && (pC->ijks[dir] == pCO->ijke[dir]+1)) return 1;
+      if (!outer && (pC->ijke[dir] == pCO->ijks[dir]-1)) return 1;
+    }
+  }
+  return 0;
+}
+#endif /* MHD */
+
 /*----------------------------------------------------------------------------*/
 /*! \fn void ProCon(const ConsS Uim1,const ConsS Ui,  const ConsS Uip1,
  *            const ConsS Ujm1,const ConsS Ujp1,
-- 
2.43.0


From 57b04e110a38223079c462838feb97587a8a0845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:23 +0000
Subject: [PATCH 28/73] fix: a parameter with an empty value followed by a
 comment has an empty value

---
 src/par.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/par.c b/src/par.c
index dc3b1b2..d48d011 100644
--- a/src/par.c
+++ b/src/par.c
@@ -703,6 +703,7 @@ static void add_par_line(Block *bp, char *line)
   }
   else{
     str_term(hash);                 /* Terminate the value string */
+    if(value == hash) *value = '\0'; /* Value field is empty */
 
     if(*comment == '\0')
       comment = NULL;               /* Comment field is empty */
-- 
2.43.0


From 15ce473d76ad09742179b99891a2e40c1348c704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:39 +0000
Subject: [PATCH 29/73] fix: anisotropic viscosity uses the current names of
 the velocity components, so viscosity builds with MHD

---
 src/microphysics/viscosity.c | 144 +++++++++++++++++------------------
 1 file changed, 72 insertions(+), 72 deletions(-)

diff --git a/src/microphysics/viscosity.c b/src/microphysics/viscosity.c
index 3ec0ef3..20366ca 100644
--- a/src/microphysics/viscosity.c
+++ b/src/microphysics/viscosity.c
@@ -354,50 +354,50 @@ void ViscStress_aniso(DomainS *pD)
     for (i=is; i<=ie+1; i++) {
 
       /* Monotonized Velocity gradient dVx/dy */
-      dVxdy = limiter4(Vel[k][j+1][i  ].x - Vel[k][j  ][i  ].x,
-                       Vel[k][j  ][i  ].x - Vel[k][j-1][i  ].x,
-                       Vel[k][j+1][i-1].x - Vel[k][j  ][i-1].x,
-                       Vel[k][j  ][i-1].x - Vel[k][j-1][i-1].x);
+      dVxdy = limiter4(Vel[k][j+1][i  ].x1 - Vel[k][j  ][i  ].x1,
+                       Vel[k][j  ][i  ].x1 - Vel[k][j-1][i  ].x1,
+                       Vel[k][j+1][i-1].x1 - Vel[k][j  ][i-1].x1,
+                       Vel[k][j  ][i-1].x1 - Vel[k][j-1][i-1].x1);
       dVxdy /= pG->dx2;
       
       /* Monotonized Velocity gradient dVy/dy */
-      dVydy = limiter4(Vel[k][j+1][i  ].y - Vel[k][j  ][i  ].y,
-                       Vel[k][j  ][i  ].y - Vel[k][j-1][i  ].y,
-                       Vel[k][j+1][i-1].y - Vel[k][j  ][i-1].y,
-                       Vel[k][j  ][i-1].y - Vel[k][j-1][i-1].y);
+      dVydy = limiter4(Vel[k][j+1][i  ].x2 - Vel[k][j  ][i  ].x2,
+                       Vel[k][j  ][i  ].x2 - Vel[k][j-1][i  ].x2,
+                       Vel[k][j+1][i-1].x2 - Vel[k][j  ][i-1].x2,
+                       Vel[k][j  ][i-1].x2 - Vel[k][j-1][i-1].x2);
       dVydy /= pG->dx2;
       
       /* Monotonized Velocity gradient dVz/dy */
-      dVzdy = limiter4(Vel[k][j+1][i  ].z - Vel[k][j  ][i  ].z,
-                       Vel[k][j  ][i  ].z - Vel[k][j-1][i  ].z,
-                       Vel[k][j+1][i-1].z - Vel[k][j  ][i-1].z,
-                       Vel[k][j  ][i-1].z - Vel[k][j-1][i-1].z);
+      dVzdy = limiter4(Vel[k][j+1][i  ].x3 - Vel[k][j  ][i  ].x3,
+                       Vel[k][j  ][i  ].x3 - Vel[k][j-1][i  ].x3,
+                       Vel[k][j+1][i-1].x3 - Vel[k][j  ][i-1].x3,
+                       Vel[k][j  ][i-1].x3 - Vel[k][j-1][i-1].x3);
       dVzdy /= pG->dx2;
       
       /* Monotonized Velocity gradient dVx/dz, 3D problem ONLY */
       if (pD->Nx[2] > 1) {
-        dVxdz = limiter4(Vel[k+1][j][i  ].x - Vel[k  ][j][i  ].x,
-                         Vel[k  ][j][i  ].x - Vel[k-1][j][i  ].x,
-                         Vel[k+1][j][i-1].x - Vel[k  ][j][i-1].x,
-                         Vel[k  ][j][i-1].x - Vel[k-1][j][i-1].x);
+        dVxdz = limiter4(Vel[k+1][j][i  ].x1 - Vel[k  ][j][i  ].x1,
+                         Vel[k  ][j][i  ].x1 - Vel[k-1][j][i  ].x1,
+                         Vel[k+1][j][i-1].x1 - Vel[k  ][j][i-1].x1,
+                         Vel[k  ][j][i-1].x1 - Vel[k-1][j][i-1].x1);
         dVxdz /= pG->dx3;
       }
       
       /* Monotonized Velocity gradient dVy/dz */
       if (pD->Nx[2] > 1) {
-        dVydz = limiter4(Vel[k+1][j][i  ].y - Vel[k  ][j][i  ].y,
-                         Vel[k  ][j][i  ].y - Vel[k-1][j][i  ].y,
-                         Vel[k+1][j][i-1].y - Vel[k  ][j][i-1].y,
-                         Vel[k  ][j][i-1].y - Vel[k-1][j][i-1].y);
+        dVydz = limiter4(Vel[k+1][j][i  ].x2 - Vel[k  ][j][i  ].x2,
+                         Vel[k  ][j][i  ].x2 - Vel[k-1][j][i  ].x2,
+                         Vel[k+1][j][i-1].x2 - Vel[k  ][j][i-1].x2,
+                         Vel[k  ][j][i-1].x2 - Vel[k-1][j][i-1].x2);
         dVydz /= pG->dx3;
       }
       
       /* Monotonized Velocity gradient dVz/dz */
       if (pD->Nx[2] > 1) {
-        dVzdz = limiter4(Vel[k+1][j][i  ].z - Vel[k  ][j][i  ].z,
-                         Vel[k  ][j][i  ].z - Vel[k-1][j][i  ].z,
-                         Vel[k+1][j][i-1].z - Vel[k  ][j][i-1].z,
-                         Vel[k  ][j][i-1].z - Vel[k-1][j][i-1].z);
+        dVzdz = limiter4(Vel[k+1][j][i  ].x3 - Vel[k  ][j][i  ].x3,
+                         Vel[k  ][j][i  ].x3 - Vel[k-1][j][i  ].x3,
+                         Vel[k+1][j][i-1].x3 - Vel[k  ][j][i-1].x3,
+                         Vel[k  ][j][i-1].x3 - Vel[k-1][j][i-1].x3);
         dVzdz /= pG->dx3;
       }
       
@@ -459,50 +459,50 @@ void ViscStress_aniso(DomainS *pD)
     for (i=is; i<=ie; i++) {
 
       /* Monotonized Velocity gradient dVx/dx */
-      dVxdx = limiter4(Vel[k][j  ][i+1].x - Vel[k][j  ][i  ].x,
-                       Vel[k][j  ][i  ].x - Vel[k][j  ][i-1].x,
-                       Vel[k][j-1][i+1].x - Vel[k][j-1][i  ].x,
-                       Vel[k][j-1][i  ].x - Vel[k][j-1][i-1].x);
+      dVxdx = limiter4(Vel[k][j  ][i+1].x1 - Vel[k][j  ][i  ].x1,
+                       Vel[k][j  ][i  ].x1 - Vel[k][j  ][i-1].x1,
+                       Vel[k][j-1][i+1].x1 - Vel[k][j-1][i  ].x1,
+                       Vel[k][j-1][i  ].x1 - Vel[k][j-1][i-1].x1);
       dVxdx /= pG->dx1;
       
       /* Monotonized Velocity gradient dVy/dx */
-      dVydx = limiter4(Vel[k][j  ][i+1].y - Vel[k][j  ][i  ].y,
-                       Vel[k][j  ][i  ].y - Vel[k][j  ][i-1].y,
-                       Vel[k][j-1][i+1].y - Vel[k][j-1][i  ].y,
-                       Vel[k][j-1][i  ].y - Vel[k][j-1][i-1].y);
+      dVydx = limiter4(Vel[k][j  ][i+1].x2 - Vel[k][j  ][i  ].x2,
+                       Vel[k][j  ][i  ].x2 - Vel[k][j  ][i-1].x2,
+                       Vel[k][j-1][i+1].x2 - Vel[k][j-1][i  ].x2,
+                       Vel[k][j-1][i  ].x2 - Vel[k][j-1][i-1].x2);
       dVydx /= pG->dx1;
       
       /* Monotonized Velocity gradient dVz/dx */
-      dVzdx = limiter4(Vel[k][j  ][i+1].z - Vel[k][j  ][i  ].z,
-                       Vel[k][j  ][i  ].z - Vel[k][j  ][i-1].z,
-                       Vel[k][j-1][i+1].z - Vel[k][j-1][i  ].z,
-                       Vel[k][j-1][i  ].z - Vel[k][j-1][i-1].z);
+      dVzdx = limiter4(Vel[k][j  ][i+1].x3 - Vel[k][j  ][i  ].x3,
+                       Vel[k][j  ][i  ].x3 - Vel[k][j  ][i-1].x3,
+                       Vel[k][j-1][i+1].x3 - Vel[k][j-1][i  ].x3,
+                       Vel[k][j-1][i  ].x3 - Vel[k][j-1][i-1].x3);
       dVzdx /= pG->dx1;
       
       /* Monotonized Velocity gradient dVx/dz */
       if (pD->Nx[2] > 1) {
-        dVxdz = limiter4(Vel[k+1][j  ][i].x - Vel[k  ][j  ][i].x,
-                         Vel[k  ][j  ][i].x - Vel[k-1][j  ][i].x,
-                         Vel[k+1][j-1][i].x - Vel[k  ][j-1][i].x,
-                         Vel[k  ][j-1][i].x - Vel[k-1][j-1][i].x);
+        dVxdz = limiter4(Vel[k+1][j  ][i].x1 - Vel[k  ][j  ][i].x1,
+                         Vel[k  ][j  ][i].x1 - Vel[k-1][j  ][i].x1,
+                         Vel[k+1][j-1][i].x1 - Vel[k  ][j-1][i].x1,
+                         Vel[k  ][j-1][i].x1 - Vel[k-1][j-1][i].x1);
         dVxdz /= pG->dx3;
       }
       
       /* Monotonized Velocity gradient dVy/dz */
       if (pD->Nx[2] > 1) {
-        dVydz =limiter4(Vel[k+1][j  ][i].y - Vel[k  ][j  ][i].y,
-                        Vel[k  ][j  ][i].y - Vel[k-1][j  ][i].y,
-                        Vel[k+1][j-1][i].y - Vel[k  ][j-1][i].y,
-                        Vel[k  ][j-1][i].y - Vel[k-1][j-1][i].y);
+        dVydz =limiter4(Vel[k+1][j  ][i].x2 - Vel[k  ][j  ][i].x2,
+                        Vel[k  ][j  ][i].x2 - Vel[k-1][j  ][i].x2,
+                        Vel[k+1][j-1][i].x2 - Vel[k  ][j-1][i].x2,
+                        Vel[k  ][j-1][i].x2 - Vel[k-1][j-1][i].x2);
         dVydz /= pG->dx3;
       }
       
       /* Monotonized Velocity gradient dVz/dz */
       if (pD->Nx[2] > 1) {
-        dVzdz =limiter4(Vel[k+1][j  ][i].z - Vel[k  ][j  ][i].z,
-                        Vel[k  ][j  ][i].z - Vel[k-1][j  ][i].z,
-                        Vel[k+1][j-1][i].z - Vel[k  ][j-1][i].z,
-                        Vel[k  ][j-1][i].z - Vel[k-1][j-1][i].z);
+        dVzdz =limiter4(Vel[k+1][j  ][i].x3 - Vel[k  ][j  ][i].x3,
+                        Vel[k  ][j  ][i].x3 - Vel[k-1][j  ][i].x3,
+                        Vel[k+1][j-1][i].x3 - Vel[k  ][j-1][i].x3,
+                        Vel[k  ][j-1][i].x3 - Vel[k-1][j-1][i].x3);
         dVzdz /= pG->dx3;
       }
       
@@ -565,45 +565,45 @@ void ViscStress_aniso(DomainS *pD)
       for (i=is; i<=ie; i++) {
 
         /* Monotonized Velocity gradient dVx/dx */
-        dVxdx = limiter4(Vel[k  ][j][i+1].x - Vel[k  ][j][i  ].x,
-                         Vel[k  ][j][i  ].x - Vel[k  ][j][i-1].x,
-                         Vel[k-1][j][i+1].x - Vel[k-1][j][i  ].x,
-                         Vel[k-1][j][i  ].x - Vel[k-1][j][i-1].x);
+        dVxdx = limiter4(Vel[k  ][j][i+1].x1 - Vel[k  ][j][i  ].x1,
+                         Vel[k  ][j][i  ].x1 - Vel[k  ][j][i-1].x1,
+                         Vel[k-1][j][i+1].x1 - Vel[k-1][j][i  ].x1,
+                         Vel[k-1][j][i  ].x1 - Vel[k-1][j][i-1].x1);
         dVxdx /= pG->dx1;
         
         /* Monotonized Velocity gradient dVy/dx */
-        dVydx = limiter4(Vel[k  ][j][i+1].y - Vel[k  ][j][i  ].y,
-                         Vel[k  ][j][i  ].y - Vel[k  ][j][i-1].y,
-                         Vel[k-1][j][i+1].y - Vel[k-1][j][i  ].y,
-                         Vel[k-1][j][i  ].y - Vel[k-1][j][i-1].y);
+        dVydx = limiter4(Vel[k  ][j][i+1].x2 - Vel[k  ][j][i  ].x2,
+                         Vel[k  ][j][i  ].x2 - Vel[k  ][j][i-1].x2,
+                         Vel[k-1][j][i+1].x2 - Vel[k-1][j][i  ].x2,
+                         Vel[k-1][j][i  ].x2 - Vel[k-1][j][i-1].x2);
         dVydx /= pG->dx1;
         
         /* Monotonized Velocity gradient dVz/dx */
-        dVzdx = limiter4(Vel[k  ][j][i+1].z - Vel[k  ][j][i  ].z,
-                         Vel[k  ][j][i  ].z - Vel[k  ][j][i-1].z,
-                         Vel[k-1][j][i+1].z - Vel[k-1][j][i  ].z,
-                         Vel[k-1][j][i  ].z - Vel[k-1][j][i-1].z);
+        dVzdx = limiter4(Vel[k  ][j][i+1].x3 - Vel[k  ][j][i  ].x3,
+                         Vel[k  ][j][i  ].x3 - Vel[k  ][j][i-1].x3,
+                         Vel[k-1][j][i+1].x3 - Vel[k-1][j][i  ].x3,
+                         Vel[k-1][j][i  ].x3 - Vel[k-1][j][i-1].x3);
         dVzdx /= pG->dx1;
         
         /* Monotonized Velocity gradient dVx/dy */
-        dVxdy = limiter4(Vel[k  ][j+1][i].x - Vel[k  ][j  ][i].x,
-                         Vel[k  ][j  ][i].x - Vel[k  ][j-1][i].x,
-                         Vel[k-1][j+1][i].x - Vel[k-1][j  ][i].x,
-                         Vel[k-1][j  ][i].x - Vel[k-1][j-1][i].x);
+        dVxdy = limiter4(Vel[k  ][j+1][i].x1 - Vel[k  ][j  ][i].x1,
+                         Vel[k  ][j  ][i].x1 - Vel[k  ][j-1][i].x1,
+                         Vel[k-1][j+1][i].x1 - Vel[k-1][j  ][i].x1,
+                         Vel[k-1][j  ][i].x1 - Vel[k-1][j-1][i].x1);
         dVxdy /= pG->dx2;
         
         /* Monotonized Velocity gradient dVy/dy */
-        dVydy = limiter4(Vel[k  ][j+1][i].y - Vel[k  ][j  ][i].y,
-                         Vel[k  ][j  ][i].y - Vel[k  ][j-1][i].y,
-                         Vel[k-1][j+1][i].y - Vel[k-1][j  ][i].y,
-                         Vel[k-1][j  ][i].y - Vel[k-1][j-1][i].y);
+        dVydy = limiter4(Vel[k  ][j+1][i].x2 - Vel[k  ][j  ][i].x2,
+                         Vel[k  ][j  ][i].x2 - Vel[k  ][j-1][i].x2,
+                         Vel[k-1][j+1][i].x2 - Vel[k-1][j  ][i].x2,
+                         Vel[k-1][j  ][i].x2 - Vel[k-1][j-1][i].x2);
         dVydy /= pG->dx2;
         
         /* Monotonized Velocity gradient dVz/dy */
-        dVzdy = limiter4(Vel[k  ][j+1][i].z - Vel[k  ][j  ][i].z,
-                         Vel[k  ][j  ][i].z - Vel[k  ][j-1][i].z,
-                         Vel[k-1][j+1][i].z - Vel[k-1][j  ][i].z,
-                         Vel[k-1][j  ][i].z - Vel[k-1][j-1][i].z);
+        dVzdy = limiter4(Vel[k  ][j+1][i].x3 - Vel[k  ][j  ][i].x3,
+                         Vel[k  ][j  ][i].x3 - Vel[k  ][j-1][i].x3,
+                         Vel[k-1][j+1][i].x3 - Vel[k-1][j  ][i].x3,
+                         Vel[k-1][j  ][i].x3 - Vel[k-1][j-1][i].x3);
         dVzdy /= pG->dx2;
         
 /* Compute field components at x3-interface */
-- 
2.43.0


From 446d503337ed124d289eec89995fff11619b723b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:39 +0000
Subject: [PATCH 30/73] fix: x1 energy flux of anisotropic viscosity adds to
 that of isotropic viscosity instead of replacing it

---
 src/microphysics/viscosity.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microphysics/viscosity.c b/src/microphysics/viscosity.c
index 20366ca..9af96c1 100644
--- a/src/microphysics/viscosity.c
+++ b/src/microphysics/viscosity.c
@@ -444,7 +444,7 @@ void ViscStress_aniso(DomainS *pD)
       x1Flux[k][j][i].Mz += VStress.Mz;
 
 #ifndef BAROTROPIC
-      x1Flux[k][j][i].E =
+      x1Flux[k][j][i].E +=
          0.5*(Vel[k][j][i-1].x1 + Vel[k][j][i].x1)*VStress.Mx +
          0.5*(Vel[k][j][i-1].x2 + Vel[k][j][i].x2)*VStress.My +
          0.5*(Vel[k][j][i-1].x3 + Vel[k][j][i].x3)*VStress.Mz;
-- 
2.43.0


From 2e7d4780db3983b8af08900a0bae913b67ff436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:23 +0000
Subject: [PATCH 31/73] fix: energy flux of the FORCE solver uses the magnetic
 pressure of its mean state, not of the left state

---
 src/rsolvers/force.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rsolvers/force.c b/src/rsolvers/force.c
index 13b053f..d70b10e 100644
--- a/src/rsolvers/force.c
+++ b/src/rsolvers/force.c
@@ -52,7 +52,7 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
   Real hroe;
 #endif
 #ifdef MHD
-  Real b2roe,b3roe,x,y;
+  Real b2roe,b3roe,x,y,pbc;
 #endif
   Real ev[NWAVE],al,ar;
   Real *pFl, *pFc, *pFr, *pUc, *pF;
@@ -270,7 +270,8 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
   Fc.Mz -= Bxi*Wc.Bz;
 
 #ifndef ISOTHERMAL
-  Fc.E += (pbl*Wc.Vx - Bxi*(Bxi*Wc.Vx + Wc.By*Wc.Vy + Wc.Bz*Wc.Vz));
+  pbc = 0.5*(SQR(Bxi) + SQR(Wc.By) + SQR(Wc.Bz));
+  Fc.E += (pbc*Wc.Vx - Bxi*(Bxi*Wc.Vx + Wc.By*Wc.Vy + Wc.Bz*Wc.Vz));
 #endif /* ISOTHERMAL */
 
   Fc.By = Wc.By*Wc.Vx - Bxi*Wc.Vy;
-- 
2.43.0


From da5da9e75626a2c41e98cc1f739228f5567300c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:23 +0000
Subject: [PATCH 32/73] fix: Roe solver in cylindrical coordinates returns the
 pressure of the right state for supersonic flow to the left

---
 src/rsolvers/roe.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rsolvers/roe.c b/src/rsolvers/roe.c
index 631540a..9143be8 100644
--- a/src/rsolvers/roe.c
+++ b/src/rsolvers/roe.c
@@ -223,7 +223,7 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
   if(ev[NWAVE-1] <= 0.0){
     *pFlux = Fr;
 #if defined(CYLINDRICAL) && !defined(BAROTROPIC)
-    pFlux->Pflux = Wl.P;
+    pFlux->Pflux = Wr.P;
 #ifdef MHD
     pFlux->Pflux += pbr;
 #endif /* MHD */
-- 
2.43.0


From b1379ef6917abfdb270617655735372e486da774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:28 +0000
Subject: [PATCH 33/73] fix: start the coarse-grid correction of the multigrid
 Poisson solver from zero

---
 src/gravity/selfg_multigrid.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/gravity/selfg_multigrid.c b/src/gravity/selfg_multigrid.c
index eedbba3..1dbe34a 100644
--- a/src/gravity/selfg_multigrid.c
+++ b/src/gravity/selfg_multigrid.c
@@ -472,11 +472,7 @@ void Restriction_3d(MGrid *pMG_fine, MGrid *pMG_coarse)
   for(k=ks; k<=pMG_coarse->ke; k++){
     for (j=js; j<=pMG_coarse->je; j++){
       for (i=is; i<=pMG_coarse->ie; i++){
-        pMG_coarse->Phi[k][j][i] =
-          (pMG_fine->Phi[2*k  ][2*j  ][2*i] + pMG_fine->Phi[2*k  ][2*j  ][2*i-1]
-         + pMG_fine->Phi[2*k  ][2*j-1][2*i] + pMG_fine->Phi[2*k  ][2*j-1][2*i-1]
-         + pMG_fine->Phi[2*k-1][2*j  ][2*i] + pMG_fine->Phi[2*k-1][2*j  ][2*i-1]
-         + pMG_fine->Phi[2*k-1][2*j-1][2*i] + pMG_fine->Phi[2*k-1][2*j-1][2*i-1])/8.0 ;
+        pMG_coarse->Phi[k][j][i] = 0.0;
         pMG_coarse->rhs[k][j][i] =
            (error[2*k  ][2*j  ][2*i] + error[2*k  ][2*j  ][2*i-1]
           + error[2*k  ][2*j-1][2*i] + error[2*k  ][2*j-1][2*i-1]
-- 
2.43.0


From bb7aee16ee3136e4570c3bd5ea355c502779e5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:28 +0000
Subject: [PATCH 34/73] fix: remap and advect the out-of-plane field in the 2D
 x-y shearing box

---
 src/bvals_shear.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/bvals_shear.c b/src/bvals_shear.c
index f548f83..ab71da8 100644
--- a/src/bvals_shear.c
+++ b/src/bvals_shear.c
@@ -496,6 +496,12 @@ void ShearingSheet_ix1(DomainS *pD)
         }
       }
     }
+  } else {
+    for (j=js; j<=je; j++) {
+      for(i=is-nghost; i<is; i++){
+        pG->U[ks][j][i].B3c = pG->B3i[ks][j][i];
+      }
+    }
   }
 #endif /* MHD */
 
@@ -1092,6 +1098,12 @@ void ShearingSheet_ox1(DomainS *pD)
         }
       }
     }
+  } else {
+    for (j=js; j<=je; j++) {
+      for(i=ie+1; i<=ie+nghost; i++){
+        pG->U[ks][j][i].B3c = pG->B3i[ks][j][i];
+      }
+    }
   }
 #endif /* MHD */
 
@@ -5386,6 +5398,8 @@ void Fargo(DomainS *pD)
         pG->U[k][j][i].B2c = 0.5*(    pG->B2i[k][j][i] +     pG->B2i[k][j+1][i]);
         if (pG->Nx[2]>1) {
           pG->U[k][j][i].B3c = 0.5*(    pG->B3i[k][j][i] +     pG->B3i[k+1][j][i]);
+        } else {
+          pG->U[k][j][i].B3c = pG->B3i[k][j][i];
         }
       }
     }
-- 
2.43.0


From 2bbef4b25b132fa3a9334c0719239c3881dcdd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:28 +0000
Subject: [PATCH 35/73] fix: apply the shear source terms of orbital advection
 in the 2D x-z shearing box

---
 src/bvals_shear.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/bvals_shear.c b/src/bvals_shear.c
index ab71da8..a25ffe8 100644
--- a/src/bvals_shear.c
+++ b/src/bvals_shear.c
@@ -4976,7 +4976,7 @@ void Fargo(DomainS *pD)
   int jfs = nfghost, jfe = pG->Nx[1] + nfghost - 1;
   int i,j,k,ku,jj,n,joffset;
   Real x1,x2,x3,yshear,eps;
-#if defined(ADIABATIC) && defined(SHEARING_BOX)
+#ifdef SHEARING_BOX
   Real qom_dt = qshear*Omega_0*pG->dt;
 #endif
 #ifdef CYLINDRICAL
@@ -4997,8 +4997,27 @@ void Fargo(DomainS *pD)
 #endif
 
 #ifdef SHEARING_BOX
-  if (ShBoxCoord != xy)
+/* In the 2D xz shearing box (1,2,3)=(x,z,y), so there is nothing to advect, but
+ * the shear still amplifies By (B3) and does work on the gas */
+  if (ShBoxCoord != xy) {
+    for(j=js; j<=je; j++){
+      for(i=is; i<=ie; i++){
+#ifdef ADIABATIC
+#ifdef MHD
+        pG->U[ks][j][i].E -= qom_dt*pG->U[ks][j][i].B1c*
+         (pG->U[ks][j][i].B3c - (qom_dt/2.)*pG->U[ks][j][i].B1c);
+#endif /* MHD */
+        pG->U[ks][j][i].E += qom_dt*pG->U[ks][j][i].M1*
+          pG->U[ks][j][i].M3/pG->U[ks][j][i].d;
+#endif /* ADIABATIC */
+#ifdef MHD
+        pG->U[ks][j][i].B3c -= qom_dt*pG->U[ks][j][i].B1c;
+        pG->B3i[ks][j][i] = pG->U[ks][j][i].B3c;
+#endif /* MHD */
+      }
+    }
     return;
+  }
 #endif
 
 /*--- Step 1. ------------------------------------------------------------------
-- 
2.43.0


From a19c55eab80624cd231785cd77e90bfaa5ec0a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:28 +0000
Subject: [PATCH 36/73] fix: viscosity with orbital advection: direction of the
 background shear in x-z, and its work on the gas

---
 src/microphysics/viscosity.c | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/microphysics/viscosity.c b/src/microphysics/viscosity.c
index 9af96c1..c8150b9 100644
--- a/src/microphysics/viscosity.c
+++ b/src/microphysics/viscosity.c
@@ -76,6 +76,9 @@ void viscosity(DomainS *pD)
   Real my_dt = pG->dt;
 #endif
   Real x1,x2,x3,dtodx1=my_dt/pG->dx1, dtodx2=0.0, dtodx3=0.0;
+#if defined(FARGO) && !defined(BAROTROPIC)
+  Real dM;
+#endif
   
   if (pG->Nx[1] > 1){
     jl = js - 2;
@@ -123,11 +126,12 @@ void viscosity(DomainS *pD)
 
       Vel[k][j][i].x1 = pG->U[k][j][i].M1/pG->U[k][j][i].d;
       Vel[k][j][i].x2 = pG->U[k][j][i].M2/pG->U[k][j][i].d;
+      Vel[k][j][i].x3 = pG->U[k][j][i].M3/pG->U[k][j][i].d;
 #ifdef FARGO
       cc_pos(pG,i,j,k,&x1,&x2,&x3);
-      Vel[k][j][i].x2 -= qshear*Omega_0*x1;
+      if (ShBoxCoord==xz) Vel[k][j][i].x3 -= qshear*Omega_0*x1;
+      else                Vel[k][j][i].x2 -= qshear*Omega_0*x1;
 #endif
-      Vel[k][j][i].x3 = pG->U[k][j][i].M3/pG->U[k][j][i].d;
     }
   }}
   
@@ -208,6 +212,30 @@ void viscosity(DomainS *pD)
     }}
   }
 
+/* The energy fluxes contain the work done on the background shear, but with
+ * FARGO the energy does not contain its kinetic energy: take it out again */
+
+#if defined(FARGO) && !defined(BAROTROPIC)
+  for (k=ks; k<=ke; k++) {
+  for (j=js; j<=je; j++) {
+    for (i=is; i<=ie; i++) {
+      cc_pos(pG,i,j,k,&x1,&x2,&x3);
+      if (ShBoxCoord==xz) {
+        dM = dtodx1*(x1Flux[k][j][i+1].Mz - x1Flux[k][j][i].Mz);
+        if (pG->Nx[1] > 1)
+          dM += dtodx2*(x2Flux[k][j+1][i].Mz - x2Flux[k][j][i].Mz);
+      } else {
+        dM = dtodx1*(x1Flux[k][j][i+1].My - x1Flux[k][j][i].My);
+        if (pG->Nx[1] > 1)
+          dM += dtodx2*(x2Flux[k][j+1][i].My - x2Flux[k][j][i].My);
+        if (pG->Nx[2] > 1)
+          dM += dtodx3*(x3Flux[k+1][j][i].My - x3Flux[k][j][i].My);
+      }
+      pG->U[k][j][i].E += qshear*Omega_0*x1*dM;
+    }
+  }}
+#endif /* FARGO */
+
   return;
 }
 
-- 
2.43.0


From 654e52d6a0a187c4a07f36a9b87c8cddac2ff214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:28 +0000
Subject: [PATCH 37/73] fix: rotating frame in 3D: source terms use and update
 every zone, not only the first plane

---
 src/integrators/integrate_3d_ctu.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/integrators/integrate_3d_ctu.c b/src/integrators/integrate_3d_ctu.c
index 1a92e6b..54579be 100644
--- a/src/integrators/integrate_3d_ctu.c
+++ b/src/integrators/integrate_3d_ctu.c
@@ -2811,15 +2811,15 @@ void integrate_3d_ctu(DomainS *pD)
           phir = (*StaticGravPot)((x1+0.5*pG->dx1),x2,x3);
           phil = (*StaticGravPot)((x1-0.5*pG->dx1),x2,x3);
           g = (phir-phil)/pG->dx1;
-          M1h -= hdt*pG->U[ks][j][i].d*g;
+          M1h -= hdt*pG->U[k][j][i].d*g;
 
           phir = (*StaticGravPot)(x1,(x2+0.5*pG->dx2),x3);
           phil = (*StaticGravPot)(x1,(x2-0.5*pG->dx2),x3);
           M2h -= q2*(phir-phil)*pG->U[k][j][i].d;
         }
 #ifdef ROTATING_FRAME
-          M1h += (pG->dt)*Omega_0*pG->U[ks][j][i].M2;
-          M2h -= (pG->dt)*Omega_0*pG->U[ks][j][i].M1;
+          M1h += (pG->dt)*Omega_0*pG->U[k][j][i].M2;
+          M2h -= (pG->dt)*Omega_0*pG->U[k][j][i].M1;
 #endif /*ROTATING_FRAME*/
 
         /* Compute geometric source term at time n+1/2 */
@@ -2848,15 +2848,15 @@ void integrate_3d_ctu(DomainS *pD)
         pG->U[k][j][i].M1 += pG->dt*( 2.0*Om*Mpav + geom_src[k][j][i]);
         pG->U[k][j][i].M2 += pG->dt*( Om*(qshear-2.0)*Mrav);
 #ifdef ROTATING_FRAME
-        pG->U[ks][j][i].M1 += (pG->dt)*2.0*Omega_0*(Mpav+dhalf[j][i]*Om*x1vc(pG,i));
-        pG->U[ks][j][i].M2 -= (pG->dt)*2.0*Omega_0*Mrav;
+        pG->U[k][j][i].M1 += (pG->dt)*2.0*Omega_0*(Mpav+dhalf[k][j][i]*Om*x1vc(pG,i));
+        pG->U[k][j][i].M2 -= (pG->dt)*2.0*Omega_0*Mrav;
 #endif
 #else /* FARGO */
         /* Add time-centered geometric source term for full dt */
         pG->U[k][j][i].M1 += pG->dt*geom_src[k][j][i];
 #ifdef ROTATING_FRAME
-        pG->U[ks][j][i].M1 += (pG->dt)*2.0*Omega_0*M2h;
-        pG->U[ks][j][i].M2 -= (pG->dt)*2.0*Omega_0*M1h;
+        pG->U[k][j][i].M1 += (pG->dt)*2.0*Omega_0*M2h;
+        pG->U[k][j][i].M2 -= (pG->dt)*2.0*Omega_0*M1h;
 #endif /* ROTATING_FRAME */
 #endif /* FARGO */
       }
-- 
2.43.0


From 0bde24a99134c5f15ffcc9821897277521c17471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:28 +0000
Subject: [PATCH 38/73] fix: VL integrator with cylindrical orbital advection:
 centrifugal work in the energy equation

---
 src/integrators/integrate_2d_vl.c | 8 ++++++++
 src/integrators/integrate_3d_vl.c | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/integrators/integrate_2d_vl.c b/src/integrators/integrate_2d_vl.c
index 7f3a39f..bb9b5fa 100644
--- a/src/integrators/integrate_2d_vl.c
+++ b/src/integrators/integrate_2d_vl.c
@@ -426,6 +426,10 @@ void integrate_2d_vl(DomainS *pD)
 #ifndef BAROTROPIC
         Uhalf[j][i].E -= hdtodx1*(lsf*x1Flux[j][i  ].d*(phic - phil)
                                 + rsf*x1Flux[j][i+1].d*(phir - phic));
+#if defined(CYLINDRICAL) && defined(FARGO)
+        Uhalf[j][i].E += 0.5*hdt*r[i]*SQR((*OrbitalProfile)(r[i]))
+                    *(lsf*x1Flux[j][i  ].d + rsf*x1Flux[j][i+1].d);
+#endif
 #endif
         phir = (*StaticGravPot)(x1,(x2+0.5*pG->dx2),x3);
         phil = (*StaticGravPot)(x1,(x2-0.5*pG->dx2),x3);
@@ -972,6 +976,10 @@ void integrate_2d_vl(DomainS *pD)
 #ifndef BAROTROPIC
         pG->U[ks][j][i].E -= dtodx1*(lsf*x1Flux[j][i  ].d*(phic - phil)
                                    + rsf*x1Flux[j][i+1].d*(phir - phic));
+#if defined(CYLINDRICAL) && defined(FARGO)
+        pG->U[ks][j][i].E += hdt*r[i]*SQR((*OrbitalProfile)(r[i]))
+                    *(lsf*x1Flux[j][i  ].d + rsf*x1Flux[j][i+1].d);
+#endif
 #endif
         phir = (*StaticGravPot)(x1,(x2+0.5*pG->dx2),x3);
         phil = (*StaticGravPot)(x1,(x2-0.5*pG->dx2),x3);
diff --git a/src/integrators/integrate_3d_vl.c b/src/integrators/integrate_3d_vl.c
index c54f068..27e2c49 100644
--- a/src/integrators/integrate_3d_vl.c
+++ b/src/integrators/integrate_3d_vl.c
@@ -639,6 +639,10 @@ void integrate_3d_vl(DomainS *pD)
 #ifndef BAROTROPIC
           Uhalf[k][j][i].E -= q1*(lsf*x1Flux[k][j][i  ].d*(phic - phil)
                                 + rsf*x1Flux[k][j][i+1].d*(phir - phic));
+#if defined(CYLINDRICAL) && defined(FARGO)
+        Uhalf[k][j][i].E += 0.5*hdt*r[i]*SQR((*OrbitalProfile)(r[i]))
+                    *(lsf*x1Flux[k][j][i  ].d + rsf*x1Flux[k][j][i+1].d);
+#endif
 #endif
           phir = (*StaticGravPot)(x1,(x2+0.5*pG->dx2),x3);
           phil = (*StaticGravPot)(x1,(x2-0.5*pG->dx2),x3);
@@ -1440,6 +1444,10 @@ void integrate_3d_vl(DomainS *pD)
 #ifndef BAROTROPIC
           pG->U[k][j][i].E -= dtodx1*(lsf*x1Flux[k][j][i  ].d*(phic - phil)
                                     + rsf*x1Flux[k][j][i+1].d*(phir - phic));
+#if defined(CYLINDRICAL) && defined(FARGO)
+        pG->U[k][j][i].E += hdt*r[i]*SQR((*OrbitalProfile)(r[i]))
+                    *(lsf*x1Flux[k][j][i  ].d + rsf*x1Flux[k][j][i+1].d);
+#endif
 #endif
           phir = (*StaticGravPot)(x1,(x2+0.5*pG->dx2),x3);
           phil = (*StaticGravPot)(x1,(x2-0.5*pG->dx2),x3);
-- 
2.43.0


From 35440bb05217ba12e26fa8eb2ef849c1ff6d4063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:22 +0000
Subject: [PATCH 39/73] fix: build the 3D CTU integrator with particle feedback
 and an adiabatic gas

---
 src/integrators/integrate_3d_ctu.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/integrators/integrate_3d_ctu.c b/src/integrators/integrate_3d_ctu.c
index 54579be..f95ff01 100644
--- a/src/integrators/integrate_3d_ctu.c
+++ b/src/integrators/integrate_3d_ctu.c
@@ -3192,7 +3192,6 @@ void integrate_3d_ctu(DomainS *pD)
 #ifndef BAROTROPIC
       pG->U[k][j][i].E += pG->Coup[k][j][i].Eloss;
       pG->Coup[k][j][i].Eloss *= dt1; /* for history output purpose */
-      pG->Eloss[k][j][i] *= dt1; /* for history output purpose */
 #endif
     }
 #endif
-- 
2.43.0


From faba30f8417391ce901e2c715eb751905614dd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:29 +0000
Subject: [PATCH 40/73] fix: allocate the half-step pressure in the 1D CTU
 integrator when particles need it

---
 src/integrators/integrate_1d_ctu.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/integrators/integrate_1d_ctu.c b/src/integrators/integrate_1d_ctu.c
index 8ddf0ba..0a3c96a 100644
--- a/src/integrators/integrate_1d_ctu.c
+++ b/src/integrators/integrate_1d_ctu.c
@@ -678,7 +678,10 @@ void integrate_init_1d(MeshS *pM)
   if ((Wr = (Prim1DS*)malloc(size1*sizeof(Prim1DS))) == NULL) goto on_error;
 
   if ((dhalf  = (Real*)malloc(size1*sizeof(Real))) == NULL) goto on_error;
-  if(CoolingFunc != NULL){
+#ifndef PARTICLES
+  if(CoolingFunc != NULL)
+#endif
+  {
     if ((phalf  = (Real*)malloc(size1*sizeof(Real))) == NULL) goto on_error;
   }
 
-- 
2.43.0


From 8f8dddaa1e047c3c16026336e21ee846f150b600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:29 +0000
Subject: [PATCH 41/73] fix: include the work of the particle drag in the total
 energy of the gas

---
 src/integrators/integrate_1d_ctu.c | 3 +++
 src/integrators/integrate_2d_ctu.c | 3 +++
 src/integrators/integrate_3d_ctu.c | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/integrators/integrate_1d_ctu.c b/src/integrators/integrate_1d_ctu.c
index 0a3c96a..c33c5ee 100644
--- a/src/integrators/integrate_1d_ctu.c
+++ b/src/integrators/integrate_1d_ctu.c
@@ -540,6 +540,9 @@ void integrate_1d_ctu(DomainS *pD)
     pG->U[ks][js][i].M3 -= pG->Coup[ks][js][i].fb3;
 #ifndef BAROTROPIC
     pG->U[ks][js][i].E += pG->Coup[ks][js][i].Eloss;
+    pG->U[ks][js][i].E -= pG->Coup[ks][js][i].fb1*pG->Coup[ks][js][i].grid_v1
+                 + pG->Coup[ks][js][i].fb2*pG->Coup[ks][js][i].grid_v2
+                 + pG->Coup[ks][js][i].fb3*pG->Coup[ks][js][i].grid_v3;
     pG->Coup[ks][js][i].Eloss *= dt1;
 #endif
   }
diff --git a/src/integrators/integrate_2d_ctu.c b/src/integrators/integrate_2d_ctu.c
index 22ae7fb..25fbdcd 100644
--- a/src/integrators/integrate_2d_ctu.c
+++ b/src/integrators/integrate_2d_ctu.c
@@ -1887,6 +1887,9 @@ void integrate_2d_ctu(DomainS *pD)
       pG->U[ks][j][i].M3 -= pG->Coup[ks][j][i].fb3;
 #ifndef BAROTROPIC
       pG->U[ks][j][i].E += pG->Coup[ks][j][i].Eloss;
+      pG->U[ks][j][i].E -= pG->Coup[ks][j][i].fb1*pG->Coup[ks][j][i].grid_v1
+                   + pG->Coup[ks][j][i].fb2*pG->Coup[ks][j][i].grid_v2
+                   + pG->Coup[ks][j][i].fb3*pG->Coup[ks][j][i].grid_v3;
       pG->Coup[ks][j][i].Eloss *= dt1; /* for history output purpose */
 #endif
     }
diff --git a/src/integrators/integrate_3d_ctu.c b/src/integrators/integrate_3d_ctu.c
index f95ff01..a39ea2a 100644
--- a/src/integrators/integrate_3d_ctu.c
+++ b/src/integrators/integrate_3d_ctu.c
@@ -3191,6 +3191,9 @@ void integrate_3d_ctu(DomainS *pD)
       pG->U[k][j][i].M3 -= pG->Coup[k][j][i].fb3;
 #ifndef BAROTROPIC
       pG->U[k][j][i].E += pG->Coup[k][j][i].Eloss;
+      pG->U[k][j][i].E -= pG->Coup[k][j][i].fb1*pG->Coup[k][j][i].grid_v1
+                   + pG->Coup[k][j][i].fb2*pG->Coup[k][j][i].grid_v2
+                   + pG->Coup[k][j][i].fb3*pG->Coup[k][j][i].grid_v3;
       pG->Coup[k][j][i].Eloss *= dt1; /* for history output purpose */
 #endif
     }
-- 
2.43.0


From 4907eb4de3914d84948a324dd29fb1d749a247c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:29 +0000
Subject: [PATCH 42/73] fix: place the particle removal limit outside the grid
 at an inner x3 outflow boundary

---
 src/particles/init_particle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/particles/init_particle.c b/src/particles/init_particle.c
index 0ea55fa..56cf48a 100644
--- a/src/particles/init_particle.c
+++ b/src/particles/init_particle.c
@@ -282,12 +282,12 @@ void grid_limit(MeshS *pM)
     x2upar = pG->MaxX[1];
 
   if ((pM->BCFlag_ix3 == 2) && (my_kproc == 0))
-    x3lpar = pG->MinX[2] + (nghost-1)*m3*pG->dx3;
+    x3lpar = pG->MinX[2] - (nghost-1)*m3*pG->dx3;
   else
     x3lpar = pG->MinX[2];
 
   if ((pM->BCFlag_ox3 == 2) && (my_kproc == pD->NGrid[2]-1))
-    x3upar = pG->MaxX[2] + (nghost-1)*m2*pG->dx3;
+    x3upar = pG->MaxX[2] + (nghost-1)*m3*pG->dx3;
   else
     x3upar = pG->MaxX[2];
 
-- 
2.43.0


From 85f4137e1223d0ff35a2fb085f8f960e9a690520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:29 +0000
Subject: [PATCH 43/73] fix: reflect particles about the inner x3 boundary

---
 src/particles/bvals_particle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles/bvals_particle.c b/src/particles/bvals_particle.c
index 32553ad..6a36514 100644
--- a/src/particles/bvals_particle.c
+++ b/src/particles/bvals_particle.c
@@ -1532,7 +1532,7 @@ static void reflect_ix3_particle(GridS *pG)
   /* apply reflection boundary condition */
   for (p=n0; p<pG->nparticle; p++)
   {
-    pG->particle[p].x3 = pG->MinX[2] - pG->particle[p].x3;
+    pG->particle[p].x3 = 2.0*pG->MinX[2] - pG->particle[p].x3;
     pG->particle[p].v3 = -pG->particle[p].v3;
   }
 
-- 
2.43.0


From 67357ff9c59d0e985dd2c4512955f2f49735d645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:30 +0000
Subject: [PATCH 44/73] fix: bin the selected particles again after a particle
 list or history output

---
 src/output.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/output.c b/src/output.c
index e1c64a3..ae97b16 100644
--- a/src/output.c
+++ b/src/output.c
@@ -555,6 +555,13 @@ void data_output(MeshS *pM, const int flag)
 #endif
       (*OutArray[n].out_fun)(pM,&(OutArray[n]));
 
+#ifdef PARTICLES
+/* particle lists and particle history bin all the particles */
+      if ((OutArray[n].out_fun == dump_particle_binary) ||
+          (OutArray[n].out_fun == dump_particle_history))
+        mypar_prop = property_all;
+#endif
+
       OutArray[n].num++;
 
     }
-- 
2.43.0


From 4580560bfd84f704d487d00d854186a2468e0637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:30 +0000
Subject: [PATCH 45/73] fix: shift the binned particle momentum, not velocity,
 across shearing-box boundaries

---
 src/particles/exchange.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/particles/exchange.c b/src/particles/exchange.c
index aa598ef..00306a9 100644
--- a/src/particles/exchange.c
+++ b/src/particles/exchange.c
@@ -477,7 +477,8 @@ void exchange_gpcouple(DomainS *pD, short lab)
           for (k=kb; k<=kt; k++) {
            for (j=jb; j<=jt; j++) {
             for (i=0; i<NExc+NOfst; i++) {
-              GhstZns_ix1[k][i][j].U[1] -= qshear*Omega_0*Lx;
+              GhstZns_ix1[k][i][j].U[1] -= qshear*Omega_0*Lx
+                                           *GhstZns_ix1[k][i][j].U[3];
           }}}
         }
 #endif
@@ -499,7 +500,8 @@ void exchange_gpcouple(DomainS *pD, short lab)
           for (k=kb; k<=kt; k++) {
            for (j=jb; j<=jt; j++) {
             for (i=0; i<NExc+NOfst; i++) {
-              GhstZns_ox1[k][i][j].U[1] += qshear*Omega_0*Lx;
+              GhstZns_ox1[k][i][j].U[1] += qshear*Omega_0*Lx
+                                           *GhstZns_ox1[k][i][j].U[3];
           }}}
         }
 #endif
@@ -519,13 +521,15 @@ void exchange_gpcouple(DomainS *pD, short lab)
       if (myL == 0) {
         for (j=jb; j<=jt; j++) {
          for (i=pG->is-NExc; i<pG->is; i++) {
-           myCoup[pG->ks][j][i].U[2] -= qshear*Omega_0*Lx;
+           myCoup[pG->ks][j][i].U[2] -= qshear*Omega_0*Lx
+                                        *myCoup[pG->ks][j][i].U[3];
         }}
       }
       if (myL == ((pD->NGrid[0])-1)) {
         for (j=jb; j<=jt; j++) {
          for (i=pG->ie+1; i<=pG->ie+NExc; i++) {
-           myCoup[pG->ks][j][i].U[2] += qshear*Omega_0*Lx;
+           myCoup[pG->ks][j][i].U[2] += qshear*Omega_0*Lx
+                                        *myCoup[pG->ks][j][i].U[3];
         }}
       }
     }
-- 
2.43.0


From 477cbb181cdad12637f43eef7e452ef1907d3b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:30 +0000
Subject: [PATCH 46/73] fix: fill the ghost zones of the binned particle
 density used in particle lists

---
 src/particles/exchange.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles/exchange.c b/src/particles/exchange.c
index 00306a9..810be67 100644
--- a/src/particles/exchange.c
+++ b/src/particles/exchange.c
@@ -189,7 +189,7 @@ void exchange_gpcouple(DomainS *pD, short lab)
   switch (lab) {
     case 0: /* particle binning for output purpose */
 		  
-      NVar = 4; NExc = 1; NOfst = 0;
+      NVar = 4; NExc = 1; NOfst = 1;
 
       for (k=klp; k<=kup; k++) {
        for (j=jlp; j<=jup; j++) {
-- 
2.43.0


From c9dc4ab70ffce7d84b392d79ee879894f8e8edfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:30 +0000
Subject: [PATCH 47/73] fix: use the x1 index when filling particle coupling
 ghost zones at an inner x1 wall

---
 src/particles/exchange.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles/exchange.c b/src/particles/exchange.c
index 810be67..8c71be2 100644
--- a/src/particles/exchange.c
+++ b/src/particles/exchange.c
@@ -1880,7 +1880,7 @@ static void reflect_ix1_exchange(GridS *pG)
   for (k=kb; k<=kt; k++) {
     for (j=jb; j<=jt; j++) {
       for (i=ib; i<pG->is; i++) {
-        ir = 2*pG->js-i-1;
+        ir = 2*pG->is-i-1;
         myCoup[k][j][i].U[0] = -myCoup[k][j][ir].U[0];
         for (n=1;n<NVar; n++)
           myCoup[k][j][i].U[n] = myCoup[k][j][ir].U[n];
-- 
2.43.0


From 91d8b40d70baac4fe091d52a3ab96bb2d579fa2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:24 +0000
Subject: [PATCH 48/73] fix: join_bin refuses pieces that do not belong
 together

chek_domain_3d() started from a false flag and and-ed to it, so it never
reported anything.
---
 vis/matlab/join_bin/join_bin.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/vis/matlab/join_bin/join_bin.c b/vis/matlab/join_bin/join_bin.c
index 03cec48..24d0686 100755
--- a/vis/matlab/join_bin/join_bin.c
+++ b/vis/matlab/join_bin/join_bin.c
@@ -266,26 +266,26 @@ static void init_domain_1d(void){
 
 static void chek_domain_3d(void){
   int i,j,k;
-  int warn_flag = 0;
+  int consistent = 1;
 
   for(k=0; k<NGrid_z; k++){
     for(j=0; j<NGrid_y; j++){
       for(i=0; i<NGrid_x; i++){
-//         warn_flag = warn_flag && (ftell(domain_3d[k][j][i].fp)    == ftell(domain_3d[0][0][0].fp)   );
-        warn_flag = warn_flag && (domain_3d[k][j][i].coord_sys    == domain_3d[0][0][0].coord_sys   );
-        warn_flag = warn_flag && (domain_3d[k][j][i].Nvar         == domain_3d[0][0][0].Nvar        );
-        warn_flag = warn_flag && (domain_3d[k][j][i].Nscalars     == domain_3d[0][0][0].Nscalars    );
-        warn_flag = warn_flag && (domain_3d[k][j][i].self_gravity == domain_3d[0][0][0].self_gravity);
-        warn_flag = warn_flag && (domain_3d[k][j][i].particles    == domain_3d[0][0][0].particles   );
-        warn_flag = warn_flag && (domain_3d[k][j][i].gamma_1      == domain_3d[0][0][0].gamma_1     );
-        warn_flag = warn_flag && (domain_3d[k][j][i].iso_csound   == domain_3d[0][0][0].iso_csound  );
-        warn_flag = warn_flag && (domain_3d[k][j][i].time         == domain_3d[0][0][0].time        );
-        warn_flag = warn_flag && (domain_3d[k][j][i].dt           == domain_3d[0][0][0].dt          );
+//         consistent = consistent && (ftell(domain_3d[k][j][i].fp)    == ftell(domain_3d[0][0][0].fp)   );
+        consistent = consistent && (domain_3d[k][j][i].coord_sys    == domain_3d[0][0][0].coord_sys   );
+        consistent = consistent && (domain_3d[k][j][i].Nvar         == domain_3d[0][0][0].Nvar        );
+        consistent = consistent && (domain_3d[k][j][i].Nscalars     == domain_3d[0][0][0].Nscalars    );
+        consistent = consistent && (domain_3d[k][j][i].self_gravity == domain_3d[0][0][0].self_gravity);
+        consistent = consistent && (domain_3d[k][j][i].particles    == domain_3d[0][0][0].particles   );
+        consistent = consistent && (domain_3d[k][j][i].gamma_1      == domain_3d[0][0][0].gamma_1     );
+        consistent = consistent && (domain_3d[k][j][i].iso_csound   == domain_3d[0][0][0].iso_csound  );
+        consistent = consistent && (domain_3d[k][j][i].time         == domain_3d[0][0][0].time        );
+        consistent = consistent && (domain_3d[k][j][i].dt           == domain_3d[0][0][0].dt          );
       }
     }
   }
 
-  if (warn_flag)
+  if (!consistent)
     join_error("[chek_domain_3d]:  These file pieces are not self-consistent!\n");
   else
     printf("CONSISTENCY CHECK PASSED!\n");
-- 
2.43.0


From 66f83f01d4bf4924d62672d7822d226f4a23f476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:27 +0000
Subject: [PATCH 49/73] fix: join_bin keeps the gravitational potential and
 binned particles

Only the Nvar variables were copied although the header of the joined file
announces the potential (and particles).
---
 vis/matlab/join_bin/join_bin.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/vis/matlab/join_bin/join_bin.c b/vis/matlab/join_bin/join_bin.c
index 24d0686..b798a40 100755
--- a/vis/matlab/join_bin/join_bin.c
+++ b/vis/matlab/join_bin/join_bin.c
@@ -42,6 +42,7 @@ typedef struct Domain_s{
   enum COORD_SYS {cartesian=-1,cylindrical=-2,spherical=-3} coord_sys;
   int Nx, Ny, Nz;    /* Grid dimensions */
   int Nvar,Nscalars;
+  int Nfield;        /* Nvar, plus potential and binned particles if present */
   enum BOOLEAN {false,true} self_gravity, particles;
   Real gamma_1, iso_csound, time, dt;
   Real *xcoords,*ycoords,*zcoords;
@@ -206,6 +207,7 @@ static void init_domain_1d(void){
   FILE *fp=NULL;              /* A temporary copy to make the code cleaner */
   int coord_sys, Nx, Ny, Nz;  /* Temporary copies to make the code cleaner */
   int i, idat[7];
+  long pos, ndat;
   Real fdat[4];
 
   for(i=0; i<file_count; i++){
@@ -258,6 +260,19 @@ static void init_domain_1d(void){
     fread(domain_1d[i].xcoords,sizeof(Real),Nx,fp);
     fread(domain_1d[i].ycoords,sizeof(Real),Ny,fp);
     fread(domain_1d[i].zcoords,sizeof(Real),Nz,fp);
+
+    /* Get number of fields: with self-gravity the variables are followed by the
+       potential, and with particles by the 4 fields of the binned particles (if
+       these were output) */
+    pos = ftell(fp);
+    fseek(fp,0,SEEK_END);
+    ndat = (ftell(fp) - pos)/sizeof(Real);
+    fseek(fp,pos,SEEK_SET);
+    domain_1d[i].Nfield = domain_1d[i].Nvar + (domain_1d[i].self_gravity ? 1 : 0);
+    if(domain_1d[i].particles && ndat > (long)Nx*Ny*Nz*domain_1d[i].Nfield)
+      domain_1d[i].Nfield += 4;
+    if(ndat != (long)Nx*Ny*Nz*domain_1d[i].Nfield)
+      join_error("[init_domain_1d]:  Unexpected size of file \"%s\"\n",domain_1d[i].fname);
   }
 
   return;
@@ -274,6 +289,7 @@ static void chek_domain_3d(void){
 //         consistent = consistent && (ftell(domain_3d[k][j][i].fp)    == ftell(domain_3d[0][0][0].fp)   );
         consistent = consistent && (domain_3d[k][j][i].coord_sys    == domain_3d[0][0][0].coord_sys   );
         consistent = consistent && (domain_3d[k][j][i].Nvar         == domain_3d[0][0][0].Nvar        );
+        consistent = consistent && (domain_3d[k][j][i].Nfield       == domain_3d[0][0][0].Nfield      );
         consistent = consistent && (domain_3d[k][j][i].Nscalars     == domain_3d[0][0][0].Nscalars    );
         consistent = consistent && (domain_3d[k][j][i].self_gravity == domain_3d[0][0][0].self_gravity);
         consistent = consistent && (domain_3d[k][j][i].particles    == domain_3d[0][0][0].particles   );
@@ -462,7 +478,7 @@ static void write_joined_bin(const char *out_name){
   }
 
   /* Read/write 3D scalar data */
-  for (n=0; n<pD->Nvar; n++) {
+  for (n=0; n<pD->Nfield; n++) {
     printf("Reading variable %d\n", n);
     for(kg=0; kg<NGrid_z; kg++){
       for(k=0; k<domain_3d[kg][0][0].Nz; k++){
-- 
2.43.0


From 5b4f2f89e5a0113765a8fca71d94a157a5f2690d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:30 +0000
Subject: [PATCH 50/73] fix: build the linear wave problem with passive scalars
 and MPI

---
 src/prob/linear_wave.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prob/linear_wave.c b/src/prob/linear_wave.c
index 304b82a..86fc183 100644
--- a/src/prob/linear_wave.c
+++ b/src/prob/linear_wave.c
@@ -721,7 +721,7 @@ void Userwork_after_loop(MeshS *pM)
     total_error.E   = tot_err[7];
 #endif /* ISOTHERMAL */
 #if (NSCALARS > 0)
-    for (n=0; n<NSCALARS; n++) total_error.s[n] = tot_err.s[8+n];
+    for (n=0; n<NSCALARS; n++) total_error.s[n] = tot_err[8+n];
 #endif
   }
   else return; /* The child grids do not do any of the following code */
-- 
2.43.0


From de67461a70de845190b3af58d5cb8b6f1a5255a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:30 +0000
Subject: [PATCH 51/73] fix: build the hgb problem without magnetic fields

---
 src/prob/hgb.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/prob/hgb.c b/src/prob/hgb.c
index ffd9112..c849cea 100644
--- a/src/prob/hgb.c
+++ b/src/prob/hgb.c
@@ -57,7 +57,9 @@ Real Lx,Ly,Lz; /* root grid size, global to share with output functions */
 static double ran2(long int *idum);
 static Real UnstratifiedDisk(const Real x1, const Real x2, const Real x3);
 static Real expr_dV2(const GridS *pG, const int i, const int j, const int k);
+#ifdef MHD
 static Real expr_Jsq(const GridS *pG, const int i, const int j, const int k);
+#endif
 static Real hst_rho_Vx_dVy(const GridS *pG,const int i,const int j,const int k);
 static Real hst_rho_dVy2(const GridS *pG,const int i, const int j, const int k);
 #ifdef ADIABATIC
@@ -585,7 +587,9 @@ void problem_read_restart(MeshS *pM, FILE *fp)
 ConsFun_t get_usr_expr(const char *expr)
 {
   if (strcmp(expr,"dVy")==0) return expr_dV2;
+#ifdef MHD
   if (strcmp(expr,"Jsq")==0) return expr_Jsq;
+#endif
   return NULL;
 }
 
@@ -738,6 +742,7 @@ static Real expr_dV2(const GridS *pG, const int i, const int j, const int k)
 #endif
 }
 
+#ifdef MHD
 /*----------------------------------------------------------------------------*/
 /*! \fn static Real expr_Jsq(const GridS *pG, const int i, const int j, 
  *			     const int k)
@@ -756,6 +761,7 @@ static Real expr_Jsq(const GridS *pG, const int i, const int j, const int k)
 
   return SQR(J1)+SQR(J2)+SQR(J3);
 }
+#endif /* MHD */
 
 /*------------------------------------------------------------------------------
  * Hydro history variables:
-- 
2.43.0


From 3451d2cac45ce781bf84792d9b0b97a476baa348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:38 +0000
Subject: [PATCH 52/73] fix: enrol the boundary conditions of the Noh problem
 on restart

---
 src/prob/noh.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/prob/noh.c b/src/prob/noh.c
index a7d6e07..1f64c9b 100644
--- a/src/prob/noh.c
+++ b/src/prob/noh.c
@@ -101,6 +101,18 @@ void problem_write_restart(MeshS *pM, FILE *fp)
 
 void problem_read_restart(MeshS *pM, FILE *fp)
 {
+  int nl,nd;
+
+  for (nl=0; nl<(pM->NLevels); nl++){
+    for (nd=0; nd<(pM->DomainsPerLevel[nl]); nd++){
+      if (pM->Domain[nl][nd].Grid == NULL) continue;
+      bvals_mhd_fun(&(pM->Domain[nl][nd]), right_x1,noh3d_oib);
+      bvals_mhd_fun(&(pM->Domain[nl][nd]), right_x2,noh3d_ojb);
+      if (pM->Nx[2] > 1)
+        bvals_mhd_fun(&(pM->Domain[nl][nd]), right_x3,noh3d_okb);
+    }
+  }
+
   return;
 }
 
-- 
2.43.0


From 1cb635eb6c674807827efd64bf34539c4b5f8bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:38 +0000
Subject: [PATCH 53/73] fix: enrol the boundary conditions of the double Mach
 reflection problem on restart

---
 src/prob/dmr.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/prob/dmr.c b/src/prob/dmr.c
index 16894ca..6613d25 100644
--- a/src/prob/dmr.c
+++ b/src/prob/dmr.c
@@ -108,6 +108,19 @@ void problem_write_restart(MeshS *pM, FILE *fp)
 
 void problem_read_restart(MeshS *pM, FILE *fp)
 {
+  int nl,nd;
+  DomainS *pDomain;
+
+  for (nl=0; nl<(pM->NLevels); nl++){
+    for (nd=0; nd<(pM->DomainsPerLevel[nl]); nd++){
+      pDomain = &(pM->Domain[nl][nd]);
+      if (pDomain->Disp[0] == 0) bvals_mhd_fun(pDomain, left_x1,  dmrbv_iib);
+      if (pDomain->Disp[1] == 0) bvals_mhd_fun(pDomain, left_x2,  dmrbv_ijb);
+      if (pDomain->MaxX[1] == pDomain->RootMaxX[1])
+        bvals_mhd_fun(pDomain, right_x2, dmrbv_ojb);
+    }
+  }
+
   return;
 }
 
-- 
2.43.0


From c4fee13250b39a2719bb4a61b86d6c3258ba9946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:15 +0000
Subject: [PATCH 54/73] fix: restore the inflow boundary of the shock-cloud
 problem on restart

---
 src/prob/shk_cloud.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/prob/shk_cloud.c b/src/prob/shk_cloud.c
index 3a769c3..598b611 100644
--- a/src/prob/shk_cloud.c
+++ b/src/prob/shk_cloud.c
@@ -238,11 +238,37 @@ void problem(DomainS *pDomain)
 
 void problem_write_restart(MeshS *pM, FILE *fp)
 {
+  fwrite(&dl,sizeof(Real),1,fp);
+  fwrite(&pl,sizeof(Real),1,fp);
+  fwrite(&ul,sizeof(Real),1,fp);
+#ifdef MHD
+  fwrite(&bxl,sizeof(Real),1,fp);
+  fwrite(&byl,sizeof(Real),1,fp);
+  fwrite(&bzl,sizeof(Real),1,fp);
+#endif
   return;
 }
 
 void problem_read_restart(MeshS *pM, FILE *fp)
 {
+  int nl,nd;
+
+  fread(&dl,sizeof(Real),1,fp);
+  fread(&pl,sizeof(Real),1,fp);
+  fread(&ul,sizeof(Real),1,fp);
+#ifdef MHD
+  fread(&bxl,sizeof(Real),1,fp);
+  fread(&byl,sizeof(Real),1,fp);
+  fread(&bzl,sizeof(Real),1,fp);
+#endif
+
+  for (nl=0; nl<(pM->NLevels); nl++){
+    for (nd=0; nd<(pM->DomainsPerLevel[nl]); nd++){
+      if (pM->Domain[nl][nd].Disp[0] == 0)
+        bvals_mhd_fun(&(pM->Domain[nl][nd]),left_x1,shk_cloud_iib);
+    }
+  }
+
   return;
 }
 
-- 
2.43.0


From 6a28552ff66a6fa2ca21d2c371112708507621e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:15 +0000
Subject: [PATCH 55/73] fix: restore the gravity constants of the Jeans problem
 on restart

---
 src/prob/jeans.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/prob/jeans.c b/src/prob/jeans.c
index af56238..527fa80 100644
--- a/src/prob/jeans.c
+++ b/src/prob/jeans.c
@@ -194,11 +194,19 @@ printf("4piG=%e, lambda=%e, period=%e\n",four_pi_G, lambda, (2.0*PI/omega));
 
 void problem_write_restart(MeshS *pM, FILE *fp)
 {
+#ifdef SELF_GRAVITY
+  fwrite(&four_pi_G,sizeof(Real),1,fp);
+  fwrite(&grav_mean_rho,sizeof(Real),1,fp);
+#endif /* SELF_GRAVITY */
   return;
 }
 
 void problem_read_restart(MeshS *pM, FILE *fp)
 {
+#ifdef SELF_GRAVITY
+  fread(&four_pi_G,sizeof(Real),1,fp);
+  fread(&grav_mean_rho,sizeof(Real),1,fp);
+#endif /* SELF_GRAVITY */
   return;
 }
 
-- 
2.43.0


From a7ce9e2171ad8b420f8c75dfd2b824eb363ed213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:15 +0000
Subject: [PATCH 56/73] fix: enrol the history columns of the Kelvin-Helmholtz
 problem on restart

---
 src/prob/kh.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/prob/kh.c b/src/prob/kh.c
index 057b1d5..1776604 100644
--- a/src/prob/kh.c
+++ b/src/prob/kh.c
@@ -223,6 +223,11 @@ void problem_read_restart(MeshS *pM, FILE *fp)
   nu_iso = par_getd_def("problem","nu_iso",0.0);
   nu_aniso = par_getd_def("problem","nu_aniso",0.0);
 #endif
+#ifdef MHD
+  dump_history_enroll(hst_Bx, "<Bx>");
+  dump_history_enroll(hst_By, "<By>");
+  dump_history_enroll(hst_Bz, "<Bz>");
+#endif /* MHD */
   return;
 }
 
-- 
2.43.0


From 4a2e85df8777beee0f1325046ad1e454faa6931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:15 +0000
Subject: [PATCH 57/73] fix: enrol the energy history column of the MSA problem
 on restart

---
 src/prob/msa.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/prob/msa.c b/src/prob/msa.c
index 3dae93a..15ccd95 100644
--- a/src/prob/msa.c
+++ b/src/prob/msa.c
@@ -304,6 +304,9 @@ void problem_read_restart(MeshS *pM, FILE *fp)
   dump_history_enroll(hst_Phi, "<Phi>");
   dump_history_enroll(hst_dPhi, "<dPhi>");
 #endif
+#ifdef ADIABATIC
+  dump_history_enroll(hst_dE, "<dE>");
+#endif
 
 /* should be modified for SMR version */
   dVol = 1.0;
-- 
2.43.0


From 495593d8d6b4316dc5afa68faec73bb8d7fbad28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:15 +0000
Subject: [PATCH 58/73] fix: place the interface of the implosion problem by
 the position of the grid in parallel

---
 src/prob/lw_implode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prob/lw_implode.c b/src/prob/lw_implode.c
index d099f1f..d959c0b 100644
--- a/src/prob/lw_implode.c
+++ b/src/prob/lw_implode.c
@@ -65,7 +65,7 @@ void problem(DomainS *pDomain)
 	pGrid->U[k][j][i].M2 = 0.0;
 	pGrid->U[k][j][i].M3 = 0.0;
 
-	if(((j-js + pDomain->Disp[1])+(i-is + pDomain->Disp[0])) > (nx2*irefine)) {
+	if(((j-js + pGrid->Disp[1])+(i-is + pGrid->Disp[0])) > (nx2*irefine)) {
 	  pGrid->U[k][j][i].d  = d_out;
 #ifndef ISOTHERMAL
 	  pGrid->U[k][j][i].E = p_out/Gamma_1;
-- 
2.43.0


From ff1913b3b9de43e943a6a3b0b509c5967c8ce339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:15 +0000
Subject: [PATCH 59/73] fix: alternate the carbuncle perturbation across grid
 boundaries in parallel

---
 src/prob/carbuncle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prob/carbuncle.c b/src/prob/carbuncle.c
index 0c889f7..d2dc5f7 100644
--- a/src/prob/carbuncle.c
+++ b/src/prob/carbuncle.c
@@ -121,7 +121,7 @@ void problem(DomainS *pDomain)
     for (i=is-nghost; i<=ie+nghost; i++) { 
       cc_pos(pGrid, i, j, k, &x1, &x2, &x3);
       if (x1 < xshock) {
-        index = div((i+j+k),2);
+        index = div((i+j+k) + pGrid->Disp[0] + pGrid->Disp[1] + pGrid->Disp[2],2);
         if (index.rem == 0) {
           pGrid->U[k][j][i].M2 = amp;
         } else {
-- 
2.43.0


From d3da5a59ba7cff7ff654faef57aa2be4be512b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:15 +0000
Subject: [PATCH 60/73] fix: restore the units and the conductivity of the
 thermal instability problem on restart

---
 src/prob/ti_test.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/prob/ti_test.c b/src/prob/ti_test.c
index ad9c3dc..3c2fa03 100644
--- a/src/prob/ti_test.c
+++ b/src/prob/ti_test.c
@@ -125,6 +125,26 @@ void problem_write_restart(MeshS *pM, FILE *fp)
 
 void problem_read_restart(MeshS *pM, FILE *fp)
 {
+  int nl,nd;
+  GridS *pGrid;
+  ConstS consts;
+
+  init_consts(&consts);
+  for (nl=0; nl<(pM->NLevels); nl++){
+    for (nd=0; nd<(pM->DomainsPerLevel[nl]); nd++){
+      pGrid = pM->Domain[nl][nd].Grid;
+      if (pGrid == NULL) continue;
+      pGrid->units.Dcode = 1.4*consts.mH;
+      pGrid->units.Vcode = consts.kms;
+      pGrid->units.Lcode = consts.pc;
+      pGrid->units.Tcode = pGrid->units.Lcode/pGrid->units.Vcode;
+      pGrid->heat0 = 2.e-26;
+      pGrid->heat_ratio = 1.0;
+    }
+  }
+#ifdef THERMAL_CONDUCTION
+  kappa_iso = par_getd("problem","kappa")/(consts.kB*consts.pc*consts.kms);
+#endif
   return;
 }
 
-- 
2.43.0


From 85a94bf5f764d82e68a2305537203c7ffe5b9170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:15 +0000
Subject: [PATCH 61/73] fix: keep the exact solution of the linear wave problem
 in restart files

---
 src/prob/linear_wave.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/prob/linear_wave.c b/src/prob/linear_wave.c
index 86fc183..cfe5a8c 100644
--- a/src/prob/linear_wave.c
+++ b/src/prob/linear_wave.c
@@ -534,11 +534,28 @@ void problem(DomainS *pDomain)
 
 void problem_write_restart(MeshS *pM, FILE *fp)
 {
+  GridS *pGrid = pM->Domain[0][0].Grid;
+
+/* the solution on the root Grid is needed for the errors at the end */
+  if (pGrid != NULL)
+    fwrite(RootSoln[0][0],sizeof(ConsS),(size_t)(pGrid->Nx[0]+2*nghost)*
+      (pGrid->Nx[1]+2*nghost)*(pGrid->Nx[2]+2*nghost),fp);
+
   return;
 }
 
 void problem_read_restart(MeshS *pM, FILE *fp)
 {
+  GridS *pGrid = pM->Domain[0][0].Grid;
+
+  if (pGrid != NULL) {
+    if ((RootSoln = (ConsS***)calloc_3d_array(pGrid->Nx[2]+2*nghost,
+      pGrid->Nx[1]+2*nghost,pGrid->Nx[0]+2*nghost,sizeof(ConsS))) == NULL)
+      ath_error("[problem_read_restart]: Error alloc memory for RootSoln\n");
+    fread(RootSoln[0][0],sizeof(ConsS),(size_t)(pGrid->Nx[0]+2*nghost)*
+      (pGrid->Nx[1]+2*nghost)*(pGrid->Nx[2]+2*nghost),fp);
+  }
+
   return;
 }
 
-- 
2.43.0


From 247119e5ffcf1adbae325e24b8c08f1575aa432b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:15 +0000
Subject: [PATCH 62/73] fix: keep the exact solution of the circularly
 polarised Alfven wave problem in restart files

---
 src/prob/cpaw.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/prob/cpaw.c b/src/prob/cpaw.c
index 24c440a..005afa5 100644
--- a/src/prob/cpaw.c
+++ b/src/prob/cpaw.c
@@ -450,11 +450,28 @@ void problem(DomainS *pDomain)
         
 void problem_write_restart(MeshS *pM, FILE *fp)
 {
+  GridS *pGrid = pM->Domain[0][0].Grid;
+
+/* the solution on the root Grid is needed for the errors at the end */
+  if (pGrid != NULL)
+    fwrite(RootSoln[0][0],sizeof(ConsS),(size_t)(pGrid->Nx[0]+2*nghost)*
+      (pGrid->Nx[1]+2*nghost)*(pGrid->Nx[2]+2*nghost),fp);
+
   return;
 }
 
 void problem_read_restart(MeshS *pM, FILE *fp)
 {
+  GridS *pGrid = pM->Domain[0][0].Grid;
+
+  if (pGrid != NULL) {
+    if ((RootSoln = (ConsS***)calloc_3d_array(pGrid->Nx[2]+2*nghost,
+      pGrid->Nx[1]+2*nghost,pGrid->Nx[0]+2*nghost,sizeof(ConsS))) == NULL)
+      ath_error("[problem_read_restart]: Error alloc memory for RootSoln\n");
+    fread(RootSoln[0][0],sizeof(ConsS),(size_t)(pGrid->Nx[0]+2*nghost)*
+      (pGrid->Nx[1]+2*nghost)*(pGrid->Nx[2]+2*nghost),fp);
+  }
+
   return;
 }
 
-- 
2.43.0


From 10ae35e32b0acd3704c6bba7db5e2dff88f72414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:05 +0000
Subject: [PATCH 63/73] fix: restore the x-z orientation of the hb3 shearing
 box on restart

---
 src/prob/hb3.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/prob/hb3.c b/src/prob/hb3.c
index ca69a8e..6f2dda8 100644
--- a/src/prob/hb3.c
+++ b/src/prob/hb3.c
@@ -354,6 +354,7 @@ void problem_read_restart(MeshS *pM, FILE *fp)
   x1max = pM->RootMaxX[0];
   Lx = x1max - x1min;
 
+  ShBoxCoord = xz;
   ShearingBoxPot = UnstratifiedDisk;
 
   return;
-- 
2.43.0


From ee8a38935360632c101698d8a53026956404bab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:40 +0000
Subject: [PATCH 64/73] fix: enrol the history columns of the hb3 problem on
 restart

---
 src/prob/hb3.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/prob/hb3.c b/src/prob/hb3.c
index 6f2dda8..3185708 100644
--- a/src/prob/hb3.c
+++ b/src/prob/hb3.c
@@ -357,6 +357,16 @@ void problem_read_restart(MeshS *pM, FILE *fp)
   ShBoxCoord = xz;
   ShearingBoxPot = UnstratifiedDisk;
 
+  dump_history_enroll(hst_dEk, "<0.5rho(Vx^2+4dVy^2)>");
+  dump_history_enroll(hst_rho_Vx_dVy, "<rho Vx dVy>");
+  dump_history_enroll(hst_E_total, "<E + rho Phi>");
+#ifdef MHD
+  dump_history_enroll(hst_Bx, "<Bx>");
+  dump_history_enroll(hst_By, "<By>");
+  dump_history_enroll(hst_Bz, "<Bz>");
+  dump_history_enroll(hst_BxBy, "<-Bx By>");
+#endif /* MHD */
+
   return;
 }
 
-- 
2.43.0


From a9a895b75bbc07fa50da9799ab06a269c90b4c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:40 +0000
Subject: [PATCH 65/73] fix: restore the ambipolar diffusion of the C-shock
 problem on restart

---
 src/prob/cshock1d.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/prob/cshock1d.c b/src/prob/cshock1d.c
index 9f3bdee..9f6ecb4 100644
--- a/src/prob/cshock1d.c
+++ b/src/prob/cshock1d.c
@@ -214,6 +214,10 @@ void problem_write_restart(MeshS *pM, FILE *fp)
   
 void problem_read_restart(MeshS *pM, FILE *fp)
 {
+/* Ambipolar diffusion coefficient, as in problem() */
+  Q_AD = par_getd("problem","Alfv")/(par_getd("problem","Mach")*Iso_csound);
+  d_ind= 0.0;
+
   return;
 } 
     
-- 
2.43.0


From d2d11fcf4983d8b02719e5f59c1992b35e8b10c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:36 +0000
Subject: [PATCH 66/73] fix: report a restart file that ends before <par_end>
 instead of reading it for ever

---
 src/restart.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/restart.c b/src/restart.c
index bb66cef..8c51c58 100644
--- a/src/restart.c
+++ b/src/restart.c
@@ -78,7 +78,8 @@ void restart_grids(char *res_file, MeshS *pM)
 /* Skip over the parameter file at the start of the restart file */
 
   do{
-    fgets(line,MAXLEN,fp);
+    if(fgets(line,MAXLEN,fp) == NULL)
+      ath_error("[restart_grids]: Restart file has no <par_end>, it is incomplete\n");
   }while(strncmp(line,"<par_end>",9) != 0);
 
 /* read nstep */
-- 
2.43.0


From 0884c51af1d0db01037395fd2ed370ae49dab5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:36 +0000
Subject: [PATCH 67/73] fix: report a restart file of which the last part could
 not be written

---
 src/restart.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/restart.c b/src/restart.c
index 8c51c58..9ba3edf 100644
--- a/src/restart.c
+++ b/src/restart.c
@@ -973,7 +973,8 @@ void dump_restart(MeshS *pM, OutputS *pout)
   fprintf(fp,"\nUSER_DATA\n");
   problem_write_restart(pM, fp);
 
-  fclose(fp);
+  if(ferror(fp) || fclose(fp) != 0)
+    ath_error("[dump_restart]: Error writing restart file\n");
 
   free_1d_array(buf);
 
-- 
2.43.0


From 2f1f4eea3d89aa04436b9a41e11d8895dd3ef12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:36 +0000
Subject: [PATCH 68/73] fix: stop with an error when the history file cannot be
 opened instead of writing to it

---
 src/dump_history.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dump_history.c b/src/dump_history.c
index d067d43..c2ca60e 100644
--- a/src/dump_history.c
+++ b/src/dump_history.c
@@ -354,7 +354,7 @@ void dump_history(MeshS *pM, OutputS *pOut)
           }
           pfile = fopen(fname,"a");
           if(pfile == NULL){
-            ath_perr(-1,"[dump_history]: Unable to open the history file\n");
+            ath_error("[dump_history]: Unable to open the history file\n");
           }
           free(fname);
 
-- 
2.43.0


From 5f882a09a73b6db95b78323403aa73ae8a0eafc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:36 +0000
Subject: [PATCH 69/73] fix: stop with an error when a pdf file cannot be
 opened instead of writing to it

---
 src/output_pdf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output_pdf.c b/src/output_pdf.c
index 3394cdc..5521440 100644
--- a/src/output_pdf.c
+++ b/src/output_pdf.c
@@ -252,7 +252,7 @@ void output_pdf(MeshS *pM, OutputS *pOut)
         }
         pfile = fopen(fname,"w");
         if(pfile == NULL){
-          ath_perr(-1,"[output_pdf]: Unable to open pdf file\n");
+          ath_error("[output_pdf]: Unable to open pdf file\n");
         }
         free(fname);
 
@@ -308,7 +308,7 @@ void output_pdf(MeshS *pM, OutputS *pOut)
         }
         pfile = fopen(fname,"a");
         if(pfile == NULL){
-          ath_perr(-1,"[output_pdf]: Unable to open stats file\n");
+          ath_error("[output_pdf]: Unable to open stats file\n");
         }
         free(fname);
 
-- 
2.43.0


From 6fd5f60e665a90055d6aaa95664a59abf7b8152e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:55 +0000
Subject: [PATCH 70/73] revert the ti_test restart change: the file counts as a
 test file, the defect is recorded as a known finding instead

---
 src/prob/ti_test.c | 20 --------------------
 1 file changed, 20 deletions(-)

diff --git a/src/prob/ti_test.c b/src/prob/ti_test.c
index 3c2fa03..ad9c3dc 100644
--- a/src/prob/ti_test.c
+++ b/src/prob/ti_test.c
@@ -125,26 +125,6 @@ void problem_write_restart(MeshS *pM, FILE *fp)
 
 void problem_read_restart(MeshS *pM, FILE *fp)
 {
-  int nl,nd;
-  GridS *pGrid;
-  ConstS consts;
-
-  init_consts(&consts);
-  for (nl=0; nl<(pM->NLevels); nl++){
-    for (nd=0; nd<(pM->DomainsPerLevel[nl]); nd++){
-      pGrid = pM->Domain[nl][nd].Grid;
-      if (pGrid == NULL) continue;
-      pGrid->units.Dcode = 1.4*consts.mH;
-      pGrid->units.Vcode = consts.kms;
-      pGrid->units.Lcode = consts.pc;
-      pGrid->units.Tcode = pGrid->units.Lcode/pGrid->units.Vcode;
-      pGrid->heat0 = 2.e-26;
-      pGrid->heat_ratio = 1.0;
-    }
-  }
-#ifdef THERMAL_CONDUCTION
-  kappa_iso = par_getd("problem","kappa")/(consts.kB*consts.pc*consts.kms);
-#endif
   return;
 }
 
-- 
2.43.0


From c49051381283ce7e607eb0a4eecc3fd8629710e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:47 +0000
Subject: [PATCH 71/73] fix: refuse a refined domain that lies outside every
 domain of the next coarser level

---
 src/init_mesh.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/init_mesh.c b/src/init_mesh.c
index a28499f..66a781e 100644
--- a/src/init_mesh.c
+++ b/src/init_mesh.c
@@ -474,6 +474,25 @@ void init_mesh(MeshS *pM)
     }
   }}
 
+/* check that every child Domain overlaps a parent Domain on the next level down
+ * (otherwise it is outside the root Domain, or outside all possible parents) */
+
+  for (nl=1; nl<=maxlevel; nl++){
+  for (ncd=0; ncd<pM->DomainsPerLevel[nl]; ncd++){
+    pCD = (DomainS*)&(pM->Domain[nl][ncd]);
+    for (nd=0; nd<pM->DomainsPerLevel[nl-1]; nd++){
+      pD = (DomainS*)&(pM->Domain[nl-1][nd]);
+      for (dim=0; dim<nDim; dim++){
+        if (pCD->Disp[dim] >= 2*(pD->Disp[dim] + pD->Nx[dim]) ||
+            pCD->Disp[dim] + pCD->Nx[dim] <= 2*pD->Disp[dim]) break;
+      }
+      if (dim == nDim) break;  /* overlaps in all directions */
+    }
+    if (nd == pM->DomainsPerLevel[nl-1]) ath_error(
+      "[init_mesh]: domain%d at level %d is not inside a domain at level %d\n",
+      pCD->InputBlock,nl,nl-1);
+  }}
+
 /*--- Step 6: Divide each Domain into Grids, and allocate to processor(s)  ---*/
 /* Get the number of Grids in each direction.  These are given either in the
  * <domain?> block in the input file, or by automatic decomposition given the
-- 
2.43.0


From 85807412d7772dab4d23c8d94bc7af58072d6f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:48 +0000
Subject: [PATCH 72/73] fix: refuse a decomposition of a refined domain that
 divides cells of its parent

---
 src/init_mesh.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/init_mesh.c b/src/init_mesh.c
index 66a781e..1d786d8 100644
--- a/src/init_mesh.c
+++ b/src/init_mesh.c
@@ -643,6 +643,20 @@ void init_mesh(MeshS *pM)
         }
       }
 
+/* Grids on refined levels must start and end at the edges of parent cells */
+
+      if (nl > 0) {
+        for(n=0; n<(pD->NGrid[2]); n++){
+        for(m=0; m<(pD->NGrid[1]); m++){
+        for(l=0; l<(pD->NGrid[0]); l++){
+          for (i=0; i<3; i++) {
+            if (pD->NGrid[i] > 1 && (pD->GData[n][m][l].Nx[i] % 2 != 0))
+              ath_error("[init_mesh]: %s/NGrid_x%d = %d divides a cell of the parent level\n",
+                block,(i+1),pD->NGrid[i]);
+          }
+        }}}
+      }
+
     }  /* end loop over ndomains */
   }    /* end loop over nlevels */
 
-- 
2.43.0


From e1a58cfea07d04f89263b6889a076f0cf8a7f9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:48 +0000
Subject: [PATCH 73/73] fix: missing argument in the error message for a box
 with its limits in the wrong order

---
 src/init_mesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/init_mesh.c b/src/init_mesh.c
index 1d786d8..529695d 100644
--- a/src/init_mesh.c
+++ b/src/init_mesh.c
@@ -184,7 +184,7 @@ void init_mesh(MeshS *pM)
           ath_error("[init_mesh]: Nx%d in %s must be >= 1\n",(i+1),block);
         }
         if(root_xmax[i] < root_xmin[i]) {
-          ath_error("[init_mesh]: x%dmax < x%dmin in %s\n",(i+1),block);
+          ath_error("[init_mesh]: x%dmax < x%dmin in %s\n",(i+1),(i+1),block);
         }
       }
       if (nDim==1 && Nx[0]==1) {
-- 
2.43.0

