From dcfb864c5be94151b7244279f98d261d1648a9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 01/31] fix: TimestepSchemeARS222 copied the state twice
 instead of state and tracers before the implicit solve

---
 src/atm/TimestepSchemeARS222.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atm/TimestepSchemeARS222.cpp b/src/atm/TimestepSchemeARS222.cpp
index 3b2ae8b..39e4310 100644
--- a/src/atm/TimestepSchemeARS222.cpp
+++ b/src/atm/TimestepSchemeARS222.cpp
@@ -85,7 +85,7 @@ void TimestepSchemeARS222::Step(
 
 	// Compute u1 into index 2
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
-- 
2.43.0


From ec3dda4fc5db9837b8d98aae2cae9a23c09c6973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 02/31] fix: TimestepSchemeARS443 copied the state twice
 instead of state and tracers before the implicit solve

---
 src/atm/TimestepSchemeARS443.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/atm/TimestepSchemeARS443.cpp b/src/atm/TimestepSchemeARS443.cpp
index d6ba3f0..38cf802 100644
--- a/src/atm/TimestepSchemeARS443.cpp
+++ b/src/atm/TimestepSchemeARS443.cpp
@@ -117,7 +117,7 @@ void TimestepSchemeARS443::Step(
 
 	// Compute u1 into index 2
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
@@ -138,7 +138,7 @@ void TimestepSchemeARS443::Step(
 
 	// Compute u2 from uf2 (index 3) into index 4
 	pGrid->CopyData(3, 4, DataType_State);
-	pGrid->CopyData(3, 4, DataType_State);
+	pGrid->CopyData(3, 4, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		4, 4, time, m_dImpCf[1][1] * dDeltaT);
 	pGrid->PostProcessSubstage(4, DataType_State);
@@ -159,7 +159,7 @@ void TimestepSchemeARS443::Step(
 
 	// Compute u3 from uf3 (index 3) into index 6
 	pGrid->CopyData(5, 6, DataType_State);
-	pGrid->CopyData(5, 6, DataType_State);
+	pGrid->CopyData(5, 6, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		6, 6, time, m_dImpCf[2][2] * dDeltaT);
 	pGrid->PostProcessSubstage(6, DataType_State);
-- 
2.43.0


From 30f000f549913d7b3931c3b120b042d59c13dfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 03/31] fix: TimestepSchemeARK232 copied the state twice
 instead of state and tracers before the implicit solve

---
 src/atm/TimestepSchemeARK232.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atm/TimestepSchemeARK232.cpp b/src/atm/TimestepSchemeARK232.cpp
index 758f505..ce50c33 100644
--- a/src/atm/TimestepSchemeARK232.cpp
+++ b/src/atm/TimestepSchemeARK232.cpp
@@ -116,7 +116,7 @@ void TimestepSchemeARK232::Step(
 */
 	// Compute u1 into index 3
 	pGrid->CopyData(2, 3, DataType_State);
-	pGrid->CopyData(2, 3, DataType_State);
+	pGrid->CopyData(2, 3, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		3, 3, time, m_dImpCf[0][1] * dDeltaT);
 	pGrid->PostProcessSubstage(3, DataType_State);
@@ -137,7 +137,7 @@ void TimestepSchemeARK232::Step(
 
 	// Compute u2 from uf2 (index 3) into index 4
 	pGrid->CopyData(4, 5, DataType_State);
-	pGrid->CopyData(4, 5, DataType_State);
+	pGrid->CopyData(4, 5, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		5, 5, time, m_dImpCf[1][2] * dDeltaT);
 	pGrid->PostProcessSubstage(5, DataType_State);
-- 
2.43.0


From 9cc68dde6dd06c3b80f1425ae96751ef197b4d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 04/31] fix: TimestepSchemeGARK2 copied the state twice instead
 of state and tracers before the implicit solve

---
 src/atm/TimestepSchemeGARK2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atm/TimestepSchemeGARK2.cpp b/src/atm/TimestepSchemeGARK2.cpp
index fc9bad2..9422135 100644
--- a/src/atm/TimestepSchemeGARK2.cpp
+++ b/src/atm/TimestepSchemeGARK2.cpp
@@ -103,7 +103,7 @@ void TimestepSchemeGARK2::Step(
 
 	// Compute u1 into index 2
 	pGrid->CopyData(1, 2, DataType_State);
-	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
-- 
2.43.0


From d506e2689684f570a65450f5809ab706a21fce00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:02 +0000
Subject: [PATCH 05/31] fix: TimestepSchemeSSP3332 copied the state twice
 instead of state and tracers before the implicit solve

---
 src/atm/TimestepSchemeSSP3332.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/atm/TimestepSchemeSSP3332.cpp b/src/atm/TimestepSchemeSSP3332.cpp
index 3dd7faa..cd28930 100644
--- a/src/atm/TimestepSchemeSSP3332.cpp
+++ b/src/atm/TimestepSchemeSSP3332.cpp
@@ -108,7 +108,7 @@ void TimestepSchemeSSP3332::Step(
 	// STAGE 1
 	// Compute u1 into index 2
 	pGrid->CopyData(0, 2, DataType_State);
-	pGrid->CopyData(0, 2, DataType_State);
+	pGrid->CopyData(0, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		2, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
@@ -130,7 +130,7 @@ void TimestepSchemeSSP3332::Step(
 
 	// Compute u2 from uf2 (index 3) into index 4
 	pGrid->CopyData(3, 4, DataType_State);
-	pGrid->CopyData(3, 4, DataType_State);
+	pGrid->CopyData(3, 4, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		4, 4, time, m_dImpCf[1][1] * dDeltaT);
 	pGrid->PostProcessSubstage(4, DataType_State);
@@ -151,7 +151,7 @@ void TimestepSchemeSSP3332::Step(
 
 	// Compute u3 from uf3 (index 3) into index 6
 	pGrid->CopyData(5, 6, DataType_State);
-	pGrid->CopyData(5, 6, DataType_State);
+	pGrid->CopyData(5, 6, DataType_Tracers);
 	pVerticalDynamics->StepImplicit(
 		6, 6, time, m_dImpCf[2][2] * dDeltaT);
 	pGrid->PostProcessSubstage(6, DataType_State);
-- 
2.43.0


From f31131456f9294ccdde63f2e5904c34188bbb6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:22 +0000
Subject: [PATCH 06/31] fix: TimestepSchemeARK232 overwrote the initial state
 while sub-cycling its first stage and evaluated the first implicit stage from
 the updated state, so the scheme was inconsistent

---
 src/atm/TimestepSchemeARK232.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/atm/TimestepSchemeARK232.cpp b/src/atm/TimestepSchemeARK232.cpp
index ce50c33..5287495 100644
--- a/src/atm/TimestepSchemeARK232.cpp
+++ b/src/atm/TimestepSchemeARK232.cpp
@@ -91,7 +91,7 @@ void TimestepSchemeARK232::Step(
 
 	// STAGE 1
 	// Compute uf1 into index 1
-	SubcycleStageExplicit(time, m_dExpCf[0][0], dDeltaT, 2, 0, 1, 
+	SubcycleStageExplicit(time, m_dExpCf[0][0], dDeltaT, 1, 0, 1, 
 		pHorizontalDynamics, pVerticalDynamics, pGrid);
 /*
 	pGrid->CopyData(0, 1, DataType_State);
@@ -104,16 +104,13 @@ void TimestepSchemeARK232::Step(
 	pGrid->PostProcessSubstage(1, DataType_Tracers);
 */
 	// Compute ug1 into index 2 (NO IMPLICIT SOLVE NEEDED HERE)
-	SubcycleStageImplicitExplicitly(time, m_dImpCf[0][0], dDeltaT, 1, 1, 2, 
-		pHorizontalDynamics, pVerticalDynamics, pGrid);
-/*
-	pGrid->CopyData(1, 2, DataType_State);
+	// The implicit terms of the first stage are those of the initial state
 	pGrid->CopyData(1, 2, DataType_State);
+	pGrid->CopyData(1, 2, DataType_Tracers);
 	pVerticalDynamics->StepImplicitTermsExplicitly(
-		1, 2, time, m_dImpCf[0][0] * dDeltaT);
+		0, 2, time, m_dImpCf[0][0] * dDeltaT);
 	pGrid->PostProcessSubstage(2, DataType_State);
 	pGrid->PostProcessSubstage(2, DataType_Tracers);
-*/
 	// Compute u1 into index 3
 	pGrid->CopyData(2, 3, DataType_State);
 	pGrid->CopyData(2, 3, DataType_Tracers);
-- 
2.43.0


From 17ac6bbcb03eb22d4f60c4770c49a4d693a2e258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:11 +0000
Subject: [PATCH 07/31] fix: south-pole vector components follow the longitude
 used there (pi): both change sign

---
 src/atm/CubedSphereTrans.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/atm/CubedSphereTrans.cpp b/src/atm/CubedSphereTrans.cpp
index 90fa095..42d5dc3 100644
--- a/src/atm/CubedSphereTrans.cpp
+++ b/src/atm/CubedSphereTrans.cpp
@@ -399,10 +399,11 @@ void CubedSphereTrans::VecTransABPFromRLL(
 	if ((nP > 3) && (fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
 		if (nP == 4) {
 			dUalpha = dUlon;
+			dUbeta = dUlat;
 		} else {
 			dUalpha = - dUlon;
+			dUbeta = - dUlat;
 		}
-		dUbeta = dUlat;
 		return;
 	}
 
@@ -563,10 +564,11 @@ void CubedSphereTrans::CoVecTransABPFromRLL(
 	if ((nP > 3) && (fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
 		if (nP == 4) {
 			dUalpha = dUlon;
+			dUbeta = dUlat;
 		} else {
 			dUalpha = - dUlon;
+			dUbeta = - dUlat;
 		}
-		dUbeta = dUlat;
 		return;
 	}
 
@@ -655,10 +657,11 @@ void CubedSphereTrans::CoVecTransRLLFromABP(
 	if ((nP > 3) && (fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
 		if (nP == 4) {
 			dUlon = dUalpha;
+			dUlat = dUbeta;
 		} else {
 			dUlon = - dUalpha;
+			dUlat = - dUbeta;
 		}
-		dUlat = dUbeta;
 		return;
 	}
 
-- 
2.43.0


From 172fe9025890046e5164fc04bf91fa7c4fbd89af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:11 +0000
Subject: [PATCH 08/31] fix: VecTransRLLFromABP divides by zero at the poles;
 treat them like the other transforms

---
 src/atm/CubedSphereTrans.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/atm/CubedSphereTrans.cpp b/src/atm/CubedSphereTrans.cpp
index 42d5dc3..9dbab4a 100644
--- a/src/atm/CubedSphereTrans.cpp
+++ b/src/atm/CubedSphereTrans.cpp
@@ -483,6 +483,17 @@ void CubedSphereTrans::VecTransRLLFromABP(
 
 	double lat;
 
+	if ((nP > 3) && (fabs(dX) < 1.0e-13) && (fabs(dY) < 1.0e-13)) {
+		if (nP == 4) {
+			dUlon = dUalpha;
+			dUlat = dUbeta;
+		} else {
+			dUlon = - dUalpha;
+			dUlat = - dUbeta;
+		}
+		return;
+	}
+
 	switch (nP) {
 		// Equatorial panels
 		case 0:
-- 
2.43.0


From b1ad0314e1e2a369b9947930b262d838deb40d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:00 +0000
Subject: [PATCH 09/31] fix: receive buffers were declared with their length in
 bytes instead of doubles, so unpacking past the end was not detected

---
 src/atm/Connectivity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atm/Connectivity.cpp b/src/atm/Connectivity.cpp
index 76e7da4..335d100 100644
--- a/src/atm/Connectivity.cpp
+++ b/src/atm/Connectivity.cpp
@@ -1028,7 +1028,7 @@ void ExchangeBufferRegistry::AttachRecvBuffers(int p) {
 			}
 
 			pExBuf->m_dRecvBuffer.SetSize(
-				pExBuf->GetMessageSize());
+				pExBuf->GetMessageSize() / sizeof(double));
 			pExBuf->m_dRecvBuffer.AttachToData(
 				m_vecRecvBuffers[p] + iPosition);
 
-- 
2.43.0


From 9a45e8520cc536415d03ea923b505a12e274ae7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:23 +0000
Subject: [PATCH 10/31] fix: packing and unpacking exchange data accepted a
 data index one past the last instance

---
 src/atm/GridPatch.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/atm/GridPatch.cpp b/src/atm/GridPatch.cpp
index faa64b6..edf8162 100644
--- a/src/atm/GridPatch.cpp
+++ b/src/atm/GridPatch.cpp
@@ -1301,7 +1301,7 @@ void GridPatch::PackExchangeBuffer(
 
 	// State data
 	if (eDataType == DataType_State) {
-		if ((iDataIndex < 0) || (iDataIndex > m_datavecStateNode.size())) {
+		if ((iDataIndex < 0) || (iDataIndex >= m_datavecStateNode.size())) {
 			_EXCEPTIONT("Invalid state data instance.");
 		}
 
@@ -1310,7 +1310,7 @@ void GridPatch::PackExchangeBuffer(
 
 	// Tracer data
 	} else if (eDataType == DataType_Tracers) {
-		if ((iDataIndex < 0) || (iDataIndex > m_datavecTracers.size())) {
+		if ((iDataIndex < 0) || (iDataIndex >= m_datavecTracers.size())) {
 			_EXCEPTIONT("Invalid tracers data instance.");
 		}
 
@@ -1356,7 +1356,7 @@ void GridPatch::UnpackExchangeBuffer(
 
 	// State data
 	if (eDataType == DataType_State) {
-		if ((iDataIndex < 0) || (iDataIndex > m_datavecStateNode.size())) {
+		if ((iDataIndex < 0) || (iDataIndex >= m_datavecStateNode.size())) {
 			_EXCEPTIONT("Invalid state data instance.");
 		}
 
@@ -1365,7 +1365,7 @@ void GridPatch::UnpackExchangeBuffer(
 
 	// Tracer data
 	} else if (eDataType == DataType_Tracers) {
-		if ((iDataIndex < 0) || (iDataIndex > m_datavecTracers.size())) {
+		if ((iDataIndex < 0) || (iDataIndex >= m_datavecTracers.size())) {
 			_EXCEPTIONT("Invalid tracers data instance.");
 		}
 
-- 
2.43.0


From c7d355fad5071a6cc25e741e95083e9a5da63482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 11/31] fix: create only the patches of the layout when there
 are more processes than patches

---
 src/atm/Grid.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atm/Grid.cpp b/src/atm/Grid.cpp
index b21f3ee..cbc4dde 100644
--- a/src/atm/Grid.cpp
+++ b/src/atm/Grid.cpp
@@ -1046,8 +1046,8 @@ void Grid::DistributePatches() {
 	MPI_Comm_rank(MPI_COMM_WORLD, &nRank);
 
 	// Loop over all patches and initialize data
-	m_vecPatchProcessor.resize(m_aPatchBoxes.GetRows());
-	for (int n = 0; n < m_aPatchBoxes.GetRows(); n++) {
+	m_vecPatchProcessor.resize(GetPatchCount());
+	for (int n = 0; n < GetPatchCount(); n++) {
 		int iPatchProcessor = n % nSize;
 		m_vecPatchProcessor[n] = iPatchProcessor;
 
-- 
2.43.0


From eea9f43b9a5b78c978bf1ccff91f8a9d6e8ef626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 12/31] fix: refuse a Cartesian layout with empty patches

---
 src/atm/GridCartesianGLL.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/atm/GridCartesianGLL.cpp b/src/atm/GridCartesianGLL.cpp
index 6d7cdbf..48639f1 100644
--- a/src/atm/GridCartesianGLL.cpp
+++ b/src/atm/GridCartesianGLL.cpp
@@ -174,6 +174,13 @@ void GridCartesianGLL::ApplyDefaultPatchLayout(
 	//nProcsADirection = nProcsPerDirection;
 	//nProcsBDirection = 1;
 
+	// Every patch must contain at least one element
+	if ((nProcsADirection > GetABaseResolution()) ||
+		(nProcsBDirection > GetBBaseResolution())
+	) {
+		_EXCEPTIONT("More processors than elements in a coordinate direction.");
+	}
+
 	int nElementsPerDirectionA = GetABaseResolution() / nProcsADirection;
 	DataArray1D<int> iBoxBeginA(nProcsADirection + 1);
 
-- 
2.43.0


From dbfcdf6253f900521f7242f015129ab18f402266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:13 +0000
Subject: [PATCH 13/31] fix: nodes of the nine point Gauss rule

The abscissae were those of the nine point Gauss-Lobatto rule, paired with
Gauss weights, so that not even quadratics were integrated exactly.
---
 src/base/GaussQuadrature.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/base/GaussQuadrature.cpp b/src/base/GaussQuadrature.cpp
index ab51d6e..522e329 100644
--- a/src/base/GaussQuadrature.cpp
+++ b/src/base/GaussQuadrature.cpp
@@ -139,15 +139,15 @@ void GaussQuadrature::GetPoints(
 
 	// Degree 9
 	} else if (nCount == 9) {
-		dG[0] = -1.0;
-		dG[1] = -0.899757995411460;
-		dG[2] = -0.677186279510738;
-		dG[3] = -0.363117463826178;
+		dG[0] = -0.9681602395076261;
+		dG[1] = -0.8360311073266358;
+		dG[2] = -0.6133714327005904;
+		dG[3] = -0.3242534234038089;
 		dG[4] =  0.0;
-		dG[5] = +0.363117463826178;
-		dG[6] = +0.677186279510738;
-		dG[7] = +0.899757995411460;
-		dG[8] = +1.0;
+		dG[5] = +0.3242534234038089;
+		dG[6] = +0.6133714327005904;
+		dG[7] = +0.8360311073266358;
+		dG[8] = +0.9681602395076261;
 
 		dW[0] = 0.0812743883615744;
 		dW[1] = 0.1806481606948574;
-- 
2.43.0


From f9970c58c2cb45b40191986bcca3bdfc558d0b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:13 +0000
Subject: [PATCH 14/31] fix: column interpolation with a single level

With one level both ends are extrapolated from levels that do not exist,
reading and writing outside the arrays (every shallow-water run).
---
 src/atm/LinearColumnOperatorFEM.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/atm/LinearColumnOperatorFEM.cpp b/src/atm/LinearColumnOperatorFEM.cpp
index 8454826..0f8ea43 100644
--- a/src/atm/LinearColumnOperatorFEM.cpp
+++ b/src/atm/LinearColumnOperatorFEM.cpp
@@ -119,7 +119,12 @@ void LinearColumnInterpFEM::Initialize(
 		} else {
 
 			// For nVerticalOrder = 1, override default O(dx) interpolant
-			if ((nVerticalOrder == 1) && (l == 0)) {
+			if (nRElementsIn == 1) {
+				m_dCoeff[l][0] = 1.0;
+				m_iBegin[l] = 0;
+				m_iEnd[l] = 1;
+
+			} else if ((nVerticalOrder == 1) && (l == 0)) {
 				PolynomialInterp::LagrangianPolynomialCoeffs(
 					nVerticalOrder + 1,
 					&(dREtaNode[a * nVerticalOrder]),
-- 
2.43.0


From ffcbfab3810b8c3767723ba398caf32cc8fe4abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:13 +0000
Subject: [PATCH 15/31] fix: diffusion at edges of unequal elements

The mass of a node shared by two elements is the sum of both contributions,
not twice the own one: with a stretched vertical coordinate a linear column
had a non-zero second derivative and diffusion was not conservative.
---
 src/atm/LinearColumnOperatorFEM.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/atm/LinearColumnOperatorFEM.cpp b/src/atm/LinearColumnOperatorFEM.cpp
index 0f8ea43..b2555da 100644
--- a/src/atm/LinearColumnOperatorFEM.cpp
+++ b/src/atm/LinearColumnOperatorFEM.cpp
@@ -1316,6 +1316,11 @@ void LinearColumnDiffDiffFEM::Initialize(
 		// Loop through all output elements
 		for (int a = 0; a < nFiniteElements; a++) {
 
+			// Element spacing
+			double dElementDeltaXi =
+				dREtaREdge[(a+1) * nVerticalOrder]
+				- dREtaREdge[a * nVerticalOrder];
+
 			// Gauss-Lobatto quadrature nodes
 			DataArray1D<double> dG;
 			DataArray1D<double> dW;
@@ -1341,10 +1346,14 @@ void LinearColumnDiffDiffFEM::Initialize(
 				double dWlocal = dW[j];
 
 				if ((j == 0) && (a != 0)) {
-					dWlocal *= 2.0;
+					dWlocal += dW[j] * (
+						  dREtaREdge[ a    * nVerticalOrder]
+						- dREtaREdge[(a-1) * nVerticalOrder]) / dElementDeltaXi;
 				}
 				if ((j == nVerticalOrder) && (a != nFiniteElements-1)) {
-					dWlocal *= 2.0;
+					dWlocal += dW[j] * (
+						  dREtaREdge[(a+2) * nVerticalOrder]
+						- dREtaREdge[(a+1) * nVerticalOrder]) / dElementDeltaXi;
 				}
 
 				for (int i = 0; i <= nVerticalOrder; i++) {
@@ -1416,6 +1425,11 @@ void LinearColumnDiffDiffFEM::InitializeGLLNodes(
 	// Loop through all output elements
 	for (int a = 0; a < nFiniteElements; a++) {
 
+		// Element spacing
+		double dElementDeltaXi =
+			dREtaNode[(a+1) * (nVerticalOrder-1)]
+			- dREtaNode[a * (nVerticalOrder-1)];
+
 		// Gauss-Lobatto quadrature nodes
 		DataArray1D<double> dG;
 		DataArray1D<double> dW;
@@ -1442,10 +1456,14 @@ void LinearColumnDiffDiffFEM::InitializeGLLNodes(
 			double dWlocal = dW[j];
 
 			if ((j == 0) && (a != 0)) {
-				dWlocal *= 2.0;
+				dWlocal += dW[j] * (
+					  dREtaNode[ a    * (nVerticalOrder-1)]
+					- dREtaNode[(a-1) * (nVerticalOrder-1)]) / dElementDeltaXi;
 			}
 			if ((j == nVerticalOrder-1) && (a != nFiniteElements-1)) {
-				dWlocal *= 2.0;
+				dWlocal += dW[j] * (
+					  dREtaNode[(a+2) * (nVerticalOrder-1)]
+					- dREtaNode[(a+1) * (nVerticalOrder-1)]) / dElementDeltaXi;
 			}
 
 			for (int i = 0; i < nVerticalOrder; i++) {
-- 
2.43.0


From c3018d6243c9e10062e8eb57d5112b656f79f7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:13 +0000
Subject: [PATCH 16/31] fix: conservative diffusive flux between unequal
 elements

The jump part of the flux through an element edge was scaled with a
different width on either side of the edge.
---
 src/atm/LinearColumnOperatorFEM.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/atm/LinearColumnOperatorFEM.cpp b/src/atm/LinearColumnOperatorFEM.cpp
index b2555da..fd54eb9 100644
--- a/src/atm/LinearColumnOperatorFEM.cpp
+++ b/src/atm/LinearColumnOperatorFEM.cpp
@@ -1124,10 +1124,6 @@ void LinearColumnDiffDiffFEM::Initialize(
 		for (int a = 0; a < nFiniteElements; a++) {
 
 			// Get the derivatives from the FluxCorrectionFunction
-			double dElementDeltaXi =
-				dREtaREdge[(a+1) * nVerticalOrder]
-				- dREtaREdge[a * nVerticalOrder];
-
 			DataArray1D<double> dStandardNode(nVerticalOrder);
 			dStandardNode[0] = 1.0;
 
@@ -1138,8 +1134,6 @@ void LinearColumnDiffDiffFEM::Initialize(
 				dStandardNode,
 				dDiffCorrectionFn);
 
-			dDiffCorrectionFn[0] /= dElementDeltaXi;
-
 			// Build local first derivative operator
 			DataArray2D<double> dDiffNodeToNode(
 				nVerticalOrder, nVerticalOrder);
@@ -1240,6 +1234,10 @@ void LinearColumnDiffDiffFEM::Initialize(
 				// Flux correction contribution to boundary integral
 				// at right edge.
 				if ((a+1) < nFiniteElements) {
+					double dMeanDeltaXi = 0.5 * (
+						dREtaREdge[(a+2) * nVerticalOrder]
+						- dREtaREdge[a * nVerticalOrder]);
+
 					PolynomialInterp::LagrangianPolynomialCoeffs(
 						nVerticalOrder,
 						&(dREtaNode[(a+1) * nVerticalOrder]),
@@ -1254,15 +1252,21 @@ void LinearColumnDiffDiffFEM::Initialize(
 
 					for (int i = 0; i < nVerticalOrder; i++) {
 						m_dCoeff[ax+j][ax+i] -=
-							0.5 * dPhiR * dCoeffL[i] * dDiffCorrectionFn[0];
+							0.5 * dPhiR * dCoeffL[i] * dDiffCorrectionFn[0]
+							/ dMeanDeltaXi;
 						m_dCoeff[ax+j][ax+nVerticalOrder+i] +=
-							0.5 * dPhiR * dCoeffR[i] * dDiffCorrectionFn[0];
+							0.5 * dPhiR * dCoeffR[i] * dDiffCorrectionFn[0]
+							/ dMeanDeltaXi;
 					}
 				}
 
 				// Flux correction contribution to boundary integral
 				// at left edge.
 				if (a > 0) {
+					double dMeanDeltaXi = 0.5 * (
+						dREtaREdge[(a+1) * nVerticalOrder]
+						- dREtaREdge[(a-1) * nVerticalOrder]);
+
 					PolynomialInterp::LagrangianPolynomialCoeffs(
 						nVerticalOrder,
 						&(dREtaNode[a * nVerticalOrder]),
@@ -1277,9 +1281,11 @@ void LinearColumnDiffDiffFEM::Initialize(
 
 					for (int i = 0; i < nVerticalOrder; i++) {
 						m_dCoeff[ax+j][ax-nVerticalOrder+i] +=
-							0.5 * dPhiL * dCoeffL[i] * dDiffCorrectionFn[0];
+							0.5 * dPhiL * dCoeffL[i] * dDiffCorrectionFn[0]
+							/ dMeanDeltaXi;
 						m_dCoeff[ax+j][ax+i] -=
-							0.5 * dPhiL * dCoeffR[i] * dDiffCorrectionFn[0];
+							0.5 * dPhiL * dCoeffR[i] * dDiffCorrectionFn[0]
+							/ dMeanDeltaXi;
 					}
 				}
 			}
-- 
2.43.0


From 6d4983bf6ee8cc350aaa0879716d5b762bd18d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 17/31] fix: Cartesian patches: perturbation adds to the
 restarted state, friction covers the top interface

---
 src/atm/GridPatchCartesianGLL.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index 3ad09cb..46313c6 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -554,7 +554,7 @@ void GridPatchCartesianGLL::EvaluateTestCase(
 						m_dataLon[i][j],
 						m_dataLat[i][j]);
 			}
-			for (int k = 0; k < m_grid.GetRElements(); k++) {
+			for (int k = 0; k <= m_grid.GetRElements(); k++) {
 				m_dataRayleighStrengthREdge[i][j][k] =
 					test.EvaluateRayleighStrength(
 						m_dataZInterfaces[i][j][k],
@@ -740,16 +740,21 @@ void GridPatchCartesianGLL::EvaluateTestCase_Perturbation(
 			dPointwiseState,
 			dPointwiseTracers);
 
-		eqns.ConvertComponents(
-			phys, dPointwiseState, dPointwiseTracers);
-
 		for (int c = 0; c < dPointwiseState.GetRows(); c++) {
-			m_datavecStateNode[iDataIndex][c][i][j][k] = dPointwiseState[c];
+#if defined(FORMULATION_RHOTHETA_PI) || defined(FORMULATION_RHOTHETA_P)
+			if ((c == 2) && (eqns.GetDimensionality() != 2)) {
+				m_datavecStateNode[iDataIndex][c][i][j][k] +=
+					m_datavecStateNode[iDataIndex][4][i][j][k]
+						* dPointwiseState[c];
+				continue;
+			}
+#endif
+			m_datavecStateNode[iDataIndex][c][i][j][k] += dPointwiseState[c];
 		}
 
 		// Evaluate tracers
 		for (int c = 0; c < dPointwiseTracers.GetRows(); c++) {
-			m_datavecTracers[iDataIndex][c][i][j][k] = dPointwiseTracers[c];
+			m_datavecTracers[iDataIndex][c][i][j][k] += dPointwiseTracers[c];
 		}
 	}
 	}
@@ -769,10 +774,16 @@ void GridPatchCartesianGLL::EvaluateTestCase_Perturbation(
 			dPointwiseState,
 			dPointwiseTracers);
 
-		eqns.ConvertComponents(phys, dPointwiseState, dPointwiseTracers);
-
 		for (int c = 0; c < dPointwiseState.GetRows(); c++) {
-			m_datavecStateREdge[iDataIndex][c][i][j][k] = dPointwiseState[c];
+#if defined(FORMULATION_RHOTHETA_PI) || defined(FORMULATION_RHOTHETA_P)
+			if ((c == 2) && (eqns.GetDimensionality() != 2)) {
+				m_datavecStateREdge[iDataIndex][c][i][j][k] +=
+					m_datavecStateREdge[iDataIndex][4][i][j][k]
+						* dPointwiseState[c];
+				continue;
+			}
+#endif
+			m_datavecStateREdge[iDataIndex][c][i][j][k] += dPointwiseState[c];
 		}
 	}
 	}
-- 
2.43.0


From 10f88c75a9be2f361950aeb1186b6db7098d8aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 18/31] fix: cubed sphere perturbation is transformed to the
 panel frame, no access past the shallow water state

---
 src/atm/GridPatchCSGLL.cpp | 124 +++++++++++++++++--------------------
 1 file changed, 58 insertions(+), 66 deletions(-)

diff --git a/src/atm/GridPatchCSGLL.cpp b/src/atm/GridPatchCSGLL.cpp
index cdf2075..e32ac64 100644
--- a/src/atm/GridPatchCSGLL.cpp
+++ b/src/atm/GridPatchCSGLL.cpp
@@ -989,10 +989,38 @@ void GridPatchCSGLL::EvaluateTestCase_Perturbation(
 			m_dataLat(i,j),
 			dPointwiseState,
 			dPointwiseTracers);
+
+		// Transform velocity perturbations
+		double dUlon = dPointwiseState[UIx];
+		double dUlat = dPointwiseState[VIx];
+
+#if defined(PROGNOSTIC_CONTRAVARIANT_MOMENTA)
+		dUlon /= phys.GetEarthRadius();
+		dUlat /= phys.GetEarthRadius();
+
+		CubedSphereTrans::VecTransABPFromRLL(
+			m_dXNode[i],
+			m_dYNode[j],
+			m_box.GetPanel(),
+			dUlon, dUlat,
+			dPointwiseState[UIx],
+			dPointwiseState[VIx]);
+#else
+		dUlon *= phys.GetEarthRadius();
+		dUlat *= phys.GetEarthRadius();
+
+		CubedSphereTrans::CoVecTransABPFromRLL(
+			m_dXNode[i],
+			m_dYNode[j],
+			m_box.GetPanel(),
+			dUlon, dUlat,
+			dPointwiseState[UIx],
+			dPointwiseState[VIx]);
+#endif
         
 		for (int c = 0; c < dPointwiseState.GetRows(); c++) {
 #if defined(FORMULATION_RHOTHETA_PI) || defined(FORMULATION_RHOTHETA_P)
-            if (c == 2) {
+            if ((c == 2) && !fIs2DEquationSet) {
                 dataStateNode(c,i,j,k) +=
                     dataStateNode(4,i,j,k) * dPointwiseState[c];
                 //std::cout << dataStateNode(c,i,j,k) << ' ' << dPointwiseState[c] << std::endl;
@@ -1012,38 +1040,6 @@ void GridPatchCSGLL::EvaluateTestCase_Perturbation(
             }
 #endif
 		}
-/*
-		// Transform state velocities
-		double dUlon;
-		double dUlat;
-
-		dUlon = dataStateNode(UIx,i,j,k);
-		dUlat = dataStateNode(VIx,i,j,k);
-
-#if defined(PROGNOSTIC_CONTRAVARIANT_MOMENTA)
-		dUlon /= phys.GetEarthRadius();
-		dUlat /= phys.GetEarthRadius();
-
-		CubedSphereTrans::VecTransABPFromRLL(
-			m_dXNode[i],
-			m_dYNode[j],
-			m_box.GetPanel(),
-			dUlon, dUlat,
-			dataStateNode(UIx,i,j,k),
-			dataStateNode(VIx,i,j,k));
-#else
-		dUlon *= phys.GetEarthRadius();
-		dUlat *= phys.GetEarthRadius();
-
-		CubedSphereTrans::CoVecTransABPFromRLL(
-			m_dXNode[i],
-			m_dYNode[j],
-			m_box.GetPanel(),
-			dUlon, dUlat,
-			dataStateNode(UIx,i,j,k),
-			dataStateNode(VIx,i,j,k));
-#endif
-*/
 		// Evaluate tracer perturbations if any
 		for (int c = 0; c < dPointwiseTracers.GetRows(); c++) {
 			dataTracers(c,i,j,k) +=
@@ -1068,9 +1064,37 @@ void GridPatchCSGLL::EvaluateTestCase_Perturbation(
 			dPointwiseState,
 			dPointwiseTracers);
 
+		// Transform velocity perturbations
+		double dUlon = dPointwiseState[UIx];
+		double dUlat = dPointwiseState[VIx];
+
+#if defined(PROGNOSTIC_CONTRAVARIANT_MOMENTA)
+		dUlon /= phys.GetEarthRadius();
+		dUlat /= phys.GetEarthRadius();
+
+		CubedSphereTrans::VecTransABPFromRLL(
+			m_dXNode[i],
+			m_dYNode[j],
+			m_box.GetPanel(),
+			dUlon, dUlat,
+			dPointwiseState[UIx],
+			dPointwiseState[VIx]);
+#else
+		dUlon *= phys.GetEarthRadius();
+		dUlat *= phys.GetEarthRadius();
+
+		CubedSphereTrans::CoVecTransABPFromRLL(
+			m_dXNode[i],
+			m_dYNode[j],
+			m_box.GetPanel(),
+			dUlon, dUlat,
+			dPointwiseState[UIx],
+			dPointwiseState[VIx]);
+#endif
+
 		for (int c = 0; c < dPointwiseState.GetRows(); c++) {
 #if defined(FORMULATION_RHOTHETA_PI) || defined(FORMULATION_RHOTHETA_P)
-            if (c == 2) {
+            if ((c == 2) && !fIs2DEquationSet) {
                 dataStateREdge(c,i,j,k) +=
                     dataStateREdge(4,i,j,k) * dPointwiseState[c];
                 //std::cout << dataStateNode(c,i,j,k) << ' ' << dPointwiseState[c] << std::endl;
@@ -1090,38 +1114,6 @@ void GridPatchCSGLL::EvaluateTestCase_Perturbation(
             }
 #endif
         }
-/*
-		// Transform state velocities
-		double dUlon;
-		double dUlat;
-
-		dUlon = dataStateREdge(UIx,i,j,k);
-		dUlat = dataStateREdge(VIx,i,j,k);
-
-#if defined(PROGNOSTIC_CONTRAVARIANT_MOMENTA)
-		dUlon /= phys.GetEarthRadius();
-		dUlat /= phys.GetEarthRadius();
-
-		CubedSphereTrans::VecTransABPFromRLL(
-			m_dXNode[i],
-			m_dYNode[j],
-			m_box.GetPanel(),
-			dUlon, dUlat,
-			dataStateREdge(UIx,i,j,k),
-			dataStateREdge(VIx,i,j,k));
-#else
-		dUlon *= phys.GetEarthRadius();
-		dUlat *= phys.GetEarthRadius();
-
-		CubedSphereTrans::CoVecTransABPFromRLL(
-			m_dXNode[i],
-			m_dYNode[j],
-			m_box.GetPanel(),
-			dUlon, dUlat,
-			dataStateREdge(UIx,i,j,k),
-			dataStateREdge(VIx,i,j,k));
-#endif
-*/
 	}
 	}
 	}
-- 
2.43.0


From 85be9769e7b8683f3bf3c9bdf354649d38f74ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 19/31] fix: physical constants of the test case are set on
 every restart

---
 src/atm/Model.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/atm/Model.cpp b/src/atm/Model.cpp
index dcc02fd..6137694 100644
--- a/src/atm/Model.cpp
+++ b/src/atm/Model.cpp
@@ -236,23 +236,16 @@ void Model::SetTestCase(
 	// Attach the test case
 	m_pTestCase = pTestCase;
 
-	// Evaluate physical constants and data from TestCase
-	if (!m_fGridFromRestartFile) {
-
-		// Evaluate physical constants
-		m_pTestCase->EvaluatePhysicalConstants(m_phys);
+	// Evaluate physical constants
+	m_pTestCase->EvaluatePhysicalConstants(m_phys);
 
-		// Initialize the topography and data
+	// Initialize the topography and data from TestCase
+	if (!m_fGridFromRestartFile) {
 		m_pGrid->EvaluateTestCase(*pTestCase, m_timeStart);
 	}
-	
-	// Evaluate physical constants and data from TestCase if pertubation is needed on restart
-	if ((m_fRestartPerturbation) && (m_fGridFromRestartFile)) {
-
-		// Evaluate physical constants
-		m_pTestCase->EvaluatePhysicalConstants(m_phys);
 
-		// Initialize the topography and data
+	// Perturb the data from TestCase if perturbation is needed on restart
+	if ((m_fRestartPerturbation) && (m_fGridFromRestartFile)) {
 		m_pGrid->EvaluateTestCase_Perturbation(*pTestCase, m_timeStart);
 	}
 }
-- 
2.43.0


From eef72f730c306eadb7e8de2bd9db70df26fa92a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 20/31] fix: resetting a group time record that does not exist
 is no error (every restart failed)

---
 src/base/FunctionTimer.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/base/FunctionTimer.cpp b/src/base/FunctionTimer.cpp
index f8e3884..1fd8f06 100644
--- a/src/base/FunctionTimer.cpp
+++ b/src/base/FunctionTimer.cpp
@@ -160,10 +160,6 @@ void FunctionTimer::ResetGroupTimeRecord(const char *szName) {
 	// Retrieve existing group record
 	if (iter != m_mapGroupData.end()) {
 		m_mapGroupData.erase(iter);
-
-	// Group record does not exist
-	} else {
-		_EXCEPTION1("Group time record %s does not exist.", szName);
 	}
 }
 
-- 
2.43.0


From d6dcdcdcd77550aae98afed05cec81c612cac5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 21/31] fix: the vertical slice flag is kept in the restart
 file

---
 src/atm/GridCartesianGLL.cpp | 1 -
 src/atm/GridGLL.cpp          | 1 +
 src/atm/GridGLL.h            | 2 +-
 3 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atm/GridCartesianGLL.cpp b/src/atm/GridCartesianGLL.cpp
index 48639f1..2c1248f 100644
--- a/src/atm/GridCartesianGLL.cpp
+++ b/src/atm/GridCartesianGLL.cpp
@@ -52,7 +52,6 @@ void GridCartesianGLL::DefineParameters() {
 	// Add parameters for GridCartesianGLL
 	m_dcGridParameters.PushDataChunk(&m_dGDim);
 	m_dcGridParameters.PushDataChunk(&m_dRefLat);
-	//m_dcGridParameters.PushDataChunk(&m_fCartesianXZ);
 
 	// Call up the stack
 	GridGLL::DefineParameters();
diff --git a/src/atm/GridGLL.cpp b/src/atm/GridGLL.cpp
index 720bdf1..0290ace 100644
--- a/src/atm/GridGLL.cpp
+++ b/src/atm/GridGLL.cpp
@@ -43,6 +43,7 @@ void GridGLL::DefineParameters() {
 	// Initialize the GridParameters relevant to GridGLL
 	m_dcGridParameters.PushDataChunk(&m_nHorizontalOrder);
 	m_dcGridParameters.PushDataChunk(&m_nVerticalOrder);
+	m_dcGridParameters.PushDataChunk(&m_fCartesianXZ);
 
 	// Call up the stack
 	Grid::DefineParameters();
diff --git a/src/atm/GridGLL.h b/src/atm/GridGLL.h
index 8527b36..40b2ee4 100644
--- a/src/atm/GridGLL.h
+++ b/src/atm/GridGLL.h
@@ -237,7 +237,7 @@ public:
 	///	<summary>
 	///		2D Cartesian flag
 	///	</summary>
-	bool m_fCartesianXZ = false;
+	DataStruct<bool> m_fCartesianXZ;
 
 	///	<summary>
 	///		Get the 2D Cartesian flag
-- 
2.43.0


From 6bfd7105d7662ba41e8ccd75c883edc6ca8c1a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 22/31] fix: vertical stretching is set up on restart too

---
 src/atm/TempestInitialize.h | 60 +++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 29 deletions(-)

diff --git a/src/atm/TempestInitialize.h b/src/atm/TempestInitialize.h
index 256769e..0041551 100644
--- a/src/atm/TempestInitialize.h
+++ b/src/atm/TempestInitialize.h
@@ -473,6 +473,29 @@ void _TempestSetupOutputManagers(
 
 ///////////////////////////////////////////////////////////////////////////////
 
+void _TempestSetupVerticalStretch(
+	Grid * pGrid,
+	_TempestCommandLineVariables & vars
+) {
+	// Set the vertical stretching function
+	STLStringHelper::ToLower(vars.strVerticalStretch);
+	if (vars.strVerticalStretch == "uniform") {
+
+	} else if (vars.strVerticalStretch == "cubic") {
+		pGrid->SetVerticalStretchFunction(
+			new VerticalStretchCubic);
+
+	} else if (vars.strVerticalStretch == "pwlinear") {
+		pGrid->SetVerticalStretchFunction(
+			new VerticalStretchPiecewiseLinear);
+
+	} else {
+		_EXCEPTIONT("Invalid value for --vstretch");
+	}
+}
+
+///////////////////////////////////////////////////////////////////////////////
+
 void _TempestSetupCubedSphereModel(
 	Model & model,
 	_TempestCommandLineVariables & vars
@@ -547,20 +570,7 @@ void _TempestSetupCubedSphereModel(
 		pGrid->InitializeDataLocal();
 
 		// Set the vertical stretching function
-		STLStringHelper::ToLower(vars.strVerticalStretch);
-		if (vars.strVerticalStretch == "uniform") {
-
-		} else if (vars.strVerticalStretch == "cubic") {
-			pGrid->SetVerticalStretchFunction(
-				new VerticalStretchCubic);
-
-		} else if (vars.strVerticalStretch == "pwlinear") {
-			pGrid->SetVerticalStretchFunction(
-				new VerticalStretchPiecewiseLinear);
-
-		} else {
-			_EXCEPTIONT("Invalid value for --vstretch");
-		}
+		_TempestSetupVerticalStretch(pGrid, vars);
 
 		// Vertical type
 		STLStringHelper::ToLower(vars.strVerticalDiscretization);
@@ -576,6 +586,9 @@ void _TempestSetupCubedSphereModel(
 
 		pGrid->DefineParameters();
 
+		// Set the vertical stretching function
+		_TempestSetupVerticalStretch(pGrid, vars);
+
 		model.SetGridFromRestartFile(pGrid, vars.strRestartFile, vars.fRestartPerturbation);
 	}
 
@@ -666,21 +679,7 @@ void _TempestSetupCartesianModel(
 		pGrid->InitializeDataLocal();
 
 		// Set the vertical stretching function
-		STLStringHelper::ToLower(vars.strHorizontalDynamics);
-		if (vars.strVerticalStretch == "uniform") {
-
-		} else if (vars.strVerticalStretch == "cubic") {
-			pGrid->SetVerticalStretchFunction(
-				new VerticalStretchCubic);
-
-		} else if (vars.strVerticalStretch == "pwlinear") {
-			pGrid->SetVerticalStretchFunction(
-				new VerticalStretchPiecewiseLinear);
-
-		} else {
-			_EXCEPTIONT("Invalid value for --vstretch");
-
-		}
+		_TempestSetupVerticalStretch(pGrid, vars);
 
 		// Set the Model Grid
 		model.SetGrid(pGrid);
@@ -693,6 +692,9 @@ void _TempestSetupCartesianModel(
 
 		pGrid->DefineParameters();
 
+		// Set the vertical stretching function
+		_TempestSetupVerticalStretch(pGrid, vars);
+
 		model.SetGridFromRestartFile(pGrid, vars.strRestartFile, vars.fRestartPerturbation);
 	}
 
-- 
2.43.0


From 20bbd881d2a2f81608b6de57652781d8f07775fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:11 +0000
Subject: [PATCH 23/31] fix: Cartesian reference tracers come from the test
 case

---
 src/atm/GridPatchCartesianGLL.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/atm/GridPatchCartesianGLL.cpp b/src/atm/GridPatchCartesianGLL.cpp
index 46313c6..ebd748d 100644
--- a/src/atm/GridPatchCartesianGLL.cpp
+++ b/src/atm/GridPatchCartesianGLL.cpp
@@ -612,7 +612,8 @@ void GridPatchCartesianGLL::EvaluateTestCase(
 				m_dataZLevels[i][j][k],
 				m_dataLon[i][j],
 				m_dataLat[i][j],
-				dPointwiseRefState);
+				dPointwiseRefState,
+				dPointwiseRefTracers);
 
 			eqns.ConvertComponents(
 				phys, dPointwiseRefState, dPointwiseRefTracers);
-- 
2.43.0


From c8de353172331ac209771e861fe8dbf66d0b99b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 24/31] fix: terrain condition on node vertical velocity reads
 the local metric

---
 src/atm/HorizontalDynamicsFEM.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/atm/HorizontalDynamicsFEM.cpp b/src/atm/HorizontalDynamicsFEM.cpp
index 58a264f..722f8c6 100644
--- a/src/atm/HorizontalDynamicsFEM.cpp
+++ b/src/atm/HorizontalDynamicsFEM.cpp
@@ -1430,11 +1430,11 @@ void HorizontalDynamicsFEM::StepNonhydrostaticPrimitive(
 
 					if (k == 0) {
 						dLocalUpdateUr =
-							- ( m_dLocalContraMetric(iA,iB,0,2)
+							- ( m_dLocalContraMetric(i,j,0,2)
 									* dLocalUpdateUa
-							  + m_dLocalContraMetric(iA,iB,0,4)
+							  + m_dLocalContraMetric(i,j,0,4)
 							  		* dLocalUpdateUb)
-							/ m_dLocalContraMetric(iA,iB,0,5);
+							/ m_dLocalContraMetric(i,j,0,5);
 
 					} else if (k == nRElements-1) {
 						dLocalUpdateUr = 0.0;
-- 
2.43.0


From fa014e5aace329ae022d0d811c3d44dff2d37f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:46 +0000
Subject: [PATCH 25/31] fix: banded column matrices have room for their bands
 on any number of levels

---
 src/atm/VerticalDynamicsFEM.cpp   |  4 ++++
 src/atm/VerticalDynamicsFEM.h     |  3 ++-
 src/atm/VerticalDynamicsFEMV2.cpp |  4 ++++
 src/atm/VerticalDynamicsFEMV2.h   |  3 ++-
 src/atm/VerticalDynamicsSchur.cpp |  4 ++++
 src/atm/VerticalDynamicsSchur.h   |  3 ++-
 src/base/LinearAlgebra.cpp        | 19 ++++++++++++-------
 7 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/atm/VerticalDynamicsFEM.cpp b/src/atm/VerticalDynamicsFEM.cpp
index 361319f..3ff67ee 100644
--- a/src/atm/VerticalDynamicsFEM.cpp
+++ b/src/atm/VerticalDynamicsFEM.cpp
@@ -387,7 +387,11 @@ void VerticalDynamicsFEM::Initialize() {
 	m_dUpdateDensityREdge.Allocate(nRElements+1);
 
 	m_vecTracersF.Allocate(nRElements);
+#if defined(USE_JACOBIAN_DIAGONAL)
+	m_matTracersLUDF.Allocate(nRElements, 3 * (2 * m_nVerticalOrder - 1) + 1);
+#else
 	m_matTracersLUDF.Allocate(nRElements, nRElements);
+#endif
 	m_vecTracersIPiv.Allocate(nRElements);
 
 	// Compute upwinding coefficient
diff --git a/src/atm/VerticalDynamicsFEM.h b/src/atm/VerticalDynamicsFEM.h
index f4e1017..1f84c7a 100644
--- a/src/atm/VerticalDynamicsFEM.h
+++ b/src/atm/VerticalDynamicsFEM.h
@@ -130,7 +130,8 @@ protected:
 		return (m_nRElements * k0 + k1);
 #elif defined(USE_JACOBIAN_DIAGONAL)
 		int nOffDiagonals = 2 * (2 * m_nVerticalOrder - 1);
-		return (nOffDiagonals + k1 - k0) + m_nRElements * k0;
+		return (nOffDiagonals + k1 - k0)
+			+ static_cast<int>(m_matTracersLUDF.GetColumns()) * k0;
 #else
 		_EXCEPTION();
 #endif
diff --git a/src/atm/VerticalDynamicsFEMV2.cpp b/src/atm/VerticalDynamicsFEMV2.cpp
index fb360a6..412cea0 100644
--- a/src/atm/VerticalDynamicsFEMV2.cpp
+++ b/src/atm/VerticalDynamicsFEMV2.cpp
@@ -395,7 +395,11 @@ void VerticalDynamicsFEMV2::Initialize() {
 	m_dUpdateDensityREdge.Allocate(nRElements+1);
 
 	m_vecTracersF.Allocate(nRElements);
+#if defined(USE_JACOBIAN_DIAGONAL)
+	m_matTracersLUDF.Allocate(nRElements, 3 * (2 * m_nVerticalOrder - 1) + 1);
+#else
 	m_matTracersLUDF.Allocate(nRElements, nRElements);
+#endif
 	m_vecTracersIPiv.Allocate(nRElements);
 
 	// Compute upwinding coefficient
diff --git a/src/atm/VerticalDynamicsFEMV2.h b/src/atm/VerticalDynamicsFEMV2.h
index 57e9fc9..0048b2c 100644
--- a/src/atm/VerticalDynamicsFEMV2.h
+++ b/src/atm/VerticalDynamicsFEMV2.h
@@ -130,7 +130,8 @@ protected:
 		return (m_nRElements * k0 + k1);
 #elif defined(USE_JACOBIAN_DIAGONAL)
 		int nOffDiagonals = 2 * (2 * m_nVerticalOrder - 1);
-		return (nOffDiagonals + k1 - k0) + m_nRElements * k0;
+		return (nOffDiagonals + k1 - k0)
+			+ static_cast<int>(m_matTracersLUDF.GetColumns()) * k0;
 #else
 		_EXCEPTION();
 #endif
diff --git a/src/atm/VerticalDynamicsSchur.cpp b/src/atm/VerticalDynamicsSchur.cpp
index 0d6688f..e965690 100644
--- a/src/atm/VerticalDynamicsSchur.cpp
+++ b/src/atm/VerticalDynamicsSchur.cpp
@@ -418,7 +418,11 @@ void VerticalDynamicsSchur::Initialize() {
 	m_dUpdateDensityREdge.Allocate(nRElements+1);
 
 	m_vecTracersF.Allocate(nRElements);
+#if defined(USE_JACOBIAN_DIAGONAL)
+	m_matTracersLUDF.Allocate(nRElements, 3 * (2 * m_nVerticalOrder - 1) + 1);
+#else
 	m_matTracersLUDF.Allocate(nRElements, nRElements);
+#endif
 	m_vecTracersIPiv.Allocate(nRElements);
 
 	// Compute upwinding coefficient
diff --git a/src/atm/VerticalDynamicsSchur.h b/src/atm/VerticalDynamicsSchur.h
index 5a06aa4..6ed16aa 100644
--- a/src/atm/VerticalDynamicsSchur.h
+++ b/src/atm/VerticalDynamicsSchur.h
@@ -167,7 +167,8 @@ protected:
 		return (m_nRElements * k0 + k1);
 #elif defined(USE_JACOBIAN_DIAGONAL)
 		int nOffDiagonals = 2 * (2 * m_nVerticalOrder - 1);
-		return (nOffDiagonals + k1 - k0) + m_nRElements * k0;
+		return (nOffDiagonals + k1 - k0)
+			+ static_cast<int>(m_matTracersLUDF.GetColumns()) * k0;
 #else
 		_EXCEPTION();
 #endif
diff --git a/src/base/LinearAlgebra.cpp b/src/base/LinearAlgebra.cpp
index d015a04..cbb479f 100644
--- a/src/base/LinearAlgebra.cpp
+++ b/src/base/LinearAlgebra.cpp
@@ -161,8 +161,8 @@ int LAPACK::DGBSV(
 	int nKU
 ) {
 	// Check dimensions
-	if (dA.GetRows() < 2 * nKL + nKU + 1) {
-		_EXCEPTIONT("Matrix A has insufficient rows for DGBSV");
+	if (dA.GetColumns() < 2 * nKL + nKU + 1) {
+		_EXCEPTIONT("Matrix A has insufficient columns for DGBSV");
 	}
 	if (dBX.GetRows() < dA.GetRows()) {
 		_EXCEPTIONT("Matrix A / B dimension mismatch in DGBSV");
@@ -305,10 +305,16 @@ int LAPACK::DGBTRF(
 	int iKL,
 	int iKU
 ) {
+	// Check dimensions
+	if (dA.GetColumns() < 2 * iKL + iKU + 1) {
+		_EXCEPTIONT("Matrix A has insufficient columns for DGBTRF");
+	}
+
+	// Each row of dA stores one (banded) column of the matrix
 	int m = dA.GetRows();
-	int n = dA.GetColumns();
+	int n = dA.GetRows();
 
-	int lda = m;
+	int lda = dA.GetColumns();
 
 	int nInfo;
 
@@ -365,10 +371,9 @@ int LAPACK::DGBTRS(
 	int iKL,
 	int iKU
 ) {
-	int m = dA.GetRows();
-	int n = dA.GetColumns();
+	int n = dA.GetRows();
 
-	int lda = m;
+	int lda = dA.GetColumns();
 	int ldb = dB.GetRows();
 	int nRHS = 1;
 
-- 
2.43.0


From 68408d7b3b69a3e76e6ad39c910be9ac467f0af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:46 +0000
Subject: [PATCH 26/31] fix: explicit vertical diffusion of momentum uses the
 column being stepped

---
 src/atm/VerticalDynamicsFEM.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/atm/VerticalDynamicsFEM.cpp b/src/atm/VerticalDynamicsFEM.cpp
index 3ff67ee..e6610da 100644
--- a/src/atm/VerticalDynamicsFEM.cpp
+++ b/src/atm/VerticalDynamicsFEM.cpp
@@ -1065,6 +1065,11 @@ void VerticalDynamicsFEM::StepExplicit(
 			) {
 
 				// Second derivatives of horizontal velocity on model levels
+				for (int k = 0; k < nRElements; k++) {
+					m_dStateNode[UIx][k] = dataInitialNode[UIx][i][j][k];
+					m_dStateNode[VIx][k] = dataInitialNode[VIx][i][j][k];
+				}
+
 				pGrid->DiffDiffNodeToNode(
 					m_dStateNode[UIx],
 					m_dDiffDiffStateHypervis[UIx]);
-- 
2.43.0


From 25b56765fdef9b57f75b33d177fab8faee78ef06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:46 +0000
Subject: [PATCH 27/31] fix: vertical diffusion of tracers uses the metric, and
 no reference state if there is none

---
 src/atm/VerticalDynamicsFEM.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/atm/VerticalDynamicsFEM.cpp b/src/atm/VerticalDynamicsFEM.cpp
index e6610da..da3d61f 100644
--- a/src/atm/VerticalDynamicsFEM.cpp
+++ b/src/atm/VerticalDynamicsFEM.cpp
@@ -4131,9 +4131,11 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 					m_dTracerDensityNode[k]
 					/ m_dStateNode[RIx][k];
 
-				m_dStateAux[k] -=
-					dataRefTracer[c][m_iA][m_iB][k]
-					/ m_dStateRefNode[RIx][k];
+				if (m_fUseReferenceState) {
+					m_dStateAux[k] -=
+						dataRefTracer[c][m_iA][m_iB][k]
+						/ m_dStateRefNode[RIx][k];
+				}
 			}
 
 			pGrid->DifferentiateNodeToREdge(
@@ -4143,6 +4145,8 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 			for (int k = 1; k < nRElements; k++) {
 				m_dMassFluxREdge[k] -=
 					pGrid->GetScalarUniformDiffusionCoeff()
+					* m_dColumnJacobianREdge[k]
+					* m_dColumnContraMetricXiREdge[k][2]
 					* m_dStateREdge[RIx][k]
 					* m_dStateAuxDiff[k];
 			}
-- 
2.43.0


From 639e4453774d734f36521f26720ec5259e4e5655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:47 +0000
Subject: [PATCH 28/31] fix: explicit evaluation of implicit terms does not
 solve for tracers

---
 src/atm/VerticalDynamicsFEM.cpp | 12 ++++++++----
 src/atm/VerticalDynamicsFEM.h   |  1 +
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/atm/VerticalDynamicsFEM.cpp b/src/atm/VerticalDynamicsFEM.cpp
index da3d61f..9174a95 100644
--- a/src/atm/VerticalDynamicsFEM.cpp
+++ b/src/atm/VerticalDynamicsFEM.cpp
@@ -603,6 +603,7 @@ void VerticalDynamicsFEM::StepImplicitTermsExplicitly(
 			// Update tracers in column
 			UpdateColumnTracers(
 				dDeltaT,
+				true,
 				dataInitialNode,
 				dataUpdateNode,
 				dataInitialREdge,
@@ -806,6 +807,7 @@ void VerticalDynamicsFEM::StepExplicit(
 				// Update tracers in column
 				UpdateColumnTracers(
 					dDeltaT,
+					true,
 					dataInitialNode,
 					dataUpdateNode,
 					dataInitialREdge,
@@ -1536,6 +1538,7 @@ void VerticalDynamicsFEM::StepImplicit(
 			// Update tracers in column
 			UpdateColumnTracers(
 				dDeltaT,
+				false,
 				dataInitialNode,
 				dataUpdateNode,
 				dataInitialREdge,
@@ -3791,6 +3794,7 @@ void VerticalDynamicsFEM::Evaluate(
 
 void VerticalDynamicsFEM::UpdateColumnTracers(
 	double dDeltaT,
+	bool fExplicit,
 	const DataArray4D<double> & dataInitialNode,
 	const DataArray4D<double> & dataUpdateNode,
 	const DataArray4D<double> & dataInitialREdge,
@@ -3918,7 +3922,7 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 
 	// Only compute off-diagonal terms of the Jacobian if implicit advection
 	// is being performed.
-	if (!m_fFullyExplicit) {
+	if (!fExplicit) {
 
 		// No implicit uniform diffusion of tracers (yet)
 		if (m_fUniformDiffusionVar[TracerIx]) {
@@ -4054,7 +4058,7 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 	}
 
 	// Calculate u^xi on model interfaces (using updated state if implicit)
-	if (m_fFullyExplicit) {
+	if (fExplicit) {
 		if (pGrid->GetVarLocation(WIx) == DataLocation_REdge) {
 			for (int k = 0; k <= nRElements; k++) {
 				m_dStateREdge[WIx][k] =
@@ -4176,7 +4180,7 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 				pGrid->GetOpPenaltyNodeToNode();
 
 			// Calculate weights
-			if (m_fFullyExplicit) {
+			if (fExplicit) {
 				for (int a = 0; a < nFiniteElements - 1; a++) {
 					int k = (a+1) * nNodesPerFiniteElement;
 					m_dUpwindWeights[a] = fabs(m_dXiDotREdge[k]);
@@ -4203,7 +4207,7 @@ void VerticalDynamicsFEM::UpdateColumnTracers(
 			}
 
 			// Apply implicit velocity correction
-			if (!m_fFullyExplicit) {
+			if (!fExplicit) {
 				for (int a = 1; a < nFiniteElements; a++) {
 
 					int kLeftBegin = (a-1) * nNodesPerFiniteElement;
diff --git a/src/atm/VerticalDynamicsFEM.h b/src/atm/VerticalDynamicsFEM.h
index 1f84c7a..188a3e8 100644
--- a/src/atm/VerticalDynamicsFEM.h
+++ b/src/atm/VerticalDynamicsFEM.h
@@ -246,6 +246,7 @@ protected:
 	///	</summary>
 	void UpdateColumnTracers(
 		double dDeltaT,
+		bool fExplicit,
 		const DataArray4D<double> & dataInitialNode,
 		const DataArray4D<double> & dataUpdateNode,
 		const DataArray4D<double> & dataInitialREdge,
-- 
2.43.0


From 14de4e55f4119bc98d870767acfda92b832c2495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:03 +0000
Subject: [PATCH 29/31] fix: bands of the implicit vertical Jacobian at
 vertical order 3

The vertical velocity at an interior interface depends on pressures up to
16 entries away; with 15 off-diagonals the entry was stored in the next
column of the banded matrix, and so dropped.
---
 src/atm/VerticalDynamicsFEM.cpp   | 2 +-
 src/atm/VerticalDynamicsFEMV2.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/atm/VerticalDynamicsFEM.cpp b/src/atm/VerticalDynamicsFEM.cpp
index 9174a95..0b7870c 100644
--- a/src/atm/VerticalDynamicsFEM.cpp
+++ b/src/atm/VerticalDynamicsFEM.cpp
@@ -190,7 +190,7 @@ void VerticalDynamicsFEM::Initialize() {
 		} else if (m_nVerticalOrder == 2) {
 			m_nJacobianFOffD = 9;
 		} else if (m_nVerticalOrder == 3) {
-			m_nJacobianFOffD = 15;
+			m_nJacobianFOffD = 16;
 		} else if (m_nVerticalOrder == 4) {
 			m_nJacobianFOffD = 22;
 		} else if (m_nVerticalOrder == 5) {
diff --git a/src/atm/VerticalDynamicsFEMV2.cpp b/src/atm/VerticalDynamicsFEMV2.cpp
index 412cea0..832a37f 100644
--- a/src/atm/VerticalDynamicsFEMV2.cpp
+++ b/src/atm/VerticalDynamicsFEMV2.cpp
@@ -193,7 +193,7 @@ void VerticalDynamicsFEMV2::Initialize() {
 		} else if (m_nVerticalOrder == 2) {
 			m_nJacobianFOffD = 9;
 		} else if (m_nVerticalOrder == 3) {
-			m_nJacobianFOffD = 15;
+			m_nJacobianFOffD = 16;
 		} else if (m_nVerticalOrder == 4) {
 			m_nJacobianFOffD = 22;
 		} else if (m_nVerticalOrder == 5) {
-- 
2.43.0


From 227a179f8ece4d1ec9e1991a9edb12237cdbd1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:18 +0000
Subject: [PATCH 30/31] fix: memory of arrays obtained with malloc is released
 with free

---
 src/base/DataArray1D.h | 2 +-
 src/base/DataArray2D.h | 2 +-
 src/base/DataArray3D.h | 2 +-
 src/base/DataArray4D.h | 2 +-
 src/base/DataStruct.h  | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/base/DataArray1D.h b/src/base/DataArray1D.h
index 5cbd4bb..ceb80ea 100644
--- a/src/base/DataArray1D.h
+++ b/src/base/DataArray1D.h
@@ -168,7 +168,7 @@ public:
 	///	</summary>
 	virtual void Detach() {
 		if ((m_fOwnsData) && (m_data != NULL)) {
-			delete[] m_data;
+			free(m_data);
 		}
 		m_fOwnsData = true;
 		m_data = NULL;
diff --git a/src/base/DataArray2D.h b/src/base/DataArray2D.h
index 9bff11b..49561f6 100644
--- a/src/base/DataArray2D.h
+++ b/src/base/DataArray2D.h
@@ -198,7 +198,7 @@ public:
 	///	</summary>
 	virtual void Detach() {
 		if ((m_fOwnsData) && (m_data1D != NULL)) {
-			delete[] m_data1D;
+			free(m_data1D);
 		}
 		m_fOwnsData = true;
 		m_data1D = NULL;
diff --git a/src/base/DataArray3D.h b/src/base/DataArray3D.h
index b0e4d60..c13e4b2 100644
--- a/src/base/DataArray3D.h
+++ b/src/base/DataArray3D.h
@@ -210,7 +210,7 @@ public:
 	///	</summary>
 	virtual void Detach() {
 		if ((m_fOwnsData) && (m_data1D != NULL)) {
-			delete[] m_data1D;
+			free(m_data1D);
 		}
 		m_fOwnsData = true;
 		m_data1D = NULL;
diff --git a/src/base/DataArray4D.h b/src/base/DataArray4D.h
index 22d96e6..8b21acb 100644
--- a/src/base/DataArray4D.h
+++ b/src/base/DataArray4D.h
@@ -228,7 +228,7 @@ public:
 	///	</summary>
 	virtual void Detach() {
 		if ((m_fOwnsData) && (m_data1D != NULL)) {
-			delete[] m_data1D;
+			free(m_data1D);
 		}
 		m_fOwnsData = true;
 		m_data1D = NULL;
diff --git a/src/base/DataStruct.h b/src/base/DataStruct.h
index 471f41a..0b5f67d 100644
--- a/src/base/DataStruct.h
+++ b/src/base/DataStruct.h
@@ -111,7 +111,7 @@ public:
 	///	</summary>
 	virtual void Detach() {
 		if ((m_fOwnsData) && (m_data != NULL)) {
-			delete[] m_data;
+			free(m_data);
 		}
 		m_fOwnsData = true;
 		m_data = NULL;
-- 
2.43.0


From 85f75e60a22c9667dc45cc62cdfa6a4d856ceeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:18 +0000
Subject: [PATCH 31/31] fix: assigning a DataArray2D to itself no longer clears
 it

---
 src/base/DataArray2D.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/base/DataArray2D.h b/src/base/DataArray2D.h
index 49561f6..a9a9780 100644
--- a/src/base/DataArray2D.h
+++ b/src/base/DataArray2D.h
@@ -301,8 +301,6 @@ public:
 				Allocate(da.m_sSize[0], da.m_sSize[1]);
 			}
 
-			Deallocate();
-			Allocate(da.m_sSize[0], da.m_sSize[1]);
 			m_eDataType = da.m_eDataType;
 			m_eDataLocation = da.m_eDataLocation;
 		}
-- 
2.43.0

