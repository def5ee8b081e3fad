From 670d4acccf46113316ebca3831b502d8fae4f689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 01/13] fix: keep side exchange send buffers alive and match
 entries by global side

The send buffer of the non-blocking sends was a loop-local array that was
overwritten and destroyed before the sends completed, and received entries
were stored by loop order although the two ranks loop in different orders.
---
 src/TychoMeshIO.cc | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/TychoMeshIO.cc b/src/TychoMeshIO.cc
index 42b95a2..71a00ff 100644
--- a/src/TychoMeshIO.cc
+++ b/src/TychoMeshIO.cc
@@ -296,7 +296,10 @@ void TychoMesh::readTychoMesh(const std::string &filename)
     
     
     // c_adjCellFromSide, c_adjFaceFromSide
+    // Each message is (global side, cell, face).
+    // The send buffers must stay valid until the sends complete.
     vector<MPI_Request> mpiRequests;
+    vector<vector<UINT>> sendBuffers;
     for(UINT  cell = 0; cell < g_nCells; cell++) {
     for(UINT face = 0; face < g_nFacePerCell; face++) {
         UINT adjProc = c_adjProc(cell, face);
@@ -304,11 +307,13 @@ void TychoMesh::readTychoMesh(const std::string &filename)
         
         if(adjCell == BOUNDARY_FACE && adjProc != BAD_RANK) {
             MPI_Request request;
-            UINT cellFace[2];
-            cellFace[0] = cell;
-            cellFace[1] = face;
-            MPI_Isend(cellFace, 2 * sizeof(UINT), MPI_CHAR, adjProc, 0, 
-                      MPI_COMM_WORLD, &request);
+            vector<UINT> sideCellFace(3);
+            sideCellFace[0] = c_lGSides(c_side(cell, face));
+            sideCellFace[1] = cell;
+            sideCellFace[2] = face;
+            sendBuffers.push_back(std::move(sideCellFace));
+            MPI_Isend(sendBuffers.back().data(), 3 * sizeof(UINT), MPI_CHAR, 
+                      adjProc, 0, MPI_COMM_WORLD, &request);
             mpiRequests.push_back(request);
         }
     }}
@@ -321,15 +326,15 @@ void TychoMesh::readTychoMesh(const std::string &filename)
         UINT adjCell = c_adjCell(cell, face);
         
         if(adjCell == BOUNDARY_FACE && adjProc != BAD_RANK) {
-            UINT cellFace[2];
-            MPI_Recv(cellFace, 2 * sizeof(UINT), MPI_CHAR, adjProc, 0, 
+            UINT sideCellFace[3];
+            MPI_Recv(sideCellFace, 3 * sizeof(UINT), MPI_CHAR, adjProc, 0, 
                      MPI_COMM_WORLD, MPI_STATUS_IGNORE);
-            c_adjCellFromSide(c_side(cell, face)) = cellFace[0];
-            c_adjFaceFromSide(c_side(cell, face)) = cellFace[1];
+            UINT side = getGLSide(sideCellFace[0]);
+            c_adjCellFromSide(side) = sideCellFace[1];
+            c_adjFaceFromSide(side) = sideCellFace[2];
         }
     }}
     
-    MPI_Waitall(mpiRequests.size(), &mpiRequests[0], MPI_STATUSES_IGNORE);
+    MPI_Waitall(mpiRequests.size(), mpiRequests.data(), MPI_STATUSES_IGNORE);
 }
 
-
-- 
2.43.0


From d304be7839b4fb56b2475aee8d522bc9356d135d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 02/13] fix: TychoMesh::getAdjFace returned the adjacent cell

---
 src/TychoMesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TychoMesh.hh b/src/TychoMesh.hh
index 5aba20b..980bd85 100644
--- a/src/TychoMesh.hh
+++ b/src/TychoMesh.hh
@@ -78,7 +78,7 @@ public:
     UINT getAdjCell(UINT cell, UINT face) const
         { return c_adjCell(cell, face); }
     UINT getAdjFace(UINT cell, UINT face) const
-        { return c_adjCell(cell, face); }
+        { return c_adjFace(cell, face); }
     UINT getSideCell(UINT side) const
         { return c_sideCell(side); }
     UINT getSide(UINT cell, UINT face) const
-- 
2.43.0


From 16bdd4dc673000287f3a835f95601ca9a0bf5512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:21 +0000
Subject: [PATCH 03/13] fix: deadlock of the Capsaicin communication mode
 without send buffering

Each rank waited for its sends to complete before receiving anything, so two
ranks sending to each other waited forever when the MPI library does not
buffer the messages.
---
 src/GraphTraverser.cc | 36 ++++++++++++++++++++++--------------
 src/GraphTraverser.hh |  3 ++-
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/GraphTraverser.cc b/src/GraphTraverser.cc
index d5e9881..ccb9717 100644
--- a/src/GraphTraverser.cc
+++ b/src/GraphTraverser.cc
@@ -180,11 +180,13 @@ UINT angleGroupIndex(UINT angle)
     sendData2Sided
 
     Implements two-sided MPI for sending data.
+    The sends are only started.  The caller must complete mpiSendRequests 
+    and keep sendBuffers unchanged until then.
 */
 void GraphTraverser::sendData2Sided(
-    const vector<vector<char>> &sendBuffers) const
+    const vector<vector<char>> &sendBuffers, 
+    vector<MPI_Request> &mpiSendRequests) const
 {
-    vector<MPI_Request> mpiSendRequests;
     UINT numAdjRanks = c_adjRankIndexToRank.size();
     int mpiError;
 
@@ -206,14 +208,6 @@ void GraphTraverser::sendData2Sided(
             mpiSendRequests.push_back(request);
         }
     }
-    
-    
-    // Make sure all sends are done
-    if (mpiSendRequests.size() > 0) {
-        mpiError = MPI_Waitall(mpiSendRequests.size(), mpiSendRequests.data(), 
-                               MPI_STATUSES_IGNORE);
-        Insist(mpiError == MPI_SUCCESS, "");
-    }
 }
 
 
@@ -238,12 +232,13 @@ void GraphTraverser::recvData2Sided(vector<char> &dataPackets) const
         // Probe for new message
         mpiError = MPI_Iprobe(adjRank, tag, MPI_COMM_WORLD, &flag, &mpiStatus);
         Insist(mpiError == MPI_SUCCESS, "");
-        mpiError = MPI_Get_count(&mpiStatus, MPI_BYTE, &recvCount);
-        Insist(mpiError == MPI_SUCCESS, "");
 
 
         // Recv message if there is one
         if (flag) {
+            mpiError = MPI_Get_count(&mpiStatus, MPI_BYTE, &recvCount);
+            Insist(mpiError == MPI_SUCCESS, "");
+            
             UINT originalSize = dataPackets.size();
             dataPackets.resize(originalSize + recvCount);
             
@@ -668,12 +663,25 @@ void GraphTraverser::traverse(const UINT maxComputePerStep,
                 sendAndRecvData(sendBuffers1, dataPackets, commDark, killComm);
             }
             else if (g_mpiType == MPIType_CapsaicinTwoSided) {
+                vector<MPI_Request> mpiSendRequests;
+                int sendsDone = 0;
+                
                 sendTimer.start();
-                sendData2Sided(sendBuffers1);
+                sendData2Sided(sendBuffers1, mpiSendRequests);
                 sendTimer.stop();
 
+                // Keep receiving until the sends are done.  A send may not 
+                // complete before the other rank, which could be sending to 
+                // this rank, has received it.
                 recvTimer.start();
-                recvData2Sided(dataPackets);
+                while (!sendsDone) {
+                    recvData2Sided(dataPackets);
+                    int mpiError = MPI_Testall(mpiSendRequests.size(), 
+                                               mpiSendRequests.data(), 
+                                               &sendsDone, 
+                                               MPI_STATUSES_IGNORE);
+                    Insist(mpiError == MPI_SUCCESS, "");
+                }
                 recvTimer.stop();
             }
             else {
diff --git a/src/GraphTraverser.hh b/src/GraphTraverser.hh
index 0784ca0..bd0c835 100644
--- a/src/GraphTraverser.hh
+++ b/src/GraphTraverser.hh
@@ -105,7 +105,8 @@ public:
 
 private:
 
-    void sendData2Sided(const std::vector<std::vector<char>> &sendBuffers) const;
+    void sendData2Sided(const std::vector<std::vector<char>> &sendBuffers,
+                        std::vector<MPI_Request> &mpiSendRequests) const;
     void recvData2Sided(std::vector<char> &dataPackets) const;
     void sendAndRecvData(const std::vector<std::vector<char>> &sendBuffers,
                          std::vector<char> &dataPackets,
-- 
2.43.0


From fc58dd727d15a67cb24f37aa5b23e28a1af03034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:43 +0000
Subject: [PATCH 04/13] fix: Sweeper keeps the size buffers of its non blocking
 sends alive

---
 src/Sweeper.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/Sweeper.cc b/src/Sweeper.cc
index 00a5921..b70c762 100644
--- a/src/Sweeper.cc
+++ b/src/Sweeper.cc
@@ -50,6 +50,7 @@ OF THE POSSIBILITY OF SUCH DAMAGE.
 #include <cmath>
 #include <iostream>
 #include <algorithm>
+#include <list>
 #include <omp.h>
 #include <mpi.h>
 
@@ -113,7 +114,7 @@ void setBoundData(PsiBoundData &psiBound, const vector<UINT> &commSides,
 static
 void send(const UINT step, const UINT angleGroup,
           Mat2<vector<UINT>> &commSidesAngles, Mat2<vector<double>> &commPsi,
-          vector<MPI_Request> &mpiRequests)
+          vector<MPI_Request> &mpiRequests, list<vector<UINT>> &sizeBuffers)
 {
     if (step < g_sweepSchedule[angleGroup]->nSteps()) {
         for (UINT proc : g_sweepSchedule[angleGroup]->getSendProcs(step)) {
@@ -121,7 +122,9 @@ void send(const UINT step, const UINT angleGroup,
             MPI_Request mpiRequest;
             UINT nSides = commSidesAngles(angleGroup, proc).size() / 2;
             UINT nData = commPsi(angleGroup, proc).size();
-            vector<UINT> nSidesData = {nSides, nData};
+            // The buffer has to exist until the non blocking send completes
+            sizeBuffers.push_back({nSides, nData});
+            const vector<UINT> &nSidesData = sizeBuffers.back();
             int tag0 = angleGroup * 3 + 0;
             int tag1 = angleGroup * 3 + 1;
             int tag2 = angleGroup * 3 + 2;
@@ -421,9 +424,11 @@ void Sweeper::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
             
             // Communication (Non blocking send followed by blocking recv)
             vector<MPI_Request> mpiRequests;
+            list<vector<UINT>> sizeBuffers;
             
             for (UINT angleGroup = 0; angleGroup < g_nAngleGroups; angleGroup++) {    
-                send(step, angleGroup, commSidesAngles, commPsi, mpiRequests);
+                send(step, angleGroup, commSidesAngles, commPsi, mpiRequests,
+                     sizeBuffers);
             }
             
             for (UINT angleGroup = 0; angleGroup < g_nAngleGroups; angleGroup++) {
@@ -472,7 +477,9 @@ void Sweeper::sweep(PsiData &psi, const PsiData &source, bool zeroPsiBound)
                 
                 // Nonblocking send and blocking recv
                 vector<MPI_Request> mpiRequests;
-                send(step, angleGroup, commSidesAngles, commPsi, mpiRequests);
+                list<vector<UINT>> sizeBuffers;
+                send(step, angleGroup, commSidesAngles, commPsi, mpiRequests,
+                     sizeBuffers);
                 recv(step, angleGroup, psiBound);
                 MPI_Waitall(mpiRequests.size(), &mpiRequests[0], 
                             MPI_STATUSES_IGNORE);
-- 
2.43.0


From ecbcdc3bd7a7825337d14039542d85549e9a2648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 05/13] fix: SweepSchedule construction deadlocked without send
 buffering

---
 src/SweepSchedule.cc | 93 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 71 insertions(+), 22 deletions(-)

diff --git a/src/SweepSchedule.cc b/src/SweepSchedule.cc
index 864c789..682a4fc 100644
--- a/src/SweepSchedule.cc
+++ b/src/SweepSchedule.cc
@@ -49,8 +49,10 @@ OF THE POSSIBILITY OF SUCH DAMAGE.
 #include <algorithm>
 #include <utility>
 #include <iostream>
+#include <list>
 #include <set>
 #include <queue>
+#include <mpi.h>
 
 
 using namespace std;
@@ -84,6 +86,55 @@ public:
 };
 
 
+/*
+    PendingSends
+
+    Non blocking sends and the buffers they use.
+    All ranks send to their neighbors before receiving from them, so blocking 
+    sends deadlock when MPI does not buffer the messages.
+*/
+struct PendingSends
+{
+    list<vector<UINT>> buffers;
+    vector<MPI_Request> requests;
+};
+
+const static int SIZE_TAG = 2;
+const static int DATA_TAG = 3;
+
+static
+void startSend(const vector<UINT> &data, const UINT proc, PendingSends &sends)
+{
+    MPI_Request request;
+    sends.buffers.push_back({data.size()});
+    Comm::iSendUIntVector(sends.buffers.back(), proc, SIZE_TAG, request);
+    sends.requests.push_back(request);
+    if (data.size() > 0) {
+        sends.buffers.push_back(data);
+        Comm::iSendUIntVector(sends.buffers.back(), proc, DATA_TAG, request);
+        sends.requests.push_back(request);
+    }
+}
+
+static
+void finishSends(PendingSends &sends)
+{
+    MPI_Waitall(sends.requests.size(), sends.requests.data(), 
+                MPI_STATUSES_IGNORE);
+}
+
+static
+void recvFrom(const UINT proc, vector<UINT> &data)
+{
+    vector<UINT> size(1);
+    Comm::recvUIntVector(size, proc, SIZE_TAG);
+    data.resize(size[0]);
+    if (data.size() > 0) {
+        Comm::recvUIntVector(data, proc, DATA_TAG);
+    }
+}
+
+
 /*
     calcNeighborProcs
 */
@@ -268,7 +319,8 @@ void sendLevels(const vector<SweepSchedule::Work> &workDone,
                 const vector<UINT> &angles, 
                 const Mat2<UINT> &cellLevels,
                 const Mat3<bool> &hasParent,
-                const set<UINT> &neighborProcs)
+                const set<UINT> &neighborProcs,
+                PendingSends &sends)
 {
     vector<vector<UINT> > commSidesAnglesLevels(Comm::numRanks());
     
@@ -292,11 +344,7 @@ void sendLevels(const vector<SweepSchedule::Work> &workDone,
     }
     
     for(UINT proc : neighborProcs) {
-        UINT nSides = commSidesAnglesLevels[proc].size()/3;
-        Comm::sendUInt(nSides, proc);
-        if (nSides > 0) {
-            Comm::sendUIntVector(commSidesAnglesLevels[proc], proc);
-        }
+        startSend(commSidesAnglesLevels[proc], proc, sends);
     }
 }
 
@@ -312,12 +360,10 @@ void recvLevels(Mat2<UINT> &cellLevels, Mat2<UINT> &sideLevels,
                    const set<UINT> &neighborProcs)
 {
     for (UINT proc : neighborProcs) {
-        UINT nSides;
-        Comm::recvUInt(nSides, proc);
+        vector<UINT> commSidesAnglesLevels;
+        recvFrom(proc, commSidesAnglesLevels);
+        UINT nSides = commSidesAnglesLevels.size() / 3;
         if (nSides > 0) {
-            vector<UINT> commSidesAnglesLevels(3*nSides);
-            Comm::recvUIntVector(commSidesAnglesLevels, proc);
-
             for (UINT child = 0; child < nSides; ++child) {
                 const UINT globalSide = commSidesAnglesLevels[child * 3];
                 const UINT angle = commSidesAnglesLevels[child * 3 + 1];
@@ -346,7 +392,8 @@ void sendOrders(const vector<SweepSchedule::Work> &workDone,
                 const vector<UINT> &angles, 
                 const Mat3<bool> &hasChild,
                 const set<UINT> &neighborProcs,
-                vector<vector<UINT> > &sendProcs)
+                vector<vector<UINT> > &sendProcs,
+                PendingSends &sends)
 {
     vector<vector<UINT> > commSidesAngles(Comm::numRanks());
     
@@ -369,10 +416,8 @@ void sendOrders(const vector<SweepSchedule::Work> &workDone,
 
     vector<UINT> stepSendProcs;
     for (UINT proc : neighborProcs) {
-        UINT nSides = commSidesAngles[proc].size()/2;
-        Comm::sendUInt(nSides, proc);
-        if (nSides > 0) {
-            Comm::sendUIntVector(commSidesAngles[proc], proc);
+        startSend(commSidesAngles[proc], proc, sends);
+        if (commSidesAngles[proc].size() > 0) {
             stepSendProcs.push_back(proc);
         }
     }
@@ -393,11 +438,10 @@ void recvOrders(priority_queue<PriorityWork> &availableWork,
     vector<UINT> stepRecvProcs;
     
     for (UINT proc : neighborProcs) {
-        UINT nSides;
-        Comm::recvUInt(nSides, proc);
+        vector<UINT> commSidesAngles;
+        recvFrom(proc, commSidesAngles);
+        UINT nSides = commSidesAngles.size() / 2;
         if (nSides > 0) {
-            vector<UINT> commSidesAngles(2*nSides);
-            Comm::recvUIntVector(commSidesAngles, proc);
             stepRecvProcs.push_back(proc);
             
             for (UINT parent = 0; parent < nSides; ++parent) {
@@ -446,9 +490,11 @@ void calcOrdering(const Mat3<bool> &hasChild,
         partialTopoSort(availableWork, nParentsNeeded, hasChild, priorities, 
                         maxCellsPerStep, angles, workDone);
         workOrders.push_back(workDone);
-        sendOrders(workDone, angles, hasChild, neighborProcs, sendProcs);
+        PendingSends sends;
+        sendOrders(workDone, angles, hasChild, neighborProcs, sendProcs, sends);
         recvOrders(availableWork, priorities, nParentsNeeded, neighborProcs, 
                    recvProcs);
+        finishSends(sends);
 
         UINT stepSize = workDone.size();
         Comm::gmax(stepSize);
@@ -493,9 +539,12 @@ UINT calcLevels(Mat2<UINT> &cellLevels,
         partialTopoSort(availableWork, nChildrenNeeded, hasParent, priorities, 
                         maxCellsPerStep, angles, workDone);
         updateLevels(workDone, angles, cellLevels, hasParent);
-        sendLevels(workDone, angles, cellLevels, hasParent, neighborProcs);
+        PendingSends sends;
+        sendLevels(workDone, angles, cellLevels, hasParent, neighborProcs, 
+                   sends);
         recvLevels(cellLevels, sideLevels, availableWork, priorities,
                    nChildrenNeeded, neighborProcs);
+        finishSends(sends);
     }
     
     UINT nlevels = cellLevels[0];
-- 
2.43.0


From fb85e7ace2e97a456e8ec3e5b1d66d33a9de01b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:32 +0000
Subject: [PATCH 06/13] fix: a face parallel to the direction of travel
 deadlocked the traversal

---
 src/GraphTraverser.cc | 3 ++-
 src/TychoMesh.hh      | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/GraphTraverser.cc b/src/GraphTraverser.cc
index ccb9717..21cf945 100644
--- a/src/GraphTraverser.cc
+++ b/src/GraphTraverser.cc
@@ -592,7 +592,8 @@ void GraphTraverser::traverse(const UINT maxComputePerStep,
                             isOutgoingWrtDirection[face] = false;
                         }
                         else {
-                            isOutgoingWrtDirection[face] = true;
+                            isOutgoingWrtDirection[face] = 
+                                g_tychoMesh->isIncoming(angle, cell, face);
                         }
                     }
                 }
diff --git a/src/TychoMesh.hh b/src/TychoMesh.hh
index 980bd85..f32bf0a 100644
--- a/src/TychoMesh.hh
+++ b/src/TychoMesh.hh
@@ -105,9 +105,9 @@ public:
     UINT getNeighborVrtx(const UINT cell, const UINT face, const UINT fvrtx) const
         { return c_neighborVrtx(cell, face, fvrtx); }
     bool isOutgoing(const UINT angle, const UINT cell, const UINT face) const
-        { return getOmegaDotN(angle, cell, face) > 0; }
+        { return getOmegaDotN(angle, cell, face) > GRAZING_TOL; }
     bool isIncoming(const UINT angle, const UINT cell, const UINT face) const
-        { return !isOutgoing(angle, cell, face); }
+        { return getOmegaDotN(angle, cell, face) < -GRAZING_TOL; }
     UINT getAdjCellFromSide(const UINT side) const
         { return c_adjCellFromSide(side); }
     UINT getAdjFaceFromSide(const UINT side) const
@@ -121,6 +121,11 @@ public:
     static const UINT NOT_BOUNDARY_FACE = UINT64_MAX;
     static const UINT BAD_RANK = UINT64_MAX;
     
+    // A face with |omega dot n| below this is neither incoming nor outgoing.
+    // Otherwise the two cells at a face parallel to omega could each be
+    // waiting for the other.
+    static constexpr double GRAZING_TOL = 1.e-10;
+    
 
     // Structures
     struct FaceCoords
-- 
2.43.0


From abde09ca7396d57f0faa233659209c7c41d1600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:33 +0000
Subject: [PATCH 07/13] fix: the side exchange expected packets for faces
 parallel to the direction

---
 src/CommSides.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CommSides.cc b/src/CommSides.cc
index 80a1ab7..dc47dba 100644
--- a/src/CommSides.cc
+++ b/src/CommSides.cc
@@ -92,7 +92,7 @@ CommSides::CommSides()
                         
                         c_numSendPackets[rankIndex]++;
                     }
-                    else {
+                    else if (g_tychoMesh->isIncoming(angle, cell, face)) {
                         c_numRecvPackets[rankIndex]++;
                     }
                 }
-- 
2.43.0


From 8b7aed5e38eb931569d273c0e085c2c9c3e8eb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:11 +0000
Subject: [PATCH 08/13] fix: values with trailing characters were read as
 numbers

---
 src/KeyValueReader.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/KeyValueReader.cc b/src/KeyValueReader.cc
index 6be286f..9a05cf9 100644
--- a/src/KeyValueReader.cc
+++ b/src/KeyValueReader.cc
@@ -410,7 +410,11 @@ void KeyValueReader::getInt(const std::string &key, int &value) const
     
     // Convert to int
     try {
-        value = stoi(valueString);
+        size_t numRead = 0;
+        const int converted = stoi(valueString, &numRead);
+        if (numRead != valueString.size())
+            throw ExceptionStringConversionError;
+        value = converted;
     }
     catch (...) {
         c_data->printMessage("Error converting value to int");
@@ -438,7 +442,11 @@ void KeyValueReader::getDouble(const std::string &key, double &value) const
     
     // Convert to double
     try {
-        value = stod(valueString);
+        size_t numRead = 0;
+        const double converted = stod(valueString, &numRead);
+        if (numRead != valueString.size())
+            throw ExceptionStringConversionError;
+        value = converted;
     }
     catch (...) {
         c_data->printMessage("Error converting value to double");
@@ -466,7 +474,11 @@ void KeyValueReader::getFloat(const std::string &key, float &value) const
     
     // Convert value to float
     try {
-        value = stof(valueString);
+        size_t numRead = 0;
+        const float converted = stof(valueString, &numRead);
+        if (numRead != valueString.size())
+            throw ExceptionStringConversionError;
+        value = converted;
     }
     catch (...) {
         c_data->printMessage("Error converting value to float");
-- 
2.43.0


From 7c1a80be002a6882e5b01d90e73196b6a33fe2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:50 +0000
Subject: [PATCH 09/13] fix: an unrecognised GaussElim option was silently
 accepted

---
 src/Main.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Main.cc b/src/Main.cc
index 8e4b39b..ecc167e 100644
--- a/src/Main.cc
+++ b/src/Main.cc
@@ -174,6 +174,8 @@ void readInput(const string &inputFileName,
         g_gaussElim = GaussElim_CramerGlu;
     else if (gaussElimMethod == "CramerIntel")
         g_gaussElim = GaussElim_CramerIntel;
+    else
+        Insist(false, "Gauss elimination method not recognized.");
 
 }
 
-- 
2.43.0


From fbb5d94074971f267f3fa7613d72872506adcb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:53 +0000
Subject: [PATCH 10/13] fix: the hat source was not a number at the center of
 the problem

---
 src/Problem.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Problem.cc b/src/Problem.cc
index 3e285b6..f2b1a48 100644
--- a/src/Problem.cc
+++ b/src/Problem.cc
@@ -69,7 +69,12 @@ void hatSource(PsiData &source)
         double c = sqrt(x*x + y*y + z*z);
         
         for(UINT group = 0; group < g_nGroups; group++) {
-            if(c <= 30.0) {
+            if(c == 0.0) {
+                // Tip of the hat where the gradient is not defined
+                source(group, vrtx, angle, cell) = 
+                    g_sigmaT[cell] - g_sigmaS[cell];
+            }
+            else if(c <= 30.0) {
                 source(group, vrtx, angle, cell) = 
                     - x / (30.0*c) * xi - y / (30.0*c) * eta - z / (30.0*c) * mu
                     + (g_sigmaT[cell] - g_sigmaS[cell]) * (1.0 - c / 30.0);
-- 
2.43.0


From 53809c300152236b67e11b1e583fb2e42c3899b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:21 +0000
Subject: [PATCH 11/13] fix: refining a mesh of fewer than 1000 cells divided
 by zero

---
 util/RefineSerialMesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/RefineSerialMesh.cc b/util/RefineSerialMesh.cc
index 8b93774..2c50ef1 100644
--- a/util/RefineSerialMesh.cc
+++ b/util/RefineSerialMesh.cc
@@ -377,7 +377,7 @@ void refineMesh(const SerialMesh &coarseMesh, SerialMesh &refinedMesh)
     // Create the refined mesh.
     for (uint64_t coarseCell = 0; coarseCell < coarseMesh.c_numCells; coarseCell++) {
         
-        if (coarseCell % (coarseMesh.c_numCells / 1000) == 0)
+        if (coarseCell % max<uint64_t>(1, coarseMesh.c_numCells / 1000) == 0)
             printf("coarseCell: %" PRIu64 "\n", coarseCell);
         
         
-- 
2.43.0


From 40cace8a72f7637f7ed546658219714e9c40eac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:12 +0000
Subject: [PATCH 12/13] fix: the tolerance of the refinement's node lookup was
 no ordering and duplicated nodes

---
 util/RefineSerialMesh.cc | 37 ++++++++-----------------------------
 1 file changed, 8 insertions(+), 29 deletions(-)

diff --git a/util/RefineSerialMesh.cc b/util/RefineSerialMesh.cc
index 2c50ef1..8c35998 100644
--- a/util/RefineSerialMesh.cc
+++ b/util/RefineSerialMesh.cc
@@ -63,28 +63,27 @@ using namespace std;
 struct NodeCoords
 {
     double coords[3];
-    static double graphDiameter;
     
     // Implement n1 < n2 needed for map structure.
+    // The comparison is exact.  The midpoint of an edge has the same coordinates 
+    // from every cell and a tolerance would not give a strict weak ordering.
     bool operator()(const NodeCoords &n1, const NodeCoords &n2) const
     {
-        double TOL = 1e-14 * graphDiameter;
-        if (n1.coords[0] < n2.coords[0] - TOL)
+        if (n1.coords[0] < n2.coords[0])
             return true;
-        if (n1.coords[0] > n2.coords[0] + TOL)
+        if (n1.coords[0] > n2.coords[0])
             return false;
-        if (n1.coords[1] < n2.coords[1] - TOL)
+        if (n1.coords[1] < n2.coords[1])
             return true;
-        if (n1.coords[1] > n2.coords[1] + TOL)
+        if (n1.coords[1] > n2.coords[1])
             return false;
-        if (n1.coords[2] < n2.coords[2] - TOL)
+        if (n1.coords[2] < n2.coords[2])
             return true;
-        if (n1.coords[2] > n2.coords[2] + TOL)
+        if (n1.coords[2] > n2.coords[2])
             return false;
         return false;
     }
 };
-double NodeCoords::graphDiameter;
 
 
 /*
@@ -354,26 +353,6 @@ void refineMesh(const SerialMesh &coarseMesh, SerialMesh &refinedMesh)
     std::map<FaceNodes, uint64_t, FaceNodes> faceMap;
     
     
-    // Get graph diameter per coordinate
-    // Used for a relative tolerance in implementing < for NodeCoords
-    const double DOUBLE_MAX = numeric_limits<double>::max();
-    double minCoords[3] = {DOUBLE_MAX, DOUBLE_MAX, DOUBLE_MAX};
-    double maxCoords[3] = {-DOUBLE_MAX, -DOUBLE_MAX, -DOUBLE_MAX};
-    for (uint64_t coarseCell = 0; coarseCell < coarseMesh.c_numCells; coarseCell++) {
-        
-        for (int lnode = 0; lnode < 4; lnode++) {
-            uint64_t node = coarseMesh.c_cellData[coarseCell].boundingNodes[lnode];
-            for (int i = 0; i < 3; i++) {
-                double coord = coarseMesh.c_nodeData[node].coords[i];
-                minCoords[i] = (coord < minCoords[i]) ? coord : minCoords[i];
-                maxCoords[i] = (coord > maxCoords[i]) ? coord : maxCoords[i];
-            }
-        }
-    }
-    NodeCoords::graphDiameter = max(maxCoords[0] - minCoords[0], 
-        max(maxCoords[1] - minCoords[1], maxCoords[2] - minCoords[2]));
-        
-    
     // Create the refined mesh.
     for (uint64_t coarseCell = 0; coarseCell < coarseMesh.c_numCells; coarseCell++) {
         
-- 
2.43.0


From c70590418b83e57adf7ada704c55555b0918055a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:13 +0000
Subject: [PATCH 13/13] fix: priorities below zero wrapped around to the
 highest ones

With the options DFDS and DFHDS a cell without descendants on another rank has
priority zero. Its parents got zero minus one in an unsigned number, that is the
highest priority there is instead of the lowest (in SweepSchedule the value also
did not fit the conversion from double).
---
 src/Priorities.cc    | 3 ++-
 src/SweepSchedule.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Priorities.cc b/src/Priorities.cc
index 084fc97..efdea06 100644
--- a/src/Priorities.cc
+++ b/src/Priorities.cc
@@ -245,7 +245,8 @@ public:
             
             else if (bdryType[face] == BoundaryType_OutInt) {
                 UINT adjCell = adjCellsSides[face];
-                priority = c_priorities(adjCell, angle) + c_parentShift;
+                if (c_priorities(adjCell, angle) > 0)
+                    priority = c_priorities(adjCell, angle) + c_parentShift;
             }
             
             c_priorities(cell, angle) = max(c_priorities(cell, angle), priority);
diff --git a/src/SweepSchedule.cc b/src/SweepSchedule.cc
index 682a4fc..669e9cd 100644
--- a/src/SweepSchedule.cc
+++ b/src/SweepSchedule.cc
@@ -601,7 +601,8 @@ void updatePriorities(Mat2<UINT> &priorities,
         for (UINT face = 0; face < g_nFacePerCell; ++face) {
             UINT adjCell = g_tychoMesh->getAdjCell(cell, face);
             if (hasParent(angle, cell, face) &&
-                adjCell != TychoMesh::BOUNDARY_FACE) // on processor
+                adjCell != TychoMesh::BOUNDARY_FACE && // on processor
+                priorities(angle, cell) > 0) // has off processor descendants
             {
                 priorities(angle, adjCell) =
                     max(priorities(angle, adjCell),
-- 
2.43.0

