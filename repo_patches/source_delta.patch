From 4ceacd18ed0264f03913c829fe6ccd3f3abea22b Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Thu, 19 Nov 2026 16:36:43 +0000
Subject: [PATCH 01/38] fix: convex hull area of collinear or coincident points
 read past the end of the points

---
 cpp/SgTriangulate.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/cpp/SgTriangulate.h b/cpp/SgTriangulate.h
index 94d7ef9..a084b9e 100644
--- a/cpp/SgTriangulate.h
+++ b/cpp/SgTriangulate.h
@@ -105,8 +105,9 @@ struct SgTriangulate_type {
         // create the first, non-degenerate triangle
         size_t lastIndexOfFirstTriangle = this->makeFirstTriangle();
 
-        // add the remaining points
-        for (int ip = lastIndexOfFirstTriangle + 1; ip < numPoints; ++ip) {
+        // add the remaining points (degenerate points may have been removed)
+        size_t numPointsLeft = this->points.size() / NDIMS_2D_PHYS;
+        for (size_t ip = lastIndexOfFirstTriangle + 1; ip < numPointsLeft; ++ip) {
             this->addPoint(ip);
         }
     }
@@ -195,22 +196,21 @@ struct SgTriangulate_type {
         size_t i1 = 1;
         size_t i2 = 2;
         double area = std::abs(this->getParallelipipedArea(i0, i1, i2));
-        while (i2 < numPoints && area < this->eps) {
+        while (area < this->eps) {
             // the points appear to be a line, get the two extremum point indices
             std::vector<size_t> extrema = this->getExtremaPointIndices(i0, i1, i2);
             i0 = extrema[0];
             i1 = extrema[1];
             // try creating a triangle using the next available point
             i2++;
+            if (i2 >= numPoints) {
+                // all the points are on a line, cannot create triangle
+                return numPoints - 1;
+            }
             area = std::abs(this->getParallelipipedArea(i0, i1, i2));
         }
         size_t lastPointIndexOfFirstTriangle = i2;
 
-        if (area < this->eps) {
-            // all the points are on a line, cannot create triangle
-            return lastPointIndexOfFirstTriangle;
-        }
-
         // got a non-degenerate triangle
         // re-order the indices so the area is positive
         std::vector<size_t> inds(3);
-- 
2.43.0


From 8dd8b49ca30451e2abf06698a5b37b550c300069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:52 +0000
Subject: [PATCH 02/38] fix: convex hull area counted edges between two new
 triangles as boundary edges

---
 cpp/SgTriangulate.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/cpp/SgTriangulate.h b/cpp/SgTriangulate.h
index a084b9e..0f51289 100644
--- a/cpp/SgTriangulate.h
+++ b/cpp/SgTriangulate.h
@@ -295,14 +295,20 @@ struct SgTriangulate_type {
                 std::vector<size_t> oldEdge(&(*it)[0], &(*it)[2]);
                 boundaryEdgesToRemove.insert(oldEdge);
 
-                // keep track of edges to add
+                // keep track of edges to add. An edge that is shared by two of the
+                // new triangles is internal and must not become a boundary edge
                 std::vector<size_t> newEdge(2);
-                newEdge[0] = iea;
-                newEdge[1] = ip;
-                boundaryEdgesToAdd.insert(newEdge);
-                newEdge[0] = ip;
-                newEdge[1] = ieb;
-                boundaryEdgesToAdd.insert(newEdge);
+                std::vector<size_t> oppositeEdge(2);
+                newEdge[0] = iea; newEdge[1] = ip;
+                oppositeEdge[0] = ip; oppositeEdge[1] = iea;
+                if (boundaryEdgesToAdd.erase(oppositeEdge) == 0) {
+                    boundaryEdgesToAdd.insert(newEdge);
+                }
+                newEdge[0] = ip; newEdge[1] = ieb;
+                oppositeEdge[0] = ieb; oppositeEdge[1] = ip;
+                if (boundaryEdgesToAdd.erase(oppositeEdge) == 0) {
+                    boundaryEdgesToAdd.insert(newEdge);
+                }
             }
         }
 
-- 
2.43.0


From 8e497fa42eede31a542034c058b0f173cb4bd1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:39 +0000
Subject: [PATCH 03/38] fix: iterating over conservative weights without any
 overlap dereferenced an invalid iterator

---
 cpp/SgConserveInterp2D.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/cpp/SgConserveInterp2D.h b/cpp/SgConserveInterp2D.h
index 0057ed3..1cc2f29 100644
--- a/cpp/SgConserveInterp2D.h
+++ b/cpp/SgConserveInterp2D.h
@@ -335,7 +335,9 @@ struct SgConserveInterp2D_type {
 	 */
 	void reset() {
 		this->weightIt = this->weights.begin();
-		this->weightIt2 = this->weightIt->second.begin();		
+		if (this->weightIt != this->weights.end()) {
+			this->weightIt2 = this->weightIt->second.begin();
+		}
 	}
 
 	/** 
@@ -343,13 +345,15 @@ struct SgConserveInterp2D_type {
 	 * @return 0 (= continue) or 1 (= stop)
 	 */
 	int next() {
+		if (this->weightIt == this->weights.end()) {
+			// there are no weights
+			return 1;
+		}
 		// increment source counter
 		this->weightIt2++;
 		if (this->weightIt2 == this->weightIt->second.end()) {
 			// reached end of src counter, increment dst counter
 			this->weightIt++;
-			// reset src counter
-			this->weightIt2 = this->weightIt->second.begin();
 			if (this->weightIt == this->weights.end()) {
 				// reached end of dst counter
 				// reset dst and src counters
@@ -357,6 +361,8 @@ struct SgConserveInterp2D_type {
 				// end of iteration 
 				return 1;
 			}
+			// reset src counter
+			this->weightIt2 = this->weightIt->second.begin();
 		}
 		return 0;
 	}
@@ -368,6 +374,13 @@ struct SgConserveInterp2D_type {
 	 * @param weight interpolation weight (output)
 	 */
 	void get(int* srcIndx, int* dstIndx, double* weight) {
+		if (this->weightIt == this->weights.end()) {
+			// there are no weights
+			*dstIndx = -1;
+			*srcIndx = -1;
+			*weight = 0;
+			return;
+		}
 		*dstIndx = this->weightIt->first;
 		*srcIndx = this->weightIt2->first;
 		*weight = this->weightIt2->second;
-- 
2.43.0


From 697b173f5268ea4bd317b0f510b26d4168b84988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:53 +0000
Subject: [PATCH 04/38] fix: conservative weights kept stale entries when
 computed again

---
 cpp/SgConserveInterp2D.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cpp/SgConserveInterp2D.h b/cpp/SgConserveInterp2D.h
index 1cc2f29..96659c2 100644
--- a/cpp/SgConserveInterp2D.h
+++ b/cpp/SgConserveInterp2D.h
@@ -153,6 +153,10 @@ struct SgConserveInterp2D_type {
 	 */
 	void computeWeights() {
 
+		// start from scratch, there may be weights from a previous call
+		this->weights.clear();
+		this->reset();
+
 		// cache the edge to edge intersections
 		std::map< std::pair< std::vector<size_t>, std::vector<size_t> >, std::vector<double> > cacheEdgeX;
 
@@ -328,6 +332,9 @@ struct SgConserveInterp2D_type {
 				this->weights.insert(p);
 			}
 		}
+
+		// point the iterators to the new weights
+		this->reset();
 	}
 
 	/**
-- 
2.43.0


From 2ca3c4c14fe1482d856b8744707086672069522d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:16 +0000
Subject: [PATCH 05/38] fix: computing weights leaked the linear solver of the
 intersectors

---
 cpp/SgQuadIntersect.cpp     | 1 -
 cpp/SgQuadIntersect.h       | 7 +++++++
 cpp/SgQuadLineIntersect.cpp | 1 -
 cpp/SgQuadLineIntersect.h   | 7 +++++++
 4 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cpp/SgQuadIntersect.cpp b/cpp/SgQuadIntersect.cpp
index 44ceb24..80cbf92 100644
--- a/cpp/SgQuadIntersect.cpp
+++ b/cpp/SgQuadIntersect.cpp
@@ -16,7 +16,6 @@ int SgQuadIntersect_new(SgQuadIntersect_type** self) {
 extern "C"                   
 int SgQuadIntersect_del(SgQuadIntersect_type** self) {
 
- 	if ((*self)->slvr) delete (*self)->slvr;
  	delete *self;
 
  	return 0;
diff --git a/cpp/SgQuadIntersect.h b/cpp/SgQuadIntersect.h
index ea312c9..77b7614 100644
--- a/cpp/SgQuadIntersect.h
+++ b/cpp/SgQuadIntersect.h
@@ -48,6 +48,13 @@ struct SgQuadIntersect_type {
         this->quad2Coords = NULL;
     }
 
+    /**
+     * Destructor
+     */
+    ~SgQuadIntersect_type() {
+        delete this->slvr;
+    }
+
     void reset() {
         this->intersectionPoints.resize(0);
     }
diff --git a/cpp/SgQuadLineIntersect.cpp b/cpp/SgQuadLineIntersect.cpp
index b6582dd..e7aa5aa 100644
--- a/cpp/SgQuadLineIntersect.cpp
+++ b/cpp/SgQuadLineIntersect.cpp
@@ -16,7 +16,6 @@ int SgQuadLineIntersect_new(SgQuadLineIntersect_type** self) {
 extern "C"                   
 int SgQuadLineIntersect_del(SgQuadLineIntersect_type** self) {
 
- 	if ((*self)->slvr) delete (*self)->slvr;
  	delete *self;
 
  	return 0;
diff --git a/cpp/SgQuadLineIntersect.h b/cpp/SgQuadLineIntersect.h
index 55502a2..aa45fe9 100644
--- a/cpp/SgQuadLineIntersect.h
+++ b/cpp/SgQuadLineIntersect.h
@@ -61,6 +61,13 @@ struct SgQuadLineIntersect_type {
         this->lineCoords = NULL;
     }
 
+    /**
+     * Destructor
+     */
+    ~SgQuadLineIntersect_type() {
+        delete this->slvr;
+    }
+
     void reset() {
         this->intersectionLambdas.resize(0);
     }
-- 
2.43.0


From e9188dd83b45b423d009feab52331889476a9044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:18 +0000
Subject: [PATCH 06/38] fix: setting a second grid kept the domain box and
 periodicity of the first and leaked the solver

---
 cpp/SgFindPointInCell.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cpp/SgFindPointInCell.h b/cpp/SgFindPointInCell.h
index f3980a4..b530db8 100644
--- a/cpp/SgFindPointInCell.h
+++ b/cpp/SgFindPointInCell.h
@@ -106,10 +106,11 @@ void setGrid(int ndims, const int dims[], const int periodicity[],
     this->rhs.resize(ndims);
     this->dIndices.resize(ndims);
     this->targetPoint.resize(ndims);
-    this->xmins.resize(ndims, std::numeric_limits<double>::max());
-    this->xmaxs.resize(ndims, -std::numeric_limits<double>::max());
+    // do not keep the domain box or the periodicity of a previous grid
+    this->xmins.assign(ndims, std::numeric_limits<double>::max());
+    this->xmaxs.assign(ndims, -std::numeric_limits<double>::max());
     // default is no periodicity
-    this->indexPeriodicity.resize(ndims, 0.0);
+    this->indexPeriodicity.assign(ndims, 0.0);
     for (int i = 0; i < ndims; ++i) {
         if (periodicity[i] != 0) {
             this->indexPeriodicity[i] = (double) dims[i];
@@ -142,6 +143,7 @@ void setGrid(int ndims, const int dims[], const int periodicity[],
     }
 
     // create a solver
+    if (this->slvr) delete this->slvr;
     this->slvr = new SgLinearSolve_type(ndims, ndims);
 }
 
-- 
2.43.0


From 1176f25339020db3597cdaa1b2c9b8a55ac6d0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:34 +0000
Subject: [PATCH 07/38] fix: flow interpolation leaked its grid iterators

---
 cpp/SgFlowInterp2D.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/cpp/SgFlowInterp2D.h b/cpp/SgFlowInterp2D.h
index 05ace57..ba64d1d 100644
--- a/cpp/SgFlowInterp2D.h
+++ b/cpp/SgFlowInterp2D.h
@@ -54,12 +54,7 @@ struct SgFlowInterp2D_type {
      * Destructor
      */
     ~SgFlowInterp2D_type() {
-        if (this->srcNodeIt) {
-            delete this->srcNodeIt;
-        }
-        for (size_t i = 0; i < this->srcEdgeIts.size(); ++i) {
-            delete this->srcEdgeIts[i];
-        }
+        this->deleteIterators();
     }
 
     /**
@@ -108,6 +103,7 @@ struct SgFlowInterp2D_type {
         int srcEdge1Dims[] = {dims[0], dims[1] - 1};
 
         const int zeros[] = {0, 0};
+        this->deleteIterators();
         this->srcNodeIt = new SgBoxIterator_type(2, zeros, dims);
         this->srcCellIt = new SgBoxIterator_type(2, zeros, srcCellDims);
         this->srcEdgeIts[0] = new SgBoxIterator_type(2, zeros, srcEdge0Dims);
@@ -291,6 +287,20 @@ struct SgFlowInterp2D_type {
 
 private:
 
+    /**
+     * Delete the iterators
+     */
+    void deleteIterators() {
+        delete this->srcNodeIt;
+        this->srcNodeIt = NULL;
+        delete this->srcCellIt;
+        this->srcCellIt = NULL;
+        for (size_t i = 0; i < this->srcEdgeIts.size(); ++i) {
+            delete this->srcEdgeIts[i];
+            this->srcEdgeIts[i] = NULL;
+        }
+    }
+
     /** 
      * Extract the destination cell coordinates from the grid
      * @param indx cell flat index
-- 
2.43.0


From 979514749f8a33e6f2c481f2cbb3576aa65b5c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:49 +0000
Subject: [PATCH 08/38] fix: flow weights were accumulated when computed again

---
 cpp/SgFlowInterp2D.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/SgFlowInterp2D.h b/cpp/SgFlowInterp2D.h
index ba64d1d..91c599d 100644
--- a/cpp/SgFlowInterp2D.h
+++ b/cpp/SgFlowInterp2D.h
@@ -192,6 +192,9 @@ struct SgFlowInterp2D_type {
         SgQuadLineIntersect_type intersector;
         SgQuadLineFlows_type weightCalc;
 
+        // start from scratch, there may be weights from a previous call
+        this->weights.clear();
+
         // iterate over the dst segments
         for (size_t dstIndx = 0; dstIndx < this->dstNumCells; ++dstIndx) {
 
-- 
2.43.0


From 600c362a10aae4d46faa87d854cb89d251907c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:59 +0000
Subject: [PATCH 09/38] fix: flux across a segment along a grid line was
 counted twice or not at all

---
 cpp/SgFlowInterp2D.h      | 76 +++++++++++++++++++++++++++++++--------
 cpp/SgQuadLineIntersect.h | 12 ++++++-
 2 files changed, 73 insertions(+), 15 deletions(-)

diff --git a/cpp/SgFlowInterp2D.h b/cpp/SgFlowInterp2D.h
index 91c599d..61f7eba 100644
--- a/cpp/SgFlowInterp2D.h
+++ b/cpp/SgFlowInterp2D.h
@@ -64,8 +64,6 @@ struct SgFlowInterp2D_type {
      */
     void setDstGrid(const int dims[], const double** coords) {
 
-        const double eps = 10 * std::numeric_limits<double>::epsilon();
-
         size_t dstNumPoints = 1;
         this->dstNumCells = 1;
         for (size_t j = 0; j < NDIMS_1D_TOPO; ++j) {
@@ -77,11 +75,7 @@ struct SgFlowInterp2D_type {
         this->dstGrdCoords.resize(NDIMS_2D_PHYS * dstNumPoints);
         for (size_t k = 0; k < NDIMS_2D_PHYS; ++k) {
             for (size_t i = 0; i < dstNumPoints; ++i) {
-                //this->dstGrdCoords[i*NDIMS_2D_PHYS + k] = coords[k][i];
-                // apply small perturbation
-                double pertAngle = 1.99 * M_PI * double(i)/double(dstNumPoints - 1);
-                double pertAmpl = eps * (k + 1);
-                this->dstGrdCoords[i*NDIMS_2D_PHYS + k] = coords[k][i] + pertAmpl*cos(pertAngle);
+                this->dstGrdCoords[i*NDIMS_2D_PHYS + k] = coords[k][i];
             }
         }
     }
@@ -203,6 +197,10 @@ struct SgFlowInterp2D_type {
 
             intersector.setLinePoints(dstLineCoords);
 
+            // portions of the segment that have been attributed to a src cell, a
+            // portion that runs along an edge shared by two cells must count once
+            std::vector< std::pair<double, double> > claimed;
+
             // iterate over the src quads
             for (size_t srcIndx = 0; srcIndx < this->srcNumCells; ++srcIndx) {
 
@@ -246,14 +244,32 @@ struct SgFlowInterp2D_type {
                     weightCalc.setQuadPoints(srcQuadCoords);
 
                     // iterate over the segments
+                    const std::vector<double>& lambdas = intersector.getIntersectionLambdas();
                     for (int i = 0; i < numPoints - 1; ++i) {
-                        weightCalc.setLinePoints(&points[i*NDIMS_2D_PHYS]);
-                        weightCalc.computeProjections();
-                        
-                        w[0] += weightCalc.getProjection(EDGE_LO_0);
-                        w[1] += weightCalc.getProjection(EDGE_HI_0);
-                        w[2] += weightCalc.getProjection(EDGE_LO_1);
-                        w[3] += weightCalc.getProjection(EDGE_HI_1);
+
+                        // the parts of this segment that are not yet attributed to another cell
+                        std::vector< std::pair<double, double> > parts;
+                        this->getUnclaimedParts(claimed, lambdas[i], lambdas[i + 1], parts);
+
+                        for (size_t ip = 0; ip < parts.size(); ++ip) {
+
+                            double partCoords[2*NDIMS_2D_PHYS];
+                            for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
+                                double x0 = dstLineCoords[j];
+                                double dx = dstLineCoords[NDIMS_2D_PHYS + j] - x0;
+                                partCoords[j] = x0 + parts[ip].first*dx;
+                                partCoords[NDIMS_2D_PHYS + j] = x0 + parts[ip].second*dx;
+                            }
+                            weightCalc.setLinePoints(partCoords);
+                            weightCalc.computeProjections();
+
+                            w[0] += weightCalc.getProjection(EDGE_LO_0);
+                            w[1] += weightCalc.getProjection(EDGE_HI_0);
+                            w[2] += weightCalc.getProjection(EDGE_LO_1);
+                            w[3] += weightCalc.getProjection(EDGE_HI_1);
+
+                            claimed.push_back(parts[ip]);
+                        }
                     }
                     // done
 
@@ -290,6 +306,38 @@ struct SgFlowInterp2D_type {
 
 private:
 
+    /**
+     * Get the parts of an interval that do not overlap with other intervals
+     * @param claimed intervals to exclude
+     * @param lo low end of the interval
+     * @param hi high end of the interval
+     * @param parts the remaining parts (output)
+     */
+    void getUnclaimedParts(const std::vector< std::pair<double, double> >& claimed,
+                           double lo, double hi,
+                           std::vector< std::pair<double, double> >& parts) const {
+
+        // parts smaller than this are due to round off
+        const double eps = 100 * std::numeric_limits<double>::epsilon();
+
+        parts.clear();
+        parts.push_back(std::pair<double, double>(lo, hi));
+        for (size_t i = 0; i < claimed.size(); ++i) {
+            std::vector< std::pair<double, double> > remaining;
+            for (size_t j = 0; j < parts.size(); ++j) {
+                double below = std::min(parts[j].second, claimed[i].first);
+                double above = std::max(parts[j].first, claimed[i].second);
+                if (below - parts[j].first > eps) {
+                    remaining.push_back(std::pair<double, double>(parts[j].first, below));
+                }
+                if (parts[j].second - above > eps) {
+                    remaining.push_back(std::pair<double, double>(above, parts[j].second));
+                }
+            }
+            parts = remaining;
+        }
+    }
+
     /**
      * Delete the iterators
      */
diff --git a/cpp/SgQuadLineIntersect.h b/cpp/SgQuadLineIntersect.h
index aa45fe9..68d6f01 100644
--- a/cpp/SgQuadLineIntersect.h
+++ b/cpp/SgQuadLineIntersect.h
@@ -82,7 +82,9 @@ struct SgQuadLineIntersect_type {
       // of the low corner points
       bool overlap = true;
       for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
-        overlap &= std::min(this->quadMax[j], this->lineMax[j]) >= std::max(this->quadMin[j], this->lineMin[j]);
+        // a line running along the side of the quad may be off by a round off error
+        double delta = this->tol * std::max(std::abs(this->quadMin[j]), std::abs(this->quadMax[j]));
+        overlap &= std::min(this->quadMax[j], this->lineMax[j]) + delta >= std::max(this->quadMin[j], this->lineMin[j]);
       }
       return overlap;
     }
@@ -130,6 +132,14 @@ struct SgQuadLineIntersect_type {
         return this->intersectionPoints;
     }
 
+    /**
+     * Get the linear parametric coefficients of the intersection points gathered so far
+     * @return array
+     */
+    const std::vector<double>& getIntersectionLambdas() const {
+        return this->intersectionLambdas;
+    }
+
     /**
      * Is point inside quad?
      * @param point target coordinates
-- 
2.43.0


From 1a8cba184398c28e051bea47f2e40b4dabdd181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:21 +0000
Subject: [PATCH 10/38] fix: over- and under-determined row-major systems were
 solved as if they were column-major

---
 cpp/SgLinearSolve.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cpp/SgLinearSolve.h b/cpp/SgLinearSolve.h
index 384043d..c209c2a 100644
--- a/cpp/SgLinearSolve.h
+++ b/cpp/SgLinearSolve.h
@@ -83,13 +83,14 @@ struct SgLinearSolve_type {
     int errCode = 0;
     char t = 'T'; // C storage
     int nrhs = 1;
-    int ldb = (int) this->b.size();
+    int ldb = (int) this->x.size();
+    // the row major matrix is the transpose of a ncol x nrow Fortran matrix
     _GELS_(&t, 
-           &this->nrow, 
            &this->ncol, 
+           &this->nrow, 
            &nrhs,
            &this->mat.front(), 
-           &this->nrow,
+           &this->ncol,
            &this->x.front(), &ldb,
            &this->work.front(), &this->lwork, 
            &errCode);
-- 
2.43.0


From 992dcc0a57ade3bdbc8bb48da77d73c6ea5fe7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:38 +0000
Subject: [PATCH 11/38] fix: solving again with a new right hand side used the
 factorised matrix

---
 cpp/SgLinearSolve.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp/SgLinearSolve.h b/cpp/SgLinearSolve.h
index c209c2a..1b5fccb 100644
--- a/cpp/SgLinearSolve.h
+++ b/cpp/SgLinearSolve.h
@@ -7,6 +7,7 @@
 
 #include <vector>
 #include <cstdlib> // std::max
+#include <algorithm> // std::copy
 #include <cmath> // fabs
 
 // Fortran name mangling
@@ -84,6 +85,10 @@ struct SgLinearSolve_type {
     char t = 'T'; // C storage
     int nrhs = 1;
     int ldb = (int) this->x.size();
+    // the solver overwrites the matrix and the right hand side, start from
+    // the original values so one can solve more than once
+    this->mat = this->matOri;
+    std::copy(this->b.begin(), this->b.end(), this->x.begin());
     // the row major matrix is the transpose of a ncol x nrow Fortran matrix
     _GELS_(&t, 
            &this->ncol, 
-- 
2.43.0


From d7b1bef3c6edb78fdd7bc73f8bca554854606010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 12/38] fix: nodal weights were dropped when the target was
 found from a side of the grid

---
 cpp/SgNodeInterp2D.h | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/cpp/SgNodeInterp2D.h b/cpp/SgNodeInterp2D.h
index 0359048..85d9bbc 100644
--- a/cpp/SgNodeInterp2D.h
+++ b/cpp/SgNodeInterp2D.h
@@ -166,12 +166,7 @@ struct SgNodeInterp2D_type {
 
             if (ier == 0) {
                 // normal termination, found the index location
-                const std::vector<double>& dInds = this->pointFinder->getIndices();
-                const std::vector< std::pair<size_t, double> > 
-                    iw = this->pointFinder->getSrcIndicesAndWeights(dInds);
-                std::pair<size_t, std::vector< std::pair<size_t, double> > > p(dstNodeIndex, iw);
-                this->weights.insert(p);
-
+                this->setTargetWeights(dstNodeIndex);
             }
             else if (ier == -3) {
               std::cerr << "WARNING: target point " << 
@@ -199,7 +194,10 @@ struct SgNodeInterp2D_type {
                     stop = sit.next();
                 }
 
-                if (ier != 0) {
+                if (ier == 0) {
+                    this->setTargetWeights(dstNodeIndex);
+                }
+                else {
                     std::cerr << "ERROR: failed to find the index point for " << 
                           targetPoint[0] << ", " << targetPoint[1] << '\n';
                     std::vector<double> pos = this->pointFinder->getPosition();
@@ -214,6 +212,15 @@ struct SgNodeInterp2D_type {
 
 private:
 
+    /**
+     * Set the weights of a destination node from the index position that was found
+     * @param dstNodeIndex flat index of the destination node
+     */
+    void setTargetWeights(size_t dstNodeIndex) {
+        this->weights[dstNodeIndex] = 
+            this->pointFinder->getSrcIndicesAndWeights(this->pointFinder->getIndices());
+    }
+
     /**
      * Find target
      * @param target position
-- 
2.43.0


From b10adc2336a1122cf196764b25e601454d785706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:32 +0000
Subject: [PATCH 13/38] fix: intersection points of previous calls were
 returned again

---
 cpp/SgQuadIntersect.h     | 3 +++
 cpp/SgQuadLineIntersect.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cpp/SgQuadIntersect.h b/cpp/SgQuadIntersect.h
index 77b7614..9eb7cba 100644
--- a/cpp/SgQuadIntersect.h
+++ b/cpp/SgQuadIntersect.h
@@ -231,6 +231,9 @@ struct SgQuadIntersect_type {
      */
     void collectIntersectPoints(int* numPoints, double** points) {
 
+        // forget about the points of a previous call
+        this->reset();
+
         *numPoints = 0;
         double pt[NDIMS_2D_PHYS];
 
diff --git a/cpp/SgQuadLineIntersect.h b/cpp/SgQuadLineIntersect.h
index 68d6f01..1f4fbd1 100644
--- a/cpp/SgQuadLineIntersect.h
+++ b/cpp/SgQuadLineIntersect.h
@@ -251,6 +251,9 @@ struct SgQuadLineIntersect_type {
      */
     void collectIntersectPoints(int* numPoints, double** points) {
 
+        // forget about the points of a previous call
+        this->reset();
+
         *numPoints = 0;
 
         // add the starting line point if inside the quad
-- 
2.43.0


From 1b0884856a68fc96a85197311b0cf6c42f5cb0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:25 +0000
Subject: [PATCH 14/38] fix: flat indices of overlapping cells used node
 instead of cell dimensions

---
 cpp/SgFindOverlappingCells2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/SgFindOverlappingCells2D.h b/cpp/SgFindOverlappingCells2D.h
index 478955a..e9e4608 100644
--- a/cpp/SgFindOverlappingCells2D.h
+++ b/cpp/SgFindOverlappingCells2D.h
@@ -78,7 +78,7 @@ struct SgFindOverlappingCells2D_type {
         this->srcCellProdDims[NDIMS_2D_TOPO - 1] = 1;
         for (int j = NDIMS_2D_TOPO - 2; j >= 0; --j) {
             // last index varies fastest
-            this->srcCellProdDims[j] = this->srcCellProdDims[j + 1] * dims[j + 1];
+            this->srcCellProdDims[j] = this->srcCellProdDims[j + 1] * (dims[j + 1] - 1);
           }
         this->pointFinder->setGrid(2, dims, periodicity, coords);
     }
-- 
2.43.0


From 9dd8bdb3825e475e3ff034b904619388eaff2f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:44 +0000
Subject: [PATCH 15/38] fix: cells were missed when a vertex of the polygon is
 outside the grid

---
 cpp/SgFindOverlappingCells2D.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cpp/SgFindOverlappingCells2D.h b/cpp/SgFindOverlappingCells2D.h
index e9e4608..484fed6 100644
--- a/cpp/SgFindOverlappingCells2D.h
+++ b/cpp/SgFindOverlappingCells2D.h
@@ -123,8 +123,16 @@ struct SgFindOverlappingCells2D_type {
 
             bool iterFlag = true;
 
-            // make this polygon's point th etarget point
-            const double* targetPoint = &this->polyPoints[i*NDIMS_2D_PHYS];
+            // make this polygon's point the target point, or the closest point of the 
+            // src domain box if the polygon's point is outside the box
+            const double* xmins = this->pointFinder->getSrcDomainLo();
+            const double* xmaxs = this->pointFinder->getSrcDomainHi();
+            double targetPoint[NDIMS_2D_PHYS];
+            for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
+                targetPoint[j] = this->polyPoints[i*NDIMS_2D_PHYS + j];
+                targetPoint[j] = (targetPoint[j] >= xmins[j]? targetPoint[j]: xmins[j]);
+                targetPoint[j] = (targetPoint[j] <= xmaxs[j]? targetPoint[j]: xmaxs[j]);
+            }
 
             // start search
             this->pointFinder->reset(dIndices, targetPoint);
@@ -139,7 +147,6 @@ struct SgFindOverlappingCells2D_type {
             // error handling. In the case where the target point is outside the src grid, 
             // we expect pointFinder to return the index location just inside the src grid
             // corresponding to the physical position that is closest to the target point. 
-            // I don't think we need to do anything special... TO CHECK!!!
             //if (ier < 0) {
             //    std::cerr << "ERROR: failed to find the index point for " << 
             //         this->polyPoints[i*NDIMS_2D_PHYS] << ", " << this->polyPoints[i*NDIMS_2D_PHYS + 1] << '\n';
-- 
2.43.0


From c29cdf7b08619b8aded1b634b8c0fdc77c5526e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:44 +0000
Subject: [PATCH 16/38] fix: points on the border of a large domain were
 reported to be outside

---
 cpp/SgFindPointInCell.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cpp/SgFindPointInCell.h b/cpp/SgFindPointInCell.h
index b530db8..8f40660 100644
--- a/cpp/SgFindPointInCell.h
+++ b/cpp/SgFindPointInCell.h
@@ -7,6 +7,7 @@
  
 #include <vector>
 #include <cstdio> // size_t
+#include <algorithm>
 #include <cmath>
 #include <limits>
 #include <iostream>
@@ -219,8 +220,10 @@ int next() {
     // THIS SHOULD BE MOVED TO THE reset METHOD!!!!!
     bool inside = true;
     for (size_t i = 0; i < ndims; ++i) {
-        inside &= this->targetPoint[i] >= this->xmins[i] - eps;
-        inside &= this->targetPoint[i] <= this->xmaxs[i] + eps;
+        // round off errors scale with the magnitude of the coordinates
+        double delta = eps * std::max(1.0, std::max(std::abs(this->xmins[i]), std::abs(this->xmaxs[i])));
+        inside &= this->targetPoint[i] >= this->xmins[i] - delta;
+        inside &= this->targetPoint[i] <= this->xmaxs[i] + delta;
     }
     if (!inside) {
         return -3;
-- 
2.43.0


From 00ff13195b154b0614cec6876d2aea45bae515db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:44 +0000
Subject: [PATCH 17/38] fix: a negative number without leading zero was taken
 for the name of an option

---
 utils/CmdLineArgParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utils/CmdLineArgParser.cpp b/utils/CmdLineArgParser.cpp
index 881dc49..ae412ba 100644
--- a/utils/CmdLineArgParser.cpp
+++ b/utils/CmdLineArgParser.cpp
@@ -73,8 +73,10 @@ CmdLineArgParser::parse(int argc, char *argv[]) {
     for (int a = 1; a < argc; ++a) {
         std::string arg(argv[a]);
         // is arg the name of an option (or a value)?
+        // (a value can be a negative number, eg -1 or -.5)
         bool isOptionName = (arg[0] == '-') 
-            && (arg.size() >= 2) && !isdigit(arg[1]);
+            && (arg.size() >= 2) && !isdigit(arg[1])
+            && !(arg[1] == '.' && arg.size() >= 3 && isdigit(arg[2]));
         if (isOptionName) {
             bool isValidOptName = 
                doubleArg.find(arg) != doubleArg.end()
-- 
2.43.0


From 0895b3239b9efd6ba0d9d76a0abff21c32234819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:44 +0000
Subject: [PATCH 18/38] fix: the last element of a list of integers was read as
 a double

---
 utils/CmdLineArgParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/CmdLineArgParser.cpp b/utils/CmdLineArgParser.cpp
index ae412ba..ed86e76 100644
--- a/utils/CmdLineArgParser.cpp
+++ b/utils/CmdLineArgParser.cpp
@@ -302,7 +302,7 @@ CmdLineArgParser::get<std::vector<int> >(const std::string& name) const {
             pos0 = pos1 + 1;
             pos1 = str.find(',', pos0);
         }
-        res.push_back(std::atof(str.substr(pos0, pos1 - pos0).c_str()));
+        res.push_back(std::atoi(str.substr(pos0, pos1 - pos0).c_str()));
     }
     return res;
 }
\ No newline at end of file
-- 
2.43.0


From 0b76900c63076f2f13e7804cc3f632f90956e1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:44 +0000
Subject: [PATCH 19/38] fix: the center of a polar grid was added to the radius
 and angle

---
 utils/createGrids2D.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utils/createGrids2D.cpp b/utils/createGrids2D.cpp
index aa375a9..e79cdba 100644
--- a/utils/createGrids2D.cpp
+++ b/utils/createGrids2D.cpp
@@ -52,10 +52,10 @@ void createPolarGrid(const int nodeDims[],
     size_t index = 0;
     for (size_t i = 0; i < nodeDims[0]; ++i) {
         for (size_t j = 0; j < nodeDims[1]; ++j) {
-            double rho = center[0] + deltas[0]*i;
-            double the = center[1] + deltas[1]*j;
-            coords[0][index] = rho*cos(the);
-            coords[1][index] = rho*sin(the);
+            double rho = deltas[0]*i;
+            double the = deltas[1]*j;
+            coords[0][index] = center[0] + rho*cos(the);
+            coords[1][index] = center[1] + rho*sin(the);
             index++;
         }
     }
-- 
2.43.0


From 0845a36ad354771102903fa5f10c2803369680a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:25 +0000
Subject: [PATCH 20/38] fix: the python class ignored the type and memory
 layout of the arrays

---
 py/conserveInterp2D.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/py/conserveInterp2D.py b/py/conserveInterp2D.py
index 0037bd3..da9a1dd 100644
--- a/py/conserveInterp2D.py
+++ b/py/conserveInterp2D.py
@@ -29,6 +29,9 @@ class ConserveInterp2D:
 		@param xcoords array of point coordinates
 		@param ycoords array of point coordinates
 		"""
+		# the library expects contiguous arrays of doubles
+		xcoords = numpy.ascontiguousarray(xcoords, numpy.float64)
+		ycoords = numpy.ascontiguousarray(ycoords, numpy.float64)
 		n0, n1 = xcoords.shape
 		dims = (ctypes.c_int * NDIMS)(n0, n1)
 		coords = (ctypes.POINTER(ctypes.c_double) * NDIMS)(xcoords.ctypes.data_as(ctypes.POINTER(ctypes.c_double)),
@@ -44,6 +47,9 @@ class ConserveInterp2D:
 		@param xcoords array of point coordinates
 		@param ycoords array of point coordinates 
 		"""
+		# the library expects contiguous arrays of doubles
+		xcoords = numpy.ascontiguousarray(xcoords, numpy.float64)
+		ycoords = numpy.ascontiguousarray(ycoords, numpy.float64)
 		n0, n1 = xcoords.shape
 		dims = (ctypes.c_int * NDIMS)(n0, n1)
 		p0, p1 = int(periodicity[0]), int(periodicity[1])
@@ -61,6 +67,7 @@ class ConserveInterp2D:
 		"""
 		if not self.hasInterpWeights:
 			raise RuntimeError('ERROR: must call "computeWeights" prior to invoking "apply"')
+		srcData = numpy.ascontiguousarray(srcData, numpy.float64)
 		self.dstData *= 0 # initialize to zero
 		sigrid.so.SgConserveInterp2D_apply(ctypes.byref(self.handle),
 			                               srcData.ctypes.data_as(ctypes.POINTER(ctypes.c_double)),
-- 
2.43.0


From 1c9027812dcfbab1db267d1e10ee62ea1769a119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:25 +0000
Subject: [PATCH 21/38] fix: the python class applied the weights of another
 grid

---
 py/conserveInterp2D.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py/conserveInterp2D.py b/py/conserveInterp2D.py
index da9a1dd..2c7bf16 100644
--- a/py/conserveInterp2D.py
+++ b/py/conserveInterp2D.py
@@ -39,6 +39,7 @@ class ConserveInterp2D:
 
 		sigrid.so.SgConserveInterp2D_setDstGrid(ctypes.byref(self.handle), dims, coords)
 		self.dstData = numpy.zeros((n0 - 1, n1 - 1), numpy.float64)
+		self.hasInterpWeights = False # weights were for another grid
 
 	def setSrcGrid(self, periodicity, xcoords, ycoords):
 		"""
@@ -58,6 +59,7 @@ class ConserveInterp2D:
 		                                                   ycoords.ctypes.data_as(ctypes.POINTER(ctypes.c_double)))
 		sigrid.so.SgConserveInterp2D_setSrcGrid(ctypes.byref(self.handle), dims, periods, coords)
 		self.hasSrcCoords = True
+		self.hasInterpWeights = False # weights were for another grid
 
 	def apply(self, srcData):
 		"""
-- 
2.43.0


From ae237e0e7d9dbea82d591546598716da55f5be00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:25 +0000
Subject: [PATCH 22/38] fix: the python class returned its internal buffer,
 which the next call overwrites

---
 py/conserveInterp2D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py/conserveInterp2D.py b/py/conserveInterp2D.py
index 2c7bf16..c74c4ab 100644
--- a/py/conserveInterp2D.py
+++ b/py/conserveInterp2D.py
@@ -70,11 +70,11 @@ class ConserveInterp2D:
 		if not self.hasInterpWeights:
 			raise RuntimeError('ERROR: must call "computeWeights" prior to invoking "apply"')
 		srcData = numpy.ascontiguousarray(srcData, numpy.float64)
-		self.dstData *= 0 # initialize to zero
+		self.dstData.fill(0) # initialize to zero
 		sigrid.so.SgConserveInterp2D_apply(ctypes.byref(self.handle),
 			                               srcData.ctypes.data_as(ctypes.POINTER(ctypes.c_double)),
 			                               self.dstData.ctypes.data_as(ctypes.POINTER(ctypes.c_double)))
-		return self.dstData
+		return self.dstData.copy() # a later call must not change this result
 
 	def computeWeights(self):
 		"""
-- 
2.43.0


From 42cee50073b1cd4867d779e2f8d55ff56a538386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:15 +0000
Subject: [PATCH 23/38] fix: flux along the grid lines of a rotated grid was
 lost when the line is much longer than the cells

---
 cpp/SgFindPointInCell.h   | 4 +++-
 cpp/SgQuadLineIntersect.h | 7 ++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/cpp/SgFindPointInCell.h b/cpp/SgFindPointInCell.h
index 8f40660..ac912eb 100644
--- a/cpp/SgFindPointInCell.h
+++ b/cpp/SgFindPointInCell.h
@@ -215,13 +215,15 @@ int next() {
 
     size_t ndims = this->dims.size();
     const double eps = 100*std::numeric_limits<double>::epsilon();
+    // a point that is found to be on the border of a cell can be off by this much
+    const double epsDomain = 1.e-10;
 
     // check if inside domain
     // THIS SHOULD BE MOVED TO THE reset METHOD!!!!!
     bool inside = true;
     for (size_t i = 0; i < ndims; ++i) {
         // round off errors scale with the magnitude of the coordinates
-        double delta = eps * std::max(1.0, std::max(std::abs(this->xmins[i]), std::abs(this->xmaxs[i])));
+        double delta = epsDomain * std::max(1.0, std::max(std::abs(this->xmins[i]), std::abs(this->xmaxs[i])));
         inside &= this->targetPoint[i] >= this->xmins[i] - delta;
         inside &= this->targetPoint[i] <= this->xmaxs[i] + delta;
     }
diff --git a/cpp/SgQuadLineIntersect.h b/cpp/SgQuadLineIntersect.h
index 1f4fbd1..6b031ec 100644
--- a/cpp/SgQuadLineIntersect.h
+++ b/cpp/SgQuadLineIntersect.h
@@ -51,9 +51,10 @@ struct SgQuadLineIntersect_type {
      */
      SgQuadLineIntersect_type() {
 
-        // tolerance for floating point comparisons
-        //this->tol = 1.e-10;
-        this->tol = 100 * std::numeric_limits<double>::epsilon();
+        // tolerance for floating point comparisons. This must be larger than the 
+        // round off error of the position of a node relative to a line that is much
+        // longer than the edges of the quad
+        this->tol = 1.e-11;
 
         this->slvr = new SgLinearSolve_type(2, 2);
 
-- 
2.43.0


From 97a8aeb889c5f56ce3223b8c2cf084dfc3b6dba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:34 +0000
Subject: [PATCH 24/38] fix: a zero matrix was not reported as singular

---
 cpp/SgLinearSolve.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cpp/SgLinearSolve.h b/cpp/SgLinearSolve.h
index 1b5fccb..58cb0b9 100644
--- a/cpp/SgLinearSolve.h
+++ b/cpp/SgLinearSolve.h
@@ -100,6 +100,15 @@ struct SgLinearSolve_type {
            &this->work.front(), &this->lwork, 
            &errCode);
 
+    // LAPACK does not flag a zero matrix as singular
+    if (errCode == 0) {
+        bool allZero = true;
+        for (size_t i = 0; i < this->matOri.size(); ++i) {
+            allZero &= (this->matOri[i] == 0);
+        }
+        if (allZero) errCode = 1;
+    }
+
     // if errCode == -i, the i-th argument had an illegal value
     // if errCode == i, the i-th diagonal element of the
     //                  triangular factor of A is zero, so that 
-- 
2.43.0


From 61b1128c40689fb47bd96c26810cfdce592697b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:18 +0000
Subject: [PATCH 25/38] fix: nodal interpolation missed targets in strongly
 stretched grids

The Newton search gets lost when neighboring cells have very different sizes
(a factor of 15 or more). As a last resort, start from the cells whose box
contains the target.
---
 cpp/SgNodeInterp2D.h | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/cpp/SgNodeInterp2D.h b/cpp/SgNodeInterp2D.h
index 85d9bbc..910ebd9 100644
--- a/cpp/SgNodeInterp2D.h
+++ b/cpp/SgNodeInterp2D.h
@@ -194,6 +194,18 @@ struct SgNodeInterp2D_type {
                     stop = sit.next();
                 }
 
+                // the search can go astray when neighboring cells have very different
+                // sizes, as a last resort start from the cells around the target
+                for (size_t srcIndx = 0; srcIndx < this->srcNumCells && ier != 0; ++srcIndx) {
+                    if (this->isInSrcCellBox(srcIndx, targetPoint)) {
+                        for (size_t i = 0; i < NDIMS_2D_TOPO; ++i) {
+                            dIndices[i] = 0.5 + 
+                                srcIndx / this->srcCellDimProd[i] % this->srcCellDims[i];
+                        }
+                        ier = this->findTarget(targetPoint, dIndices);
+                    }
+                }
+
                 if (ier == 0) {
                     this->setTargetWeights(dstNodeIndex);
                 }
@@ -221,6 +233,38 @@ private:
             this->pointFinder->getSrcIndicesAndWeights(this->pointFinder->getIndices());
     }
 
+    /**
+     * Check if a point is in the box of a source cell
+     * @param srcIndx flat index of the cell
+     * @param point target position
+     * @return true if the point is in the box or on its border
+     */
+    bool isInSrcCellBox(size_t srcIndx, const double point[]) const {
+
+        const int offsets[] = {0, 0,
+                               1, 0,
+                               1, 1,
+                               0, 1};
+        double xlo[NDIMS_2D_PHYS];
+        double xhi[NDIMS_2D_PHYS];
+        for (size_t i = 0; i < 4; ++i) {
+            double node[NDIMS_2D_PHYS];
+            this->getSrcQuadCoord(srcIndx, &offsets[i*NDIMS_2D_TOPO], node);
+            for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
+                xlo[j] = (i == 0 || node[j] < xlo[j]? node[j]: xlo[j]);
+                xhi[j] = (i == 0 || node[j] > xhi[j]? node[j]: xhi[j]);
+            }
+        }
+        for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
+            // a point on the border of the cell can be off by round off errors
+            double delta = 1.e-6 * (xhi[j] - xlo[j]);
+            if (point[j] < xlo[j] - delta || point[j] > xhi[j] + delta) {
+                return false;
+            }
+        }
+        return true;
+    }
+
     /**
      * Find target
      * @param target position
-- 
2.43.0


From 0510dd50e8f382f121d784314f69f9f75357ee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:06 +0000
Subject: [PATCH 26/38] fix: point search started outside of the index range
 gave NaN

The differences that approximate the derivatives are zero by zero divisions
when an index is half a cell or more outside of the range.
---
 cpp/SgFindPointInCell.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/SgFindPointInCell.h b/cpp/SgFindPointInCell.h
index ac912eb..29eab0c 100644
--- a/cpp/SgFindPointInCell.h
+++ b/cpp/SgFindPointInCell.h
@@ -198,6 +198,8 @@ void reset(const double dIndices[], const double targetPoint[]) {
         this->dIndices[i] = dIndices[i];
         this->targetPoint[i] = targetPoint[i];
     }
+    // the derivatives are not defined outside of the index domain
+    this->truncateIndices();
     this->iter = 0;
     this->errorHistory.resize(0);
 }
-- 
2.43.0


From 6666e10c70f19796874c32f261b7e3ed0d3c599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:34 +0000
Subject: [PATCH 27/38] fix: hull area of points that are close to each other
 was not accurate

The tolerance was compared to areas and squares of distances irrespective of the
extent of the points: cells smaller than 1.e-2 lost parts of their area.
---
 cpp/SgTriangulate.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cpp/SgTriangulate.h b/cpp/SgTriangulate.h
index 0f51289..278e0d2 100644
--- a/cpp/SgTriangulate.h
+++ b/cpp/SgTriangulate.h
@@ -75,8 +75,9 @@ struct SgTriangulate_type {
 
     SgTriangulate_type(int numPoints, const double points[]) {
 
-        // tolerance for floating point comparisons
-        this->eps = 1.e-12;
+        // tolerance for floating point comparisons. It is compared to areas and to squares
+        // of distances and so must be smaller when the points are close to each other
+        this->eps = 1.e-12 * std::min(1.0, this->getExtentSquare(numPoints, points));
 
         this->points.resize(2 * numPoints);
 
@@ -112,6 +113,17 @@ struct SgTriangulate_type {
         }
     }
 
+    double getExtentSquare(int numPoints, const double points[]) const {
+        double res = 0;
+        for (int i = 1; i < numPoints; ++i) {
+            for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
+                double d = points[i*NDIMS_2D_PHYS + j] - points[j];
+                res = std::max(res, d * d);
+            }
+        }
+        return res;
+    }
+
     double getDistanceSquare(size_t i0, size_t i1) {
         double res = 0;
         for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
-- 
2.43.0


From 42fbcf1230f81989234bffe83a688607afffce70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 28/38] fix: hull lost points close to each other and points
 slightly above a long edge

---
 cpp/SgTriangulate.h | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/cpp/SgTriangulate.h b/cpp/SgTriangulate.h
index 278e0d2..3346e5c 100644
--- a/cpp/SgTriangulate.h
+++ b/cpp/SgTriangulate.h
@@ -77,7 +77,7 @@ struct SgTriangulate_type {
 
         // tolerance for floating point comparisons. It is compared to areas and to squares
         // of distances and so must be smaller when the points are close to each other
-        this->eps = 1.e-12 * std::min(1.0, this->getExtentSquare(numPoints, points));
+        this->eps = 1.e-14 * this->getExtentSquare(numPoints, points);
 
         this->points.resize(2 * numPoints);
 
@@ -153,7 +153,7 @@ struct SgTriangulate_type {
         // and the previous point is > 0
         size_t i0 = 0;
         for (size_t i1 = 1; i1 < numPoints; ++i1) {
-            if (this->getDistanceSquare(i0, i1) > this->eps) {
+            if (this->getDistanceSquare(i0, i1) > 1.e-14 * this->eps) {
                 // not degenerate
                 for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
                     pts.push_back(this->points[i1*NDIMS_2D_PHYS + j]);
@@ -175,7 +175,7 @@ struct SgTriangulate_type {
         double dotProduct = 1;
         size_t ia = 0, ib = 0, ic = 0;
         size_t j = 0;
-        while (dotProduct > this->eps && j < 3) {
+        while (dotProduct > 0 && j < 3) {
             ic = inds[j];
             ia = inds[(j + 1) % 3];
             ib = inds[(j + 2) % 3];
@@ -269,11 +269,18 @@ struct SgTriangulate_type {
     }
 
     bool inline isEdgeVisible(size_t ip, size_t ie0, size_t ie1) {
-        double area = this->getParallelipipedArea(ip, ie0, ie1);
-        if (area < -this->eps) {
-            return true;
+        // a point that is hardly above an edge can still be far beyond the edge's end points, only 
+        // ignore the round-off errors
+        double d1[] = {0, 0};
+        double d2[] = {0, 0};
+        for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
+            const double& p = this->points[ip*NDIMS_2D_PHYS + j];
+            d1[j] = this->points[ie0*NDIMS_2D_PHYS + j] - p;
+            d2[j] = this->points[ie1*NDIMS_2D_PHYS + j] - p;
         }
-        return false;
+        double roundOff = 4 * std::numeric_limits<double>::epsilon() 
+                          * (std::abs(d1[0]*d2[1]) + std::abs(d1[1]*d2[0]));
+        return d1[0]*d2[1] - d1[1]*d2[0] < -roundOff;
     }
 
     double getConvexHullArea() const {
-- 
2.43.0


From 8e766b09dec327b55735fedc7dfc0c30f3514f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 29/38] fix: overlap of thin cells lost the nodes on the edges
 of the other cell

---
 cpp/SgQuadIntersect.h | 51 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/cpp/SgQuadIntersect.h b/cpp/SgQuadIntersect.h
index 9eb7cba..d58e936 100644
--- a/cpp/SgQuadIntersect.h
+++ b/cpp/SgQuadIntersect.h
@@ -154,9 +154,60 @@ struct SgQuadIntersect_type {
                                                     &quad[1*NDIMS_2D_PHYS])) {
         return true;
       }
+      // the parametric coordinates amplify the round-off errors when the cell is thin, points 
+      // on an edge may then appear to be outside
+      double maxDistance = this->getRoundOffDistance(point, quad);
+      for (size_t i = 0; i < 4; ++i) {
+        if (this->getDistanceSquareToEdge(point, &quad[i*NDIMS_2D_PHYS],
+                                          &quad[((i + 1) % 4)*NDIMS_2D_PHYS]) <= maxDistance * maxDistance) {
+          return true;
+        }
+      }
       return false;
     }
 
+    /**
+     * Get the distance below which a point cannot be told to be outside of a quad
+     * @param point target coordinates
+     * @param quad 4 points as flat array
+     * @return distance
+     */
+    double getRoundOffDistance(const double* point, const double* quad) const {
+        double maxAbs = 0;
+        double extent = 0;
+        for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
+            maxAbs = std::max(maxAbs, std::abs(point[j]));
+            for (size_t i = 0; i < 4; ++i) {
+                maxAbs = std::max(maxAbs, std::abs(quad[i*NDIMS_2D_PHYS + j]));
+                extent = std::max(extent, std::abs(quad[i*NDIMS_2D_PHYS + j] - quad[j]));
+            }
+        }
+        return this->tol * extent + 16 * std::numeric_limits<double>::epsilon() * maxAbs;
+    }
+
+    /**
+     * Get the square of the distance from a point to an edge
+     * @param point target coordinates
+     * @param node0 start point of the edge
+     * @param node1 end point of the edge
+     * @return square of the distance
+     */
+    double getDistanceSquareToEdge(const double* point, const double* node0, const double* node1) const {
+        double edgeSq = 0;
+        double dotProduct = 0;
+        for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
+            edgeSq += (node1[j] - node0[j]) * (node1[j] - node0[j]);
+            dotProduct += (node1[j] - node0[j]) * (point[j] - node0[j]);
+        }
+        double xi = (edgeSq > 0? std::min(1.0, std::max(0.0, dotProduct/edgeSq)): 0);
+        double res = 0;
+        for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
+            double d = point[j] - node0[j] - xi*(node1[j] - node0[j]);
+            res += d * d;
+        }
+        return res;
+    }
+
     /**
      * Collect all the quad's nodes that are inside the other quad
      * @param nodes flat array of the 1st quad's coordinates
-- 
2.43.0


From 3b739a2f8a230099aab3af9a357a55b566ab55f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 30/38] fix: collinear cell edges were found to intersect
 because of round-off errors

---
 cpp/SgQuadIntersect.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cpp/SgQuadIntersect.h b/cpp/SgQuadIntersect.h
index d58e936..df0dfab 100644
--- a/cpp/SgQuadIntersect.h
+++ b/cpp/SgQuadIntersect.h
@@ -244,6 +244,13 @@ struct SgQuadIntersect_type {
             this->mat[2*i + 0] = edge1Point1[i] - edge1Point0[i];
             this->mat[2*i + 1] = edge2Point0[i] - edge2Point1[i];
         }
+        // the determinant is of the order of the round-off errors when the edges are parallel
+        double det = this->mat[0]*this->mat[3] - this->mat[1]*this->mat[2];
+        double edge1Square = this->mat[0]*this->mat[0] + this->mat[2]*this->mat[2];
+        double edge2Square = this->mat[1]*this->mat[1] + this->mat[3]*this->mat[3];
+        if (det * det <= this->tol * this->tol * edge1Square * edge2Square) {
+            return 0;
+        }
         this->slvr->setMatrix(this->mat);
         this->slvr->setRightHandSide(this->rhs);
         int ier = this->slvr->solve();
-- 
2.43.0


From 09a25defa18a7b898ec76f1f5e63fa51ef7ebfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 31/38] fix: flow projections failed in large cells and were
 inaccurate in small cells

---
 cpp/SgQuadLineFlows.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/cpp/SgQuadLineFlows.h b/cpp/SgQuadLineFlows.h
index b2bdf3d..3d9a645 100644
--- a/cpp/SgQuadLineFlows.h
+++ b/cpp/SgQuadLineFlows.h
@@ -83,6 +83,18 @@ struct SgQuadLineFlows_type {
       const int periodicity[] = {0, 0};
       this->indexFinder->setGrid(NDIMS_2D_TOPO, dims, periodicity,
                                 (const double**) &this->quadGridCoords[0]);
+
+      // the position error that can be reached scales with the size of the cell and, because 
+      // of round-off errors, with its distance from the origin
+      double extent = 0;
+      double maxAbs = 0;
+      for (size_t k = 0; k < NDIMS_2D_PHYS; ++k) {
+        for (size_t i = 0; i < 4; ++i) {
+          extent = std::max(extent, std::abs(this->quadGridCoords[k][i] - this->quadGridCoords[k][0]));
+          maxAbs = std::max(maxAbs, std::abs(this->quadGridCoords[k][i]));
+        }
+      }
+      this->indexFinder->tolpos = 1.e-10 * extent + 16 * std::numeric_limits<double>::epsilon() * maxAbs;
     }
 
     /**
-- 
2.43.0


From 9da853d82e64262652b6892295ef2fc463855880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 32/38] fix: SgTriangulate indexed past the end of an edge to
 copy it

---
 cpp/SgTriangulate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/SgTriangulate.h b/cpp/SgTriangulate.h
index 3346e5c..aac2765 100644
--- a/cpp/SgTriangulate.h
+++ b/cpp/SgTriangulate.h
@@ -311,7 +311,7 @@ struct SgTriangulate_type {
                 this->triIndices.insert(std::vector<size_t>(tri, tri + 3));
 
                 // keep track of edges to remove
-                std::vector<size_t> oldEdge(&(*it)[0], &(*it)[2]);
+                std::vector<size_t> oldEdge(*it);
                 boundaryEdgesToRemove.insert(oldEdge);
 
                 // keep track of edges to add. An edge that is shared by two of the
-- 
2.43.0


From 427bacdf31c07b291750252ab1d8adf3e9d05266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 33/38] fix: SgFindPointInCell took the first element of an
 empty error history

---
 cpp/SgFindPointInCell.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/SgFindPointInCell.h b/cpp/SgFindPointInCell.h
index 29eab0c..f226d62 100644
--- a/cpp/SgFindPointInCell.h
+++ b/cpp/SgFindPointInCell.h
@@ -296,7 +296,7 @@ std::vector<double> getIndices() const {
  */
 void getErrorHistory(int* niter, double* errorHistory[]) {
     *niter = (int) this->errorHistory.size();
-    *errorHistory = &this->errorHistory.front();
+    *errorHistory = (this->errorHistory.empty()? NULL: &this->errorHistory.front());
 }
 
 /**
-- 
2.43.0


From 2678406d54f6d2a8edfacce49f536f48a55e27c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 34/38] fix: SgFindOverlappingCells2D took the first element of
 an empty list of cells

---
 cpp/SgFindOverlappingCells2D.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/SgFindOverlappingCells2D.cpp b/cpp/SgFindOverlappingCells2D.cpp
index 0082c73..59efa3d 100644
--- a/cpp/SgFindOverlappingCells2D.cpp
+++ b/cpp/SgFindOverlappingCells2D.cpp
@@ -46,6 +46,7 @@ int SgFindOverlappingCells2D_getNumberOfSrcCellIndices(SgFindOverlappingCells2D_
 extern "C"
 int SgFindOverlappingCells2D_getSrcCellIndices(SgFindOverlappingCells2D_type** self,
                                                int** srcCellInds) {
-    *srcCellInds = &(*self)->srcCellFlatInds.front();
+    std::vector<int>& inds = (*self)->srcCellFlatInds;
+    *srcCellInds = (inds.empty()? NULL: &inds.front());
     return 0;
 }
-- 
2.43.0


From 48c2ffcdfef87622662951e5b5f4dcffb4195604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:31 +0000
Subject: [PATCH 35/38] fix: createRotatedPoleGrid gave undefined latitudes for
 nodes at the rotated pole because of round-off errors

---
 utils/createGrids2D.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utils/createGrids2D.cpp b/utils/createGrids2D.cpp
index e79cdba..13916a3 100644
--- a/utils/createGrids2D.cpp
+++ b/utils/createGrids2D.cpp
@@ -115,7 +115,10 @@ void createRotatedPoleGrid(const int nodeDims[],
 
             matrixDotVector(transfMatrix, xyzPrime, xyz);
 
-            coords[0][k] = 180. * asin(xyz[2]) / M_PI;
+            // round off errors can make the sine of the latitude slightly larger than one
+            double sin_lat = (xyz[2] < 1.0? xyz[2]: 1.0);
+            sin_lat = (sin_lat > -1.0? sin_lat: -1.0);
+            coords[0][k] = 180. * asin(sin_lat) / M_PI;
             coords[1][k] = 180. * atan2(xyz[1], xyz[0]) / M_PI;
             k++;
         }
-- 
2.43.0


From 8d2a2e526155a51c3d74a907df5dd00d44c46530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:31 +0000
Subject: [PATCH 36/38] fix: convex hull area of points in rows was too large
 because of round-off errors in the visibility of the edges

---
 cpp/SgTriangulate.h | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/cpp/SgTriangulate.h b/cpp/SgTriangulate.h
index aac2765..c6462fa 100644
--- a/cpp/SgTriangulate.h
+++ b/cpp/SgTriangulate.h
@@ -268,9 +268,41 @@ struct SgTriangulate_type {
         }
     }
 
+    double inline getExactParallelipipedAreaSign(size_t ip, size_t ie0, size_t ie1) const {
+        // sum up the products of coordinates without any round-off error. Each product is the sum 
+        // of two floating point numbers, and so is the sum of two floating point numbers
+        const double* p = &this->points[ip*NDIMS_2D_PHYS];
+        const double* a = &this->points[ie0*NDIMS_2D_PHYS];
+        const double* b = &this->points[ie1*NDIMS_2D_PHYS];
+        const double lhs[] = {a[0], -a[1], p[0], -p[0], p[1], -p[1]};
+        const double rhs[] = {b[1],  b[0], a[1],  b[1], b[0],  a[0]};
+        // non-overlapping numbers of increasing magnitude
+        std::vector<double> sums;
+        for (size_t i = 0; i < 6; ++i) {
+            double product = lhs[i] * rhs[i];
+            const double terms[] = {std::fma(lhs[i], rhs[i], -product), product};
+            for (size_t j = 0; j < 2; ++j) {
+                double hi = terms[j];
+                for (size_t k = 0; k < sums.size(); ++k) {
+                    double s = hi + sums[k];
+                    double t = s - hi;
+                    sums[k] = (hi - (s - t)) + (sums[k] - t);
+                    hi = s;
+                }
+                sums.push_back(hi);
+            }
+        }
+        for (size_t k = sums.size(); k > 0; --k) {
+            if (sums[k - 1] != 0) {
+                return sums[k - 1];
+            }
+        }
+        return 0;
+    }
+
     bool inline isEdgeVisible(size_t ip, size_t ie0, size_t ie1) {
-        // a point that is hardly above an edge can still be far beyond the edge's end points, only 
-        // ignore the round-off errors
+        // a point that is hardly above an edge can still be far beyond the edge's end points, the
+        // decision must not be affected by round-off errors
         double d1[] = {0, 0};
         double d2[] = {0, 0};
         for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
@@ -278,9 +310,13 @@ struct SgTriangulate_type {
             d1[j] = this->points[ie0*NDIMS_2D_PHYS + j] - p;
             d2[j] = this->points[ie1*NDIMS_2D_PHYS + j] - p;
         }
+        double area = d1[0]*d2[1] - d1[1]*d2[0];
         double roundOff = 4 * std::numeric_limits<double>::epsilon() 
                           * (std::abs(d1[0]*d2[1]) + std::abs(d1[1]*d2[0]));
-        return d1[0]*d2[1] - d1[1]*d2[0] < -roundOff;
+        if (std::abs(area) <= roundOff) {
+            area = this->getExactParallelipipedAreaSign(ip, ie0, ie1);
+        }
+        return area < 0;
     }
 
     double getConvexHullArea() const {
-- 
2.43.0


From 3d7620c96e6b759b868c4a3826c2323e3cd7e722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:56 +0000
Subject: [PATCH 37/38] fix: quad corners on the inner diagonal of a thin quad
 were not found to be inside because of round-off errors

---
 cpp/SgQuadIntersect.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/SgQuadIntersect.h b/cpp/SgQuadIntersect.h
index df0dfab..9c99477 100644
--- a/cpp/SgQuadIntersect.h
+++ b/cpp/SgQuadIntersect.h
@@ -163,7 +163,9 @@ struct SgQuadIntersect_type {
           return true;
         }
       }
-      return false;
+      // likewise for points on the diagonal that separates the two triangles
+      return this->getDistanceSquareToEdge(point, &quad[1*NDIMS_2D_PHYS],
+                                           &quad[3*NDIMS_2D_PHYS]) <= maxDistance * maxDistance;
     }
 
     /**
-- 
2.43.0


From 8202c67efb661a24030878e5dbbb6ff1baf1dbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:30 +0000
Subject: [PATCH 38/38] fix: segments along an edge of a thin quad were cut at
 the wrong points because of round-off errors

---
 cpp/SgQuadLineIntersect.h | 66 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 63 insertions(+), 3 deletions(-)

diff --git a/cpp/SgQuadLineIntersect.h b/cpp/SgQuadLineIntersect.h
index 6b031ec..21bc914 100644
--- a/cpp/SgQuadLineIntersect.h
+++ b/cpp/SgQuadLineIntersect.h
@@ -157,7 +157,62 @@ struct SgQuadLineIntersect_type {
                                                     &quad[1*NDIMS_2D_PHYS])) {
         return true;
       }
-      return false;
+      // the parametric coordinates amplify the round-off errors when the cell is thin, points 
+      // on an edge or on the diagonal between the triangles may then appear to be outside
+      double extent = 0;
+      for (size_t i = 1; i < 4; ++i) {
+        extent = std::max(extent, std::sqrt(this->getDistanceSquareToEdge(&quad[i*NDIMS_2D_PHYS], quad, quad)));
+      }
+      double maxDistance = 0.1 * this->tol * extent + this->getRoundOff(point, quad, 4);
+      for (size_t i = 0; i < 4; ++i) {
+        if (this->getDistanceSquareToEdge(point, &quad[i*NDIMS_2D_PHYS],
+                                          &quad[((i + 1) % 4)*NDIMS_2D_PHYS]) <= maxDistance * maxDistance) {
+          return true;
+        }
+      }
+      return this->getDistanceSquareToEdge(point, &quad[1*NDIMS_2D_PHYS],
+                                           &quad[3*NDIMS_2D_PHYS]) <= maxDistance * maxDistance;
+    }
+
+    /**
+     * Get the size of the round-off errors of the coordinates
+     * @param point coordinates of a point
+     * @param nodes flat array of the coordinates of other points
+     * @param numNodes number of other points
+     * @return distance
+     */
+    double getRoundOff(const double* point, const double* nodes, size_t numNodes) const {
+        double maxAbs = 0;
+        for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
+            maxAbs = std::max(maxAbs, std::abs(point[j]));
+            for (size_t i = 0; i < numNodes; ++i) {
+                maxAbs = std::max(maxAbs, std::abs(nodes[i*NDIMS_2D_PHYS + j]));
+            }
+        }
+        return 16 * std::numeric_limits<double>::epsilon() * maxAbs;
+    }
+
+    /**
+     * Get the square of the distance from a point to an edge
+     * @param point target coordinates
+     * @param node0 start point of the edge
+     * @param node1 end point of the edge
+     * @return square of the distance
+     */
+    double getDistanceSquareToEdge(const double* point, const double* node0, const double* node1) const {
+        double edgeSq = 0;
+        double dotProduct = 0;
+        for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
+            edgeSq += (node1[j] - node0[j]) * (node1[j] - node0[j]);
+            dotProduct += (node1[j] - node0[j]) * (point[j] - node0[j]);
+        }
+        double xi = (edgeSq > 0? std::min(1.0, std::max(0.0, dotProduct/edgeSq)): 0);
+        double res = 0;
+        for (size_t j = 0; j < NDIMS_2D_PHYS; ++j) {
+            double d = point[j] - node0[j] - xi*(node1[j] - node0[j]);
+            res += d * d;
+        }
+        return res;
     }
 
     /**
@@ -189,8 +244,13 @@ struct SgQuadLineIntersect_type {
         }
         double* xis;
         this->slvr->getSolution(&xis);
-        // make sure the parametric coordinates are within the (0-, 1+) range
-        if (xis[0] >= -this->tol && xis[0] < 1.0 + this->tol &&
+        // make sure the parametric coordinates are within the (0-, 1+) range, the position along 
+        // the edge cannot be more accurate than the coordinates of the end points
+        double edgeLength = std::sqrt(this->mat[0]*this->mat[0] + this->mat[2]*this->mat[2]);
+        double roundOff = std::max(this->getRoundOff(edgePoint0, edgePoint1, 1),
+                                   this->getRoundOff(linePoint0, linePoint1, 1));
+        double delta = (edgeLength > 0? std::max(this->tol, roundOff/edgeLength): this->tol);
+        if (xis[0] >= -delta && xis[0] < 1.0 + delta &&
             xis[1] >= -this->tol && xis[1] < 1.0 + this->tol) {
             // the two edges intersect
             this->intersectionLambdas.push_back(xis[1]);
-- 
2.43.0

