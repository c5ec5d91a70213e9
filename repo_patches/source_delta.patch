From 4af0233548e4a8bf7c801b1d0344b17c31d94477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 01/57] fix: permute() checks the whole permutation before
 moving anything

A duplicate index made the loop spin forever, and an out-of-range index found
half-way left the container partially permuted.
---
 .../aslam/calibration/algorithms/permute.tpp     | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp b/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp
index b9b0c9a..7741eba 100644
--- a/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp
+++ b/incremental_calibration/include/aslam/calibration/algorithms/permute.tpp
@@ -5,7 +5,9 @@
 
 #include "aslam/calibration/exceptions/OutOfBoundException.h"
 
+#include <cstddef>
 #include <utility>
+#include <vector>
 
 namespace aslam {
   namespace calibration {
@@ -20,11 +22,21 @@ namespace aslam {
         throw OutOfBoundException<I>(permutation.size(), container.size(),
           "permutation vector must match container size",
           __FILE__, __LINE__, __PRETTY_FUNCTION__);
-      for (I i = 0; i < container.size(); ++i) {
-        if (permutation[i] >= static_cast<I>(container.size()))
+      // check the whole permutation before touching the container
+      std::vector<bool> seen(container.size(), false);
+      for (size_t i = 0; i < permutation.size(); ++i) {
+        const size_t idx = static_cast<size_t>(permutation[i]);
+        if (idx >= container.size())
           throw OutOfBoundException<I>(permutation[i], static_cast<I>(
             container.size()), "permutation vector index out of bound",
             __FILE__, __LINE__, __PRETTY_FUNCTION__);
+        if (seen[idx])
+          throw OutOfBoundException<I>(permutation[i],
+            "duplicate index in permutation vector",
+            __FILE__, __LINE__, __PRETTY_FUNCTION__);
+        seen[idx] = true;
+      }
+      for (I i = 0; i < container.size(); ++i) {
         I k = permutation[i];
         while (k < i)
           k = permutation[k];
-- 
2.43.0


From bc23315f1ba74ede754f0e304e0db22f41af0898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 02/57] fix: a refused batch leaves the merged problem
 unchanged

IncrementalOptimizationProblem::add() threw on a group mismatch or on a known
error term after it had already counted and stored the design variables.
---
 .../core/IncrementalOptimizationProblem.cpp   | 33 ++++++++++---------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
index 114858a..6dcb75b 100644
--- a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
+++ b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
@@ -175,8 +175,24 @@ namespace aslam {
       if (!problem)
         throw NullPointerException("problem", __FILE__, __LINE__,
           __PRETTY_FUNCTION__);
-      // update design variable counts, grouping, and storing
+      // refuse the problem before touching anything
       const size_t numDV = problem->numDesignVariables();
+      for (size_t i = 0; i < numDV; ++i) {
+        const DesignVariable* dv = problem->designVariable(i);
+        if (isDesignVariableInProblem(dv) &&
+            getGroupId(dv) != problem->getGroupId(dv))
+          throw InvalidOperationException("group mismatch", __FILE__,
+            __LINE__, __PRETTY_FUNCTION__);
+      }
+      const size_t numET = problem->numErrorTerms();
+      for (size_t i = 0; i < numET; ++i) {
+        const ErrorTerm* et = problem->errorTerm(i);
+        if (isErrorTermInProblem(et))
+          throw InvalidOperationException("error term already in the problem",
+            __FILE__, __LINE__, __PRETTY_FUNCTION__);
+      }
+
+      // update design variable counts, grouping, and storing
       _designVariablesCounts.reserve(_designVariablesCounts.size() + numDV);
       for (size_t i = 0; i < numDV; ++i) {
         const DesignVariable* dv = problem->designVariable(i);
@@ -188,21 +204,8 @@ namespace aslam {
             std::make_pair(1, groupId)));
           _designVariables[groupId].push_back(dv);
         }
-        else {
-          if (getGroupId(dv) != groupId)
-            throw InvalidOperationException("group mismatch", __FILE__,
-              __LINE__, __PRETTY_FUNCTION__);
+        else
           _designVariablesCounts[dv].first++;
-        }
-      }
-
-      // keep trace of the error terms of this problem
-      const size_t numET = problem->numErrorTerms();
-      for (size_t i = 0; i < numET; ++i) {
-        const ErrorTerm* et = problem->errorTerm(i);
-        if (isErrorTermInProblem(et))
-          throw InvalidOperationException("error term already in the problem",
-            __FILE__, __LINE__, __PRETTY_FUNCTION__);
       }
 
       // insert the problem
-- 
2.43.0


From cee9999d98bca80229208e672991f90859be3f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 03/57] fix: clearing the merged problem drops its saved design
 variables

restoreDesignVariables() after clear() wrote through pointers to design
variables the problem no longer holds.
---
 .../src/core/IncrementalOptimizationProblem.cpp                  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
index 6dcb75b..7226777 100644
--- a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
+++ b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
@@ -260,6 +260,7 @@ namespace aslam {
       _designVariablesCounts.clear();
       _designVariables.clear();
       _groupsOrdering.clear();
+      _designVariablesBackup.clear();
     }
 
     size_t IncrementalOptimizationProblem::
-- 
2.43.0


From 2727aaabe58a69272ca85cb155486f7efe37cb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 04/57] fix: check a batch index before forming an iterator
 from it

A large index wrapped around in the iterator arithmetic and designated another
batch.
---
 .../src/core/IncrementalOptimizationProblem.cpp          | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
index 7226777..b55db44 100644
--- a/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
+++ b/incremental_calibration/src/core/IncrementalOptimizationProblem.cpp
@@ -62,11 +62,17 @@ namespace aslam {
 
     const OptimizationProblem* IncrementalOptimizationProblem::
         getOptimizationProblem(size_t idx) const {
+      if (idx >= _optimizationProblems.size())
+        throw OutOfBoundException<size_t>(idx, _optimizationProblems.size(),
+          "index out of bounds", __FILE__, __LINE__, __PRETTY_FUNCTION__);
       return getOptimizationProblem(_optimizationProblems.cbegin() + idx);
     }
 
     OptimizationProblem* IncrementalOptimizationProblem::
         getOptimizationProblem(size_t idx) {
+      if (idx >= _optimizationProblems.size())
+        throw OutOfBoundException<size_t>(idx, _optimizationProblems.size(),
+          "index out of bounds", __FILE__, __LINE__, __PRETTY_FUNCTION__);
       return getOptimizationProblem(_optimizationProblems.begin() + idx);
     }
 
@@ -252,6 +258,9 @@ namespace aslam {
     }
 
     void IncrementalOptimizationProblem::remove(size_t idx) {
+      if (idx >= _optimizationProblems.size())
+        throw OutOfBoundException<size_t>(idx, _optimizationProblems.size(),
+          "index out of bounds", __FILE__, __LINE__, __PRETTY_FUNCTION__);
       remove(_optimizationProblems.begin() + idx);
     }
 
-- 
2.43.0


From cb7bc36101fbfbfd1eefbc23c1771a03e6de07d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 05/57] fix: restore the marginalization index after a rejected
 batch

restoreLinearSolver() rebuilt the Jacobian of the remaining batches but kept
the column at which the variables of the rejected batch had pushed the
marginalized group.
---
 incremental_calibration/src/core/IncrementalEstimator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/incremental_calibration/src/core/IncrementalEstimator.cpp b/incremental_calibration/src/core/IncrementalEstimator.cpp
index fc677f8..1912608 100644
--- a/incremental_calibration/src/core/IncrementalEstimator.cpp
+++ b/incremental_calibration/src/core/IncrementalEstimator.cpp
@@ -514,6 +514,10 @@ namespace aslam {
       auto linearSolver = _optimizer->getSolver<LinearSolver>();
       linearSolver->initMatrixStructure(dvs, ets, false);
 
+      // the rejected batch may have moved the marginalized columns
+      linearSolver->setMargStartIndex(static_cast<std::ptrdiff_t>(columnBase -
+        _problem->getGroupDim(_margGroupId)));
+
       // build the system
       linearSolver->buildSystem(_optimizer->options().numThreadsJacobian, true);
     }
-- 
2.43.0


From 1ed770ac20ea11948ace5d397a3c9e294f57bd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 06/57] fix: re-evaluate the errors when restoring the linear
 solver

After a rejected batch the right-hand side and the M-estimator weights of the
rebuilt Jacobian were still those of the discarded solution.
---
 incremental_calibration/src/core/IncrementalEstimator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/incremental_calibration/src/core/IncrementalEstimator.cpp b/incremental_calibration/src/core/IncrementalEstimator.cpp
index 1912608..39ff12c 100644
--- a/incremental_calibration/src/core/IncrementalEstimator.cpp
+++ b/incremental_calibration/src/core/IncrementalEstimator.cpp
@@ -518,6 +518,9 @@ namespace aslam {
       linearSolver->setMargStartIndex(static_cast<std::ptrdiff_t>(columnBase -
         _problem->getGroupDim(_margGroupId)));
 
+      // the errors, hence the M-estimator weights, are those of the rejected batch
+      linearSolver->evaluateError(_optimizer->options().numThreadsError, true);
+
       // build the system
       linearSolver->buildSystem(_optimizer->options().numThreadsJacobian, true);
     }
-- 
2.43.0


From 746a1b59b3ed7759fbf94a93587f90d0368e25d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 07/57] fix: a batch that cannot be processed is taken back

When addBatch() threw after the insertion (no marginalized group, nothing to
optimize, a failing error term), the batch stayed in the problem with the
design variables wherever the optimizer had left them, and every later call
failed too.
---
 .../calibration/core/IncrementalEstimator.h   |  4 ++
 .../src/core/IncrementalEstimator.cpp         | 56 ++++++++++++-------
 2 files changed, 41 insertions(+), 19 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/core/IncrementalEstimator.h b/incremental_calibration/include/aslam/calibration/core/IncrementalEstimator.h
index af6863e..b67dd5b 100644
--- a/incremental_calibration/include/aslam/calibration/core/IncrementalEstimator.h
+++ b/incremental_calibration/include/aslam/calibration/core/IncrementalEstimator.h
@@ -237,6 +237,10 @@ namespace aslam {
         */
       /// Ensures the marginalized variables are well located
       void orderMarginalizedDesignVariables();
+      /// Processes the batch just inserted in the problem
+      ReturnValue processBatch(bool force);
+      /// Takes back a batch that is rejected or that failed
+      void rollbackBatch(const BatchSP& problem);
       /// Restores the linear solver
       void restoreLinearSolver();
       /** @}
diff --git a/incremental_calibration/src/core/IncrementalEstimator.cpp b/incremental_calibration/src/core/IncrementalEstimator.cpp
index 39ff12c..5e25e53 100644
--- a/incremental_calibration/src/core/IncrementalEstimator.cpp
+++ b/incremental_calibration/src/core/IncrementalEstimator.cpp
@@ -324,13 +324,35 @@ namespace aslam {
       // insert new batch in the problem
       _problem->add(problem);
 
+      // save design variables in case the batch is rejected or fails
+      _problem->saveDesignVariables();
+
+      // optimize and decide
+      ReturnValue ret;
+      try {
+        ret = processBatch(force);
+      }
+      catch (...) {
+        rollbackBatch(problem);
+        throw;
+      }
+
+      // remove batch if necessary
+      if (!ret.batchAccepted)
+        rollbackBatch(problem);
+
+      // insert elapsed time
+      ret.elapsedTime = Timestamp::now() - timeStart;
+
+      // output informations
+      return ret;
+    }
+
+    IncrementalEstimator::ReturnValue
+        IncrementalEstimator::processBatch(bool force) {
       // ensure marginalized design variables are well located
       orderMarginalizedDesignVariables();
 
-      // save design variables in case the batch is rejected
-      if (!force)
-        _problem->saveDesignVariables();
-
       // set the marginalization index of the linear solver
       size_t JCols = 0;
       for (auto it = _problem->getGroupsOrdering().cbegin();
@@ -431,24 +453,20 @@ namespace aslam {
       }
       ret.batchAccepted = keepBatch;
 
-      // remove batch if necessary
-      if (!keepBatch) {
-        // restore variables
-        _problem->restoreDesignVariables();
-
-        // kick out the problem from the container
-        _problem->remove(problem);
+      // output informations
+      return ret;
+    }
 
-        // restore the linear solver
-        if (_problem->getNumOptimizationProblems() > 0)
-          restoreLinearSolver();
-      }
+    void IncrementalEstimator::rollbackBatch(const BatchSP& problem) {
+      // restore variables
+      _problem->restoreDesignVariables();
 
-      // insert elapsed time
-      ret.elapsedTime = Timestamp::now() - timeStart;
+      // kick out the problem from the container
+      _problem->remove(problem);
 
-      // output informations
-      return ret;
+      // restore the linear solver
+      if (_problem->isGroupInProblem(_margGroupId))
+        restoreLinearSolver();
     }
 
     void IncrementalEstimator::removeBatch(size_t idx) {
-- 
2.43.0


From 14c15b325d453afe382d45e3751c69ec5111e155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 08/57] fix: removing the last batch leaves an empty estimator

removeBatch() removed the batch and then threw because the marginalized group
had gone with it, keeping the statistics of the removed batch: the information
gain of the next batch was measured against them.
---
 .../calibration/core/IncrementalEstimator.h   |  2 ++
 .../src/core/IncrementalEstimator.cpp         | 33 +++++++++++++++++--
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/core/IncrementalEstimator.h b/incremental_calibration/include/aslam/calibration/core/IncrementalEstimator.h
index b67dd5b..fa5b74d 100644
--- a/incremental_calibration/include/aslam/calibration/core/IncrementalEstimator.h
+++ b/incremental_calibration/include/aslam/calibration/core/IncrementalEstimator.h
@@ -241,6 +241,8 @@ namespace aslam {
       ReturnValue processBatch(bool force);
       /// Takes back a batch that is rejected or that failed
       void rollbackBatch(const BatchSP& problem);
+      /// Resets the statistics to those of an empty estimator
+      void resetStatistics();
       /// Restores the linear solver
       void restoreLinearSolver();
       /** @}
diff --git a/incremental_calibration/src/core/IncrementalEstimator.cpp b/incremental_calibration/src/core/IncrementalEstimator.cpp
index 5e25e53..74bcecf 100644
--- a/incremental_calibration/src/core/IncrementalEstimator.cpp
+++ b/incremental_calibration/src/core/IncrementalEstimator.cpp
@@ -473,8 +473,11 @@ namespace aslam {
       // remove the batch
       _problem->remove(idx);
 
-      // reoptimize
-      reoptimize();
+      // reoptimize, unless nothing is known anymore
+      if (_problem->isGroupInProblem(_margGroupId))
+        reoptimize();
+      else
+        resetStatistics();
     }
 
     void IncrementalEstimator::removeBatch(const BatchSP& batch) {
@@ -504,6 +507,32 @@ namespace aslam {
       }
     }
 
+    void IncrementalEstimator::resetStatistics() {
+      _informationGain = 0.0;
+      _svLog2Sum = 0.0;
+      _nobsBasis.resize(0, 0);
+      _nobsBasisScaled.resize(0, 0);
+      _obsBasis.resize(0, 0);
+      _obsBasisScaled.resize(0, 0);
+      _sigma2Theta.resize(0, 0);
+      _sigma2ThetaScaled.resize(0, 0);
+      _sigma2ThetaObs.resize(0, 0);
+      _sigma2ThetaObsScaled.resize(0, 0);
+      _singularValues.resize(0);
+      _singularValuesScaled.resize(0);
+      _svdTolerance = 0.0;
+      _qrTolerance = -1.0;
+      _rankTheta = -1;
+      _rankThetaDeficiency = -1;
+      _rankPsi = -1;
+      _rankPsiDeficiency = -1;
+      _peakMemoryUsage = 0;
+      _memoryUsage = 0;
+      _numFlops = 0.0;
+      _initialCost = 0.0;
+      _finalCost = 0.0;
+    }
+
     void IncrementalEstimator::restoreLinearSolver() {
       // init the matrix structure
       std::vector<aslam::backend::DesignVariable*> dvs;
-- 
2.43.0


From b8c1530c7e1f761690f1f5188a1b1351067e90e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 09/57] fix: Grid refuses negative indices instead of accessing
 memory before its cells

---
 .../include/aslam/calibration/data-structures/Grid.tpp         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
index 884ac16..1ed0d22 100644
--- a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
+++ b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
@@ -213,7 +213,8 @@ namespace aslam {
 
     template <typename T, typename C, int M>
     bool Grid<T, C, M>::isValidIndex(const Index& idx) const {
-      return ((idx.array() < mNumCells.array()).all());
+      return ((idx.array() >= 0).all() &&
+        (idx.array() < mNumCells.array()).all());
     }
 
     template <typename T, typename C, int M>
-- 
2.43.0


From 3295768fd121ad175e499a077ace86ea2b8a02a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 10/57] fix: Grid points just below the maximum belong to the
 last cell despite rounding

---
 .../include/aslam/calibration/data-structures/Grid.tpp      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
index 1ed0d22..453d9b3 100644
--- a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
+++ b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
@@ -177,8 +177,12 @@ namespace aslam {
       for (size_t i = 0; i < static_cast<size_t>(point.size()); ++i)
         if (point(i) == mMaximum(i))
           idx(i) = mNumCells(i) - 1;
-        else
+        else {
           idx(i) = (point(i) - mMinimum(i)) / mResolution(i);
+          // the quotient may be rounded up for points just below the maximum
+          if (idx(i) >= mNumCells(i))
+            idx(i) = mNumCells(i) - 1;
+        }
       return idx;
     }
 
-- 
2.43.0


From 49a949ca693acc13e4df800a18703396b51defd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:47 +0000
Subject: [PATCH 11/57] fix: histogram statistics can be instantiated
 (two-phase lookup, scalar type)

---
 .../include/aslam/calibration/statistics/Histogram1v.tpp  | 8 ++++----
 .../include/aslam/calibration/statistics/HistogramMv.tpp  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp b/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp
index 9dfa792..bf3373c 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/Histogram1v.tpp
@@ -44,7 +44,7 @@ namespace aslam {
     double Histogram<T, 1>::getMean() const {
       double mean = 0;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         mean += this->getCoordinates(i)(0) * this->getCell(i);
       return mean / getSum();
     }
@@ -54,7 +54,7 @@ namespace aslam {
       const double sum = getSum();
       double currentSum = 0;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i)) {
+          this->incrementIndex(i)) {
         currentSum += this->getCell(i);
         if (currentSum >= sum * 0.5)
           return this->getCoordinates(i)(0);
@@ -67,7 +67,7 @@ namespace aslam {
       double max = -std::numeric_limits<double>::infinity();
       Index modeIdx;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i)) {
+          this->incrementIndex(i)) {
         if (this->getCell(i) > max) {
           max = this->getCell(i);
           modeIdx = i;
@@ -81,7 +81,7 @@ namespace aslam {
       double variance = 0;
       const double mean = getMean();
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         variance += (this->getCoordinates(i)(0) - mean) *
           (this->getCoordinates(i)(0) - mean) * this->getCell(i);
       return variance / (getSum() - 1);
diff --git a/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp
index 8ba7b46..3c34abc 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/HistogramMv.tpp
@@ -43,7 +43,7 @@ namespace aslam {
     typename Histogram<T, M>::Mean Histogram<T, M>::getMean() const {
       Mean mean = Mean::Zero(this->mNumCells.size());
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         mean += this->getCoordinates(i).template cast<double>() *
           this->getCell(i);
       return mean / getSum();
@@ -54,13 +54,13 @@ namespace aslam {
       double max = -std::numeric_limits<double>::infinity();
       Index modeIdx;
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i)) {
+          this->incrementIndex(i)) {
         if (this->getCell(i) > max) {
           max = this->getCell(i);
           modeIdx = i;
         }
       }
-      return this->getCoordinates(modeIdx);
+      return this->getCoordinates(modeIdx).template cast<double>();
     }
 
     template <typename T, int M>
@@ -70,7 +70,7 @@ namespace aslam {
         this->mNumCells.size());
       const Mean mean = getMean();
       for (Index i = Index::Zero(this->mNumCells.size()); i != this->mNumCells;
-          incrementIndex(i))
+          this->incrementIndex(i))
         covariance += (this->getCoordinates(i).template cast<double>() - mean) *
           (this->getCoordinates(i).template cast<double>() - mean).transpose() *
           this->getCell(i);
-- 
2.43.0


From e14d4364a7f32807f9883b747b0b33d32414e807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:47 +0000
Subject: [PATCH 12/57] fix: centre of a cell of an integer grid lies in that
 cell for negative coordinates

---
 .../include/aslam/calibration/data-structures/Grid.tpp         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
index 453d9b3..3e4098e 100644
--- a/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
+++ b/incremental_calibration/include/aslam/calibration/data-structures/Grid.tpp
@@ -205,7 +205,8 @@ namespace aslam {
           __FILE__, __LINE__);
       Coordinate point(idx.size());
       for (size_t i = 0; i < static_cast<size_t>(idx.size()); ++i)
-        point[i] = mMinimum(i) + (idx(i) + 0.5) * mResolution(i);
+        point[i] = mMinimum(i) +
+          static_cast<T>((idx(i) + 0.5) * mResolution(i));
       return point;
     }
 
-- 
2.43.0


From cbdab11c6bef25b08bf0493c6bdf014e6f7175cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 13/57] fix: a multivariate normal refuses covariances that are
 not positive definite

A singular covariance was accepted, and yields infinite precision and densities;
a refused covariance left its Cholesky factor behind, so that samples no longer
matched the covariance.
---
 .../aslam/calibration/statistics/NormalDistributionMv.tpp    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp
index ae7b7c9..955fa04 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/NormalDistributionMv.tpp
@@ -101,8 +101,8 @@ namespace aslam {
           "NormalDistribution<M>::setCovariance(): "
           "covariance must be symmetric",
           __FILE__, __LINE__);
-      mTransformation = Eigen::LLT<Covariance>(covariance);
-      if (!Eigen::LDLT<Covariance>(covariance).isPositive())
+      const Eigen::LLT<Covariance> transformation(covariance);
+      if (transformation.info() != Eigen::Success)
         throw BadArgumentException<Covariance>(covariance,
           "NormalDistribution<M>::setCovariance(): covariance must be positive "
           "definite",
@@ -111,6 +111,7 @@ namespace aslam {
         throw BadArgumentException<Covariance>(covariance,
           "NormalDistribution<M>::setCovariance(): variances must be positive",
           __FILE__, __LINE__);
+      mTransformation = transformation;
       mPrecision = covariance.inverse();
       mDeterminant = covariance.determinant();
       mNormalizer = 0.5 * mMean.size() * log(2.0 * M_PI) + 0.5 *
-- 
2.43.0


From 0cdefd7f40818ef212a934bc78680721fa37c106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 14/57] fix: mean and median of a uniform distribution are the
 middle of its support

---
 .../aslam/calibration/statistics/UniformDistribution1v.tpp  | 4 ++--
 .../aslam/calibration/statistics/UniformDistributionMv.tpp  | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp b/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp
index 2b012da..48d1b0a 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/UniformDistribution1v.tpp
@@ -136,13 +136,13 @@ namespace aslam {
     template <typename X>
     typename UniformDistribution<X>::Mean UniformDistribution<X>::getMean()
         const {
-      return 0.5 * (mMaxSupport - mMinSupport);
+      return 0.5 * mMinSupport + 0.5 * mMaxSupport;
     }
 
     template <typename X>
     typename UniformDistribution<X>::Median UniformDistribution<X>::getMedian()
         const {
-      return 0.5 * (mMaxSupport - mMinSupport);
+      return 0.5 * mMinSupport + 0.5 * mMaxSupport;
     }
 
     template <typename X>
diff --git a/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
index bc385a6..6ffe3c7 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
@@ -141,7 +141,8 @@ namespace aslam {
     template <typename X, int M>
     typename UniformDistribution<X, M>::Mean
         UniformDistribution<X, M>::getMean() const {
-      return 0.5 * (mMaxSupport - mMinSupport).template cast<double>();
+      return 0.5 * (mMinSupport.template cast<double>() +
+        mMaxSupport.template cast<double>());
     }
 
     template <typename X, int M>
@@ -154,7 +155,8 @@ namespace aslam {
     template <typename X, int M>
     typename UniformDistribution<X, M>::Median
         UniformDistribution<X, M>::getMedian() const {
-      return 0.5 * (mMaxSupport - mMinSupport).template cast<double>();
+      return 0.5 * (mMinSupport.template cast<double>() +
+        mMaxSupport.template cast<double>());
     }
 
     template <typename X, int M>
-- 
2.43.0


From b602b560df9ce0d55a009a3b850da586933e35c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 15/57] fix: covariance of a multivariate uniform distribution
 uses each dimension's range

It used the volume of the whole support for every dimension.
---
 .../statistics/UniformDistributionMv.tpp      | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp b/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
index 6ffe3c7..0c5090d 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/UniformDistributionMv.tpp
@@ -193,12 +193,10 @@ namespace aslam {
     UniformDistribution<X, M>::Traits::getCovariance(
         const Eigen::Matrix<Z, M, 1>& minSupport,
         const Eigen::Matrix<Z, M, 1>& maxSupport) {
-      const Eigen::Matrix<double, M, M> covariance =
-        Eigen::Matrix<double, M, M>::Identity(minSupport.size(),
-        minSupport.size());
-      const double supportArea =
-        Traits::template getSupportArea<Z, true>(minSupport, maxSupport);
-      return (supportArea * supportArea) / 12.0 * covariance;
+      const Eigen::Matrix<double, M, 1> range =
+        maxSupport.template cast<double>() -
+        minSupport.template cast<double>();
+      return (range.array().square() / 12.0).matrix().asDiagonal();
     }
 
     template <typename X, int M>
@@ -207,12 +205,11 @@ namespace aslam {
     UniformDistribution<X, M>::Traits::getCovariance(
         const Eigen::Matrix<Z, M, 1>& minSupport,
         const Eigen::Matrix<Z, M, 1>& maxSupport) {
-      const Eigen::Matrix<double, M, M> covariance =
-        Eigen::Matrix<double, M, M>::Identity(minSupport.size(),
-        minSupport.size());
-      const double supportArea =
-        Traits::template getSupportArea<Z, true>(minSupport, maxSupport);
-      return (supportArea * supportArea - 1.0) / 12.0 * covariance;
+      const Eigen::Matrix<double, M, 1> range =
+        maxSupport.template cast<double>() -
+        minSupport.template cast<double>();
+      return (((range.array() + 1.0).square() - 1.0) / 12.0).matrix().
+        asDiagonal();
     }
 
   }
-- 
2.43.0


From 14636b9a247106a9edceac78cfa020af3ab681ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 16/57] fix: KL divergence between gamma distributions

Both expectations of log(x) are under the first distribution, so both digamma terms
are at its shape; the result could be negative.
---
 .../include/aslam/calibration/statistics/GammaDistribution.tpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp b/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
index ff1e8a9..af36136 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
@@ -184,7 +184,7 @@ namespace aslam {
       LogGammaFunction<T> logGammaFunction;
       const DigammaFunction<T> digammaFunction;
       return (mShape - 1) * digammaFunction(mShape) -
-        (other.mShape - 1) * digammaFunction(other.mShape) -
+        (other.mShape - 1) * digammaFunction(mShape) -
         logGammaFunction(mShape) +
         logGammaFunction(other.mShape) + other.mShape *
         (log(mInvScale) - log(other.mInvScale)) +
-- 
2.43.0


From fda64d46cc8b22b22ef619665e4e0cce4ddbaf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 17/57] fix: log-density of a gamma distribution is -infinity,
 not NaN, outside its support

---
 .../aslam/calibration/statistics/GammaDistribution.tpp      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp b/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
index af36136..c5ca7a5 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/GammaDistribution.tpp
@@ -3,6 +3,8 @@
  * jerome.maye@gmail.com                                                      *
  ******************************************************************************/
 
+#include <limits>
+
 #include <boost/math/distributions/gamma.hpp>
 
 #include "aslam/calibration/statistics/Randomizer.h"
@@ -125,7 +127,9 @@ namespace aslam {
 
     template <typename T>
     double GammaDistribution<T>::logpdf(const RandomVariable& value) const {
-      if (value == 0 && mShape == T(1))
+      if (value < 0)
+        return -std::numeric_limits<double>::infinity();
+      else if (value == 0 && mShape == T(1))
         return -mNormalizer;
       else
         return (mShape - 1) * log(value) - value * mInvScale - mNormalizer;
-- 
2.43.0


From a41609b139043bfcff6c6047504e15e8b896d595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 18/57] fix: integer samplers draw from the distributions they
 are named after

With an integer sample type the two end values of a uniform distribution had half
the probability of the others, and every other sampler used that integer draw in
place of a real one: normal samples never returned, the others were constant.
---
 .../aslam/calibration/statistics/Randomizer.h | 14 +++++++
 .../calibration/statistics/Randomizer.tpp     | 41 ++++++++++++++-----
 2 files changed, 44 insertions(+), 11 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h
index c000663..c8dc37d 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h
+++ b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.h
@@ -38,6 +38,12 @@ namespace aslam {
         /// Round function for integer types
         template <typename Z, typename IsInteger<Z>::Result::Numeric>
           static Z round(const double& value);
+        /// Uniform sample for real types
+        template <typename Z, typename IsReal<Z>::Result::Numeric>
+          static Z uniform(const Z& minSupport, const Z& maxSupport);
+        /// Uniform sample for integer types
+        template <typename Z, typename IsInteger<Z>::Result::Numeric>
+          static Z uniform(const Z& minSupport, const Z& maxSupport);
       };
       /** @}
         */
@@ -89,6 +95,14 @@ namespace aslam {
         */
 
     protected:
+      /** \name Protected methods
+        @{
+        */
+      /// Returns a real number between 0 and 1, whatever the sample type
+      static double sampleUnit();
+      /** @}
+        */
+
       /** \name Stream methods
         @{
         */
diff --git a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
index e481f06..788ba5c 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
@@ -90,8 +90,7 @@ namespace aslam {
           "Randomizer<T, M>::sampleUniform(): minimum support must be smaller "
           "than maximum support",
           __FILE__, __LINE__);
-      return minSupport + Traits::template round<T, true>(random() /
-        (double)RAND_MAX * (maxSupport - minSupport));
+      return Traits::template uniform<T, true>(minSupport, maxSupport);
     }
 
     template <typename T, int M>
@@ -103,8 +102,8 @@ namespace aslam {
           __FILE__, __LINE__);
       double u, v, s;
       do {
-        u = 2.0 * sampleUniform() - 1.0;
-        v = 2.0 * sampleUniform() - 1.0;
+        u = 2.0 * sampleUnit() - 1.0;
+        v = 2.0 * sampleUnit() - 1.0;
         s = u * u + v * v;
       }
       while (s >= 1.0 || s == 0.0);
@@ -123,7 +122,7 @@ namespace aslam {
           "to 1 and probabilities bigger or equal to 0",
           __FILE__, __LINE__);
       double sum = probabilities(0);
-      const double u = sampleUniform();
+      const double u = sampleUnit();
       for (size_t i = 1; i < (size_t)probabilities.size(); ++i)
         if (u > sum)
           sum += probabilities(i);
@@ -143,7 +142,7 @@ namespace aslam {
       double p = 1.0;
       do {
         k++;
-        p *= sampleUniform();
+        p *= sampleUnit();
       }
       while (p > l);
       return k - 1;
@@ -158,7 +157,7 @@ namespace aslam {
           __FILE__, __LINE__);
       double u;
       do {
-        u = sampleUniform();
+        u = sampleUnit();
       }
       while (u == 0);
       return -log(u) / rate;
@@ -173,7 +172,7 @@ namespace aslam {
           __FILE__, __LINE__);
       double u;
       do {
-        u = sampleUniform();
+        u = sampleUnit();
       }
       while (u == 0);
       return floor(log(u) / log(1 - probability));
@@ -199,17 +198,17 @@ namespace aslam {
       double z = 0;
       if (fabs(fractionalPart) > std::numeric_limits<double>::epsilon())
         while (true) {
-          const double p = b * sampleUniform();
+          const double p = b * sampleUnit();
           if (p > 1) {
             z = -log((b - p) / fractionalPart);
-            if (sampleUniform() > pow(z, fractionalPart - 1))
+            if (sampleUnit() > pow(z, fractionalPart - 1))
               continue;
             else
               break;
           }
           else {
             z = pow(p, 1.0 / fractionalPart);
-            if (sampleUniform() > exp(-z))
+            if (sampleUnit() > exp(-z))
               continue;
             else
               break;
@@ -218,6 +217,26 @@ namespace aslam {
       return (y + z) / invScale;
     }
 
+    template <typename T, int M>
+    double Randomizer<T, M>::sampleUnit() {
+      return random() / (double)RAND_MAX;
+    }
+
+    template <typename T, int M>
+    template <typename Z, typename IsReal<Z>::Result::Numeric>
+    Z Randomizer<T, M>::Traits::uniform(const Z& minSupport, const Z&
+        maxSupport) {
+      return minSupport + sampleUnit() * (maxSupport - minSupport);
+    }
+
+    template <typename T, int M>
+    template <typename Z, typename IsInteger<Z>::Result::Numeric>
+    Z Randomizer<T, M>::Traits::uniform(const Z& minSupport, const Z&
+        maxSupport) {
+      return (Z)floor(minSupport + random() / (RAND_MAX + 1.0) *
+        ((double)maxSupport - minSupport + 1.0));
+    }
+
     template <typename T, int M>
     template <typename Z, typename IsReal<Z>::Result::Numeric>
     Z Randomizer<T, M>::Traits::round(const Z& value) {
-- 
2.43.0


From a28277c175d39bc9037647b6df421a9bd7d57ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 19/57] fix: Poisson samples of large means

exp(-mean) underflows above 745, and the samples then stayed around 745 whatever the
mean.
---
 .../include/aslam/calibration/statistics/Randomizer.tpp    | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
index 788ba5c..65c1090 100644
--- a/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
+++ b/incremental_calibration/include/aslam/calibration/statistics/Randomizer.tpp
@@ -137,14 +137,13 @@ namespace aslam {
         throw BadArgumentException<double>(mean,
           "Randomizer<T, M>::samplePoisson(): mean must be strictly positive",
           __FILE__, __LINE__);
-      const double l = exp(-mean);
       size_t k = 0;
-      double p = 1.0;
+      double t = 0.0;
       do {
         k++;
-        p *= sampleUnit();
+        t -= log(sampleUnit());
       }
-      while (p > l);
+      while (t < mean);
       return k - 1;
     }
 
-- 
2.43.0


From c0c82e597297fd34a8193a526825f331bfc52f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:27 +0000
Subject: [PATCH 20/57] fix: inverting a transformation twice, or one given by
 its matrix

The inverse was computed from rotation and translation factors that are not set for
a transformation given by its matrix, and that no longer compose to the
transformation once it has been inverted.
---
 .../aslam/calibration/geometry/Transformation2d.tpp | 12 ++++++++----
 .../aslam/calibration/geometry/Transformation3d.tpp | 13 ++++++++-----
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/geometry/Transformation2d.tpp b/incremental_calibration/include/aslam/calibration/geometry/Transformation2d.tpp
index 656ff1e..5353c4b 100644
--- a/incremental_calibration/include/aslam/calibration/geometry/Transformation2d.tpp
+++ b/incremental_calibration/include/aslam/calibration/geometry/Transformation2d.tpp
@@ -136,10 +136,14 @@ namespace aslam {
 
     template <typename T>
     const Transformation<T, 2>& Transformation<T, 2>::inverse() {
-      mRotationMatrix.transposeInPlace();
-      mTranslationMatrix(0, 2) = -mTranslationMatrix(0, 2);
-      mTranslationMatrix(1, 2) = -mTranslationMatrix(1, 2);
-      mTransformationMatrix = mRotationMatrix * mTranslationMatrix;
+      mRotationMatrix.setIdentity();
+      mRotationMatrix.template topLeftCorner<2, 2>() =
+        mTransformationMatrix.template topLeftCorner<2, 2>().transpose();
+      mTranslationMatrix.setIdentity();
+      mTranslationMatrix.template topRightCorner<2, 1>() =
+        -mRotationMatrix.template topLeftCorner<2, 2>() *
+        mTransformationMatrix.template topRightCorner<2, 1>();
+      mTransformationMatrix = mTranslationMatrix * mRotationMatrix;
       return *this;
     }
 
diff --git a/incremental_calibration/include/aslam/calibration/geometry/Transformation3d.tpp b/incremental_calibration/include/aslam/calibration/geometry/Transformation3d.tpp
index 9dd2dc7..01801b3 100644
--- a/incremental_calibration/include/aslam/calibration/geometry/Transformation3d.tpp
+++ b/incremental_calibration/include/aslam/calibration/geometry/Transformation3d.tpp
@@ -140,11 +140,14 @@ namespace aslam {
 
     template <typename T>
     const Transformation<T, 3>& Transformation<T, 3>::inverse() {
-      mRotationMatrix.transposeInPlace();
-      mTranslationMatrix(0, 3) = -mTranslationMatrix(0, 3);
-      mTranslationMatrix(1, 3) = -mTranslationMatrix(1, 3);
-      mTranslationMatrix(2, 3) = -mTranslationMatrix(2, 3);
-      mTransformationMatrix = mRotationMatrix * mTranslationMatrix;
+      mRotationMatrix.setIdentity();
+      mRotationMatrix.template topLeftCorner<3, 3>() =
+        mTransformationMatrix.template topLeftCorner<3, 3>().transpose();
+      mTranslationMatrix.setIdentity();
+      mTranslationMatrix.template topRightCorner<3, 1>() =
+        -mRotationMatrix.template topLeftCorner<3, 3>() *
+        mTransformationMatrix.template topRightCorner<3, 1>();
+      mTransformationMatrix = mTranslationMatrix * mRotationMatrix;
       return *this;
     }
 
-- 
2.43.0


From 62787bf7a30b56637508c920e4aedfdcdf8f7b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 21/57] fix: size_t and ssize_t scalar traits are complete

The multivariate maximum-likelihood estimator could not be instantiated: dividing by its
number of points needs traits that the specializations left out.
---
 .../include/aslam/calibration/utils/SizeTSupport.h              | 2 +-
 .../include/aslam/calibration/utils/SsizeTSupport.h             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration/include/aslam/calibration/utils/SizeTSupport.h b/incremental_calibration/include/aslam/calibration/utils/SizeTSupport.h
index b7c3a25..fe506c2 100644
--- a/incremental_calibration/include/aslam/calibration/utils/SizeTSupport.h
+++ b/incremental_calibration/include/aslam/calibration/utils/SizeTSupport.h
@@ -19,7 +19,7 @@ namespace Eigen {
   /** The NumTraits<size_t> structure defines support for size_t type in Eigen.
       \brief Eigen support for size_t
     */
-  template<> struct NumTraits<size_t> {
+  template<> struct NumTraits<size_t> : GenericNumTraits<size_t> {
     /// Real definition
     typedef size_t Real;
     /// Floating point definition
diff --git a/incremental_calibration/include/aslam/calibration/utils/SsizeTSupport.h b/incremental_calibration/include/aslam/calibration/utils/SsizeTSupport.h
index cd96439..2902bd1 100644
--- a/incremental_calibration/include/aslam/calibration/utils/SsizeTSupport.h
+++ b/incremental_calibration/include/aslam/calibration/utils/SsizeTSupport.h
@@ -20,7 +20,7 @@ namespace Eigen {
       Eigen.
       \brief Eigen support for ssize_t
     */
-  template<> struct NumTraits<ssize_t> {
+  template<> struct NumTraits<ssize_t> : GenericNumTraits<ssize_t> {
     /// Real definition
     typedef ssize_t Real;
     /// Floating point definition
-- 
2.43.0


From 8da81c1d666711f17ee241bf24193a9deea72c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:57 +0000
Subject: [PATCH 22/57] fix: a univariate normal refuses a variance that is not
 a number

An estimate from weights that sum to zero was reported as valid, with NaN mean and
variance; the multivariate version reports it as invalid.
---
 incremental_calibration/src/statistics/NormalDistribution1v.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration/src/statistics/NormalDistribution1v.cpp b/incremental_calibration/src/statistics/NormalDistribution1v.cpp
index 2236282..05ea9a2 100644
--- a/incremental_calibration/src/statistics/NormalDistribution1v.cpp
+++ b/incremental_calibration/src/statistics/NormalDistribution1v.cpp
@@ -80,7 +80,7 @@ namespace aslam {
     }
 
     void NormalDistribution<1>::setVariance(Variance variance) {
-      if (variance <= 0.0)
+      if (!(variance > 0.0))
         throw BadArgumentException<Variance>(variance,
           "NormalDistribution::setVariance(): variance must be strictly bigger "
           "than 0",
-- 
2.43.0


From 3b8d932afeab43dceb1b88b00d5a5d6176bc277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:32 +0000
Subject: [PATCH 23/57] fix: timespec of a timestamp before the epoch has its
 nanoseconds in range

They were negative, which is not a valid timespec.
---
 incremental_calibration/src/base/Timestamp.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration/src/base/Timestamp.cpp b/incremental_calibration/src/base/Timestamp.cpp
index 7dea3ba..470bb29 100644
--- a/incremental_calibration/src/base/Timestamp.cpp
+++ b/incremental_calibration/src/base/Timestamp.cpp
@@ -7,6 +7,8 @@
 
 #include <sys/time.h>
 
+#include <cmath>
+
 namespace aslam {
   namespace calibration {
 
@@ -93,8 +95,12 @@ namespace aslam {
 
     Timestamp::operator timespec() const {
       timespec time;
-      time.tv_sec = (time_t)mSeconds;
-      time.tv_nsec = (mSeconds - (time_t)mSeconds) * 1e9;
+      time.tv_sec = (time_t)floor(mSeconds);
+      time.tv_nsec = (mSeconds - time.tv_sec) * 1e9;
+      if (time.tv_nsec >= 1000000000) {
+        time.tv_sec++;
+        time.tv_nsec -= 1000000000;
+      }
       return time;
     }
 
-- 
2.43.0


From 797583074400c04984bb62dcdec86ac46a027fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:54 +0000
Subject: [PATCH 24/57] fix: date of a fractional time before the epoch is that
 of its second

---
 incremental_calibration/src/base/Timestamp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration/src/base/Timestamp.cpp b/incremental_calibration/src/base/Timestamp.cpp
index 470bb29..6774f2a 100644
--- a/incremental_calibration/src/base/Timestamp.cpp
+++ b/incremental_calibration/src/base/Timestamp.cpp
@@ -81,7 +81,7 @@ namespace aslam {
 
     std::string Timestamp::getDate(double seconds) {
       struct timeval time;
-      time.tv_sec = seconds;
+      time.tv_sec = (time_t)floor(seconds);
       struct tm* ptm;
       ptm = localtime(&time.tv_sec);
       char timeString[40];
-- 
2.43.0


From 6420e1ac4a1148645844bf1acbaaa42c229c758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:21 +0000
Subject: [PATCH 25/57] fix: setting the covariance of a laser-rangefinder
 error term changes its weight

---
 .../src/2dlrf/ErrorTermMotion.cpp                                | 1 +
 .../src/2dlrf/ErrorTermObservation.cpp                           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp
index 95c85c1..7e5ba1c 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp
@@ -89,6 +89,7 @@ namespace aslam {
 
     void ErrorTermMotion::setCovariance(const Covariance& Q) {
       _Q = Q;
+      setInvR(_Q.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermObservation.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermObservation.cpp
index ea43ecc..c568d53 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermObservation.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermObservation.cpp
@@ -90,6 +90,7 @@ namespace aslam {
 
     void ErrorTermObservation::setCovariance(const Covariance& R) {
       _R = R;
+      setInvR(_R.inverse());
     }
 
 /******************************************************************************/
-- 
2.43.0


From 3c21466e2a3870a69dfb41b560d8169ea7ae9bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:21 +0000
Subject: [PATCH 26/57] fix: a sine wave path has as many inputs as steps

---
 .../src/2dlrf/utils.cpp                                       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/utils.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/utils.cpp
index 3263ec7..e180179 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/utils.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/utils.cpp
@@ -18,8 +18,8 @@ namespace aslam {
       u.reserve(steps);
       u.push_back(Eigen::Matrix<double, 3, 1>::Zero());
       std::vector<double> cost;
-      for (double t = 0; t < steps * T; t += T)
-        cost.push_back(amplitude * cos(2 * M_PI * frequency * t));
+      for (size_t i = 0; i < steps; ++i)
+        cost.push_back(amplitude * cos(2 * M_PI * frequency * i * T));
       double theta = 0;
       for (size_t i = 1; i < cost.size(); ++i) {
         const double theta_new = atan(cost[i]);
-- 
2.43.0


From e2451911a9af022c978d49dda66f6c8835dc60db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 27/57] fix: setting the covariance of a car error term changes
 its weight

---
 .../src/error-terms/ErrorTermPose.cpp                          | 1 +
 .../src/error-terms/ErrorTermSteering.cpp                      | 3 +++
 .../src/error-terms/ErrorTermWheel.cpp                         | 1 +
 3 files changed, 5 insertions(+)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermPose.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermPose.cpp
index 8b9daa0..c99cf3a 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermPose.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermPose.cpp
@@ -75,6 +75,7 @@ namespace aslam {
 
     void ErrorTermPose::setCovariance(const Covariance& sigma2) {
       _sigma2 = sigma2;
+      setInvR(_sigma2.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
index 8d62520..e64acb6 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
@@ -77,6 +77,9 @@ namespace aslam {
 
     void ErrorTermSteering::setVariance(double sigma2) {
       _sigma2 = sigma2;
+      Eigen::Matrix<double, 1, 1> sigma2_mat;
+      sigma2_mat << sigma2;
+      setInvR(sigma2_mat.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
index 388c11a..506d04f 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
@@ -75,6 +75,7 @@ namespace aslam {
 
     void ErrorTermWheel::setCovariance(const Covariance& sigma2Wheel) {
       _sigma2Wheel = sigma2Wheel;
+      setInvR(_sigma2Wheel.inverse());
     }
 
     bool ErrorTermWheel::getFrontEnabled() const {
-- 
2.43.0


From 5e4b585cf49fa3fe1020b6cce44c942bce76a2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 28/57] fix: setting the covariance of a time-delay error term
 changes its weight

---
 .../src/error-terms/ErrorTermPose.cpp                            | 1 +
 .../src/error-terms/ErrorTermWheel.cpp                           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermPose.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermPose.cpp
index 2dbbf9d..d628e11 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermPose.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermPose.cpp
@@ -75,6 +75,7 @@ namespace aslam {
 
     void ErrorTermPose::setCovariance(const Covariance& sigma2) {
       _sigma2 = sigma2;
+      setInvR(_sigma2.inverse());
     }
 
 /******************************************************************************/
diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
index 34c6999..71019e0 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
@@ -75,6 +75,7 @@ namespace aslam {
 
     void ErrorTermWheel::setCovariance(const Covariance& sigma2Wheel) {
       _sigma2Wheel = sigma2Wheel;
+      setInvR(_sigma2Wheel.inverse());
     }
 
     bool ErrorTermWheel::getFrontEnabled() const {
-- 
2.43.0


From eb685be486aef017cad9d8324d8e987ce70faf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 29/57] fix: derivative of the front wheel error when driving
 backwards (car)

---
 .../src/error-terms/ErrorTermWheel.cpp                          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
index 506d04f..41b1c19 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermWheel.cpp
@@ -120,7 +120,7 @@ namespace aslam {
       Eigen::Matrix<double, 3, 1> J_k(v0, 0.0, 0.0);
       if (_frontEnabled) {
         const double v1 = _v_v_mw.toValue()(1);
-        const double temp1 = std::sqrt(v0 * v0 + v1 * v1);
+        const double temp1 = std::copysign(std::sqrt(v0 * v0 + v1 * v1), v0);
         J_v_v_mw(0, 0) = k * v0 / temp1;
         J_v_v_mw(0, 1) = k * v1 / temp1;
         J_v_v_mw(1, 1) = 0.0;
-- 
2.43.0


From 0d317d1c7c1398c0e2fbd24d53eaa09efa5f8a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 30/57] fix: derivative of the front wheel error when driving
 backwards (time delay)

---
 .../src/error-terms/ErrorTermWheel.cpp                          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
index 71019e0..00612cb 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/error-terms/ErrorTermWheel.cpp
@@ -120,7 +120,7 @@ namespace aslam {
       Eigen::Matrix<double, 3, 1> J_k(v0, 0.0, 0.0);
       if (_frontEnabled) {
         const double v1 = _v_v_mw.toValue()(1);
-        const double temp1 = std::sqrt(v0 * v0 + v1 * v1);
+        const double temp1 = std::copysign(std::sqrt(v0 * v0 + v1 * v1), v0);
         J_v_v_mw(0, 0) = k * v0 / temp1;
         J_v_v_mw(0, 1) = k * v1 / temp1;
         J_v_v_mw(1, 1) = 0.0;
-- 
2.43.0


From 62194e6006bac43dfbb48b2aa8ad16aec6cdfde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:40 +0000
Subject: [PATCH 31/57] fix: derivative of the steering error of a wheel moving
 sideways

---
 .../src/error-terms/ErrorTermSteering.cpp                     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
index e64acb6..68bff76 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/error-terms/ErrorTermSteering.cpp
@@ -114,8 +114,8 @@ namespace aslam {
       jacobians.add(_params, J_a);
       Eigen::Matrix<double, 1, 3> J_v_v_mw =
         Eigen::Matrix<double, 1, 3>::Zero();
-      J_v_v_mw(0, 0) = -v1 / (v0 * v0 * (v1 * v1 / (v0 * v0) + 1));
-      J_v_v_mw(0, 1) = 1 / (v0 * (v1 * v1 / (v0 * v0) + 1));
+      J_v_v_mw(0, 0) = -v1 / (v0 * v0 + v1 * v1);
+      J_v_v_mw(0, 1) = v0 / (v0 * v0 + v1 * v1);
       _v_v_mw.evaluateJacobians(jacobians, -J_v_v_mw);
     }
 
-- 
2.43.0


From 76c1465bdb77c2dab060f7dd62099825696f8486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:52 +0000
Subject: [PATCH 32/57] fix: the DMI time delay has its own entry in the car
 calibration parameters

---
 .../src/design-variables/OdometryDesignVariables.cpp            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/design-variables/OdometryDesignVariables.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/design-variables/OdometryDesignVariables.cpp
index 5cbf8ab..f49a26d 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/design-variables/OdometryDesignVariables.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/design-variables/OdometryDesignVariables.cpp
@@ -145,7 +145,7 @@ namespace aslam {
       params(18) = t_r->getParameters()(0);
       params(19) = t_f->getParameters()(0);
       params(20) = t_s->getParameters()(0);
-      params(11) = t_dmi->getParameters()(0);
+      params(21) = t_dmi->getParameters()(0);
       return params;
     }
 
-- 
2.43.0


From a7abbf5d0ebd1b6d5e954d061631c891a9f2a0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:55 +0000
Subject: [PATCH 33/57] fix: the default spline order of the car calibrator
 options is not read uninitialized

---
 .../src/algo/CarCalibratorOptions.cpp                          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibratorOptions.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibratorOptions.cpp
index 5799525..ffda2eb 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibratorOptions.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibratorOptions.cpp
@@ -44,7 +44,8 @@ namespace aslam {
         delayBound(50000000) {
     }
 
-    CarCalibratorOptions::CarCalibratorOptions(const PropertyTree& config) {
+    CarCalibratorOptions::CarCalibratorOptions(const PropertyTree& config) :
+        CarCalibratorOptions() {
       windowDuration = config.getDouble("windowDuration");
       verbose = config.getBool("verbose");
       usePose = config.getBool("usePose");
-- 
2.43.0


From d7adc07ba4019e422da386afabde062cfe7d8288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:55 +0000
Subject: [PATCH 34/57] fix: the default spline order of the time-delay
 calibrator options is not read uninitialized

---
 .../src/algo/CalibratorOptions.cpp                             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/CalibratorOptions.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/CalibratorOptions.cpp
index a1782f9..ba8fdd2 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/CalibratorOptions.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/CalibratorOptions.cpp
@@ -31,7 +31,8 @@ namespace aslam {
         delayBound(50000000) {
     }
 
-    CalibratorOptions::CalibratorOptions(const PropertyTree& config) {
+    CalibratorOptions::CalibratorOptions(const PropertyTree& config) :
+        CalibratorOptions() {
       windowDuration = config.getDouble("windowDuration");
       verbose = config.getBool("verbose");
       delayBound = config.getInt("delayBound");
-- 
2.43.0


From 945352344d5556f0a7b88d87b30bd1006ea542b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:55 +0000
Subject: [PATCH 35/57] fix: the default spline order of the egomotion
 calibrator options is not read uninitialized

---
 .../src/algo/CalibratorOptions.cpp                             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/CalibratorOptions.cpp b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/CalibratorOptions.cpp
index 4c945c5..d196bb2 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/CalibratorOptions.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/CalibratorOptions.cpp
@@ -28,7 +28,8 @@ namespace aslam {
         referenceSensor(0) {
     }
 
-    CalibratorOptions::CalibratorOptions(const PropertyTree& config) {
+    CalibratorOptions::CalibratorOptions(const PropertyTree& config) :
+        CalibratorOptions() {
       windowDuration = config.getDouble("windowDuration");
       verbose = config.getBool("verbose");
       delayBound = config.getInt("delayBound");
-- 
2.43.0


From 996a90037fa0816218075b3fe78d257b4bd41bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 36/57] fix: the rear wheels of the car calibrator use their
 own variances

---
 .../src/algo/CarCalibrator.cpp                            | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
index a320552..0f2443e 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
@@ -890,12 +890,12 @@ namespace aslam {
 
         auto e_rlw = boost::make_shared<ErrorTermWheel>(w_v_mw_l,
           ScalarExpression(_odometryDesignVariables->k_rl),
-          it->second.left, Eigen::Vector3d(_options.flwVariance,
+          it->second.left, Eigen::Vector3d(_options.rlwVariance,
           _options.vyVariance, _options.vzVariance).asDiagonal());
         batch->addErrorTerm(e_rlw);
         auto e_rrw = boost::make_shared<ErrorTermWheel>(w_v_mw_r,
           ScalarExpression(_odometryDesignVariables->k_rr),
-          it->second.right, Eigen::Vector3d(_options.frwVariance,
+          it->second.right, Eigen::Vector3d(_options.rrwVariance,
           _options.vyVariance, _options.vzVariance).asDiagonal());
         batch->addErrorTerm(e_rrw);
       }
@@ -948,11 +948,11 @@ namespace aslam {
 
         auto e_rlw = boost::make_shared<ErrorTermWheel>(w_v_mw_l,
           ScalarExpression(_odometryDesignVariables->k_rl),
-          it->second.left, Eigen::Vector3d(_options.flwVariance,
+          it->second.left, Eigen::Vector3d(_options.rlwVariance,
           _options.vyVariance, _options.vzVariance).asDiagonal());
         auto e_rrw = boost::make_shared<ErrorTermWheel>(w_v_mw_r,
           ScalarExpression(_odometryDesignVariables->k_rr),
-          it->second.right, Eigen::Vector3d(_options.frwVariance,
+          it->second.right, Eigen::Vector3d(_options.rrwVariance,
           _options.vyVariance, _options.vzVariance).asDiagonal());
         auto sr_l = e_rlw->evaluateError();
         auto error_l = e_rlw->error();
-- 
2.43.0


From f5f16f614efb2ec0c1cf40cce7ab01ca15c20405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 37/57] fix: predicting with less than two poses in the car
 calibrator does nothing

---
 .../src/algo/CarCalibrator.cpp                                 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
index 0f2443e..db2b97f 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
@@ -286,6 +286,9 @@ namespace aslam {
     }
 
     void CarCalibrator::predict() {
+      if (_poseMeasurements.size() < 2)
+        return;
+
       initSplines(_poseMeasurements);
       predictPoses(_poseMeasurements);
       predictVelocities(_velocitiesMeasurements);
-- 
2.43.0


From 9277318f32ea07f543730ed9afb29468c7d2260a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:28 +0000
Subject: [PATCH 38/57] fix: the car calibrator prints the observability of the
 variables it estimates

---
 .../src/algo/CarCalibrator.cpp                | 60 +++++++++----------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
index db2b97f..9374676 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/algo/CarCalibrator.cpp
@@ -377,36 +377,36 @@ namespace aslam {
         std::cout << "singular values: " << std::endl
           << ret.singularValuesScaled << std::endl;
         std::cout << "observability: " << std::endl;
-        std::cout << "e_r: " << ret.obsBasisScaled.row(0).norm() << std::endl;
-        std::cout << "e_f: " << ret.obsBasisScaled.row(1).norm() << std::endl;
-        std::cout << "L: " << ret.obsBasisScaled.row(2).norm() << std::endl;
-        std::cout << "a0: " << ret.obsBasisScaled.row(3).norm() << std::endl;
-        std::cout << "a1: " << ret.obsBasisScaled.row(4).norm() << std::endl;
-        std::cout << "a2: " << ret.obsBasisScaled.row(5).norm() << std::endl;
-        std::cout << "a3: " << ret.obsBasisScaled.row(6).norm() << std::endl;
-        std::cout << "k_rl: " << ret.obsBasisScaled.row(7).norm() << std::endl;
-        std::cout << "k_rr: " << ret.obsBasisScaled.row(8).norm() << std::endl;
-        std::cout << "k_fl: " << ret.obsBasisScaled.row(9).norm() << std::endl;
-        std::cout << "k_fr: " << ret.obsBasisScaled.row(10).norm() << std::endl;
-        std::cout << "k_dmi: " << ret.obsBasisScaled.row(11).norm()
-          << std::endl;
-        std::cout << "v_r_vr_1: " << ret.obsBasisScaled.row(12).norm()
-          << std::endl;
-        std::cout << "v_r_vr_2: " << ret.obsBasisScaled.row(13).norm()
-          << std::endl;
-        std::cout << "v_r_vr_3: " << ret.obsBasisScaled.row(14).norm()
-          << std::endl;
-        std::cout << "v_R_r_1: " << ret.obsBasisScaled.row(15).norm()
-          << std::endl;
-        std::cout << "v_R_r_2: " << ret.obsBasisScaled.row(16).norm()
-          << std::endl;
-        std::cout << "v_R_r_3: " << ret.obsBasisScaled.row(17).norm()
-          << std::endl;
-        std::cout << "t_r: " << ret.obsBasisScaled.row(18).norm() << std::endl;
-        std::cout << "t_f: " << ret.obsBasisScaled.row(19).norm() << std::endl;
-        std::cout << "t_s: " << ret.obsBasisScaled.row(20).norm() << std::endl;
-        std::cout << "t_dmi: " << ret.obsBasisScaled.row(21).norm()
-          << std::endl;
+        // only active variables have a row, and none without column scaling
+        Eigen::DenseIndex row = 0;
+        auto printObservability = [&](const std::string& name, bool active) {
+          if (active && row < ret.obsBasisScaled.rows())
+            std::cout << name << ": " << ret.obsBasisScaled.row(row++).norm()
+              << std::endl;
+        };
+        const OdometryDesignVariables& dv = *_odometryDesignVariables;
+        printObservability("e_r", dv.e_r->isActive());
+        printObservability("e_f", dv.e_f->isActive());
+        printObservability("L", dv.L->isActive());
+        printObservability("a0", dv.a->isActive());
+        printObservability("a1", dv.a->isActive());
+        printObservability("a2", dv.a->isActive());
+        printObservability("a3", dv.a->isActive());
+        printObservability("k_rl", dv.k_rl->isActive());
+        printObservability("k_rr", dv.k_rr->isActive());
+        printObservability("k_fl", dv.k_fl->isActive());
+        printObservability("k_fr", dv.k_fr->isActive());
+        printObservability("k_dmi", dv.k_dmi->isActive());
+        printObservability("v_r_vr_1", dv.v_r_vr->isActive());
+        printObservability("v_r_vr_2", dv.v_r_vr->isActive());
+        printObservability("v_r_vr_3", dv.v_r_vr->isActive());
+        printObservability("v_R_r_1", dv.v_R_r->isActive());
+        printObservability("v_R_r_2", dv.v_R_r->isActive());
+        printObservability("v_R_r_3", dv.v_R_r->isActive());
+        printObservability("t_r", dv.t_r->isActive());
+        printObservability("t_f", dv.t_f->isActive());
+        printObservability("t_s", dv.t_s->isActive());
+        printObservability("t_dmi", dv.t_dmi->isActive());
       }
       _infoGainHistory.push_back(ret.informationGain);
       _odometryVariablesHistory.push_back(
-- 
2.43.0


From 318caf3ac10a03235091da917c24738eafb677b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:28 +0000
Subject: [PATCH 39/57] fix: the time-delay calibrator predicts wheel speeds as
 its error terms do

---
 .../src/algo/Calibrator.cpp                        | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
index 5869d1e..31be9a7 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
@@ -500,12 +500,9 @@ namespace aslam {
           _options.vyVariance, _options.vzVariance).asDiagonal(), false);
         auto sr_l = e_lw->evaluateError();
         auto error_l = e_lw->error();
-        double v0 = v_v_wl.toValue()(0);
-        double v1 = v_v_wl.toValue()(1);
-        double k = _odometryDesignVariables->k_l->toScalar();
-        double temp = std::sqrt(v1 * v1 / (v0 * v0) + 1);
         WheelSpeedMeasurement data;
-        data.value = k * (v0 / temp + v1 * v1 / (v0 * temp));
+        data.value = _odometryDesignVariables->k_l->toScalar() *
+          v_v_wl.toValue()(0);
         _leftWheelSpeedMeasurementsPred.push_back(std::make_pair(timestamp,
           data));
         _leftWheelSpeedMeasurementsPredErrors.push_back(error_l);
@@ -600,12 +597,9 @@ namespace aslam {
           _options.vyVariance, _options.vzVariance).asDiagonal(), false);
         auto sr_r = e_rw->evaluateError();
         auto error_r = e_rw->error();
-        double v0 = v_v_wr.toValue()(0);
-        double v1 = v_v_wr.toValue()(1);
-        double k = _odometryDesignVariables->k_r->toScalar();
-        double temp = std::sqrt(v1 * v1 / (v0 * v0) + 1);
         WheelSpeedMeasurement data;
-        data.value = k * (v0 / temp + v1 * v1 / (v0 * temp));
+        data.value = _odometryDesignVariables->k_r->toScalar() *
+          v_v_wr.toValue()(0);
         _rightWheelSpeedMeasurementsPred.push_back(std::make_pair(timestamp,
           data));
         _rightWheelSpeedMeasurementsPredErrors.push_back(error_r);
-- 
2.43.0


From cc2e6671bc43336168aca86b867b24037d96b93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:28 +0000
Subject: [PATCH 40/57] fix: predicting with less than two poses in the
 time-delay calibrator does nothing

---
 .../src/algo/Calibrator.cpp                                    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
index 31be9a7..25a2725 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
@@ -208,6 +208,9 @@ namespace aslam {
     }
 
     void Calibrator::predict() {
+      if (_poseMeasurements.size() < 2)
+        return;
+
       auto batch = boost::make_shared<OptimizationProblemSpline>();
       _odometryDesignVariables->addToBatch(batch, 1);
       initSplines(_poseMeasurements);
-- 
2.43.0


From e0495bf990fd887904e8d48718c2c5e2ebc95325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:28 +0000
Subject: [PATCH 41/57] fix: the time-delay calibrator prints the observability
 of the variables it estimates

---
 .../src/algo/Calibrator.cpp                   | 36 ++++++++++---------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
index 25a2725..6ed7482 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_time_delay/src/algo/Calibrator.cpp
@@ -275,23 +275,25 @@ namespace aslam {
         std::cout << "singular values: " << std::endl
           << ret.singularValuesScaled << std::endl;
         std::cout << "observability: " << std::endl;
-        std::cout << "b: " << ret.obsBasisScaled.row(0).norm() << std::endl;
-        std::cout << "k_l: " << ret.obsBasisScaled.row(1).norm() << std::endl;
-        std::cout << "t_l: " << ret.obsBasisScaled.row(2).norm() << std::endl;
-        std::cout << "k_r: " << ret.obsBasisScaled.row(3).norm() << std::endl;
-        std::cout << "t_r: " << ret.obsBasisScaled.row(4).norm() << std::endl;
-        std::cout << "v_r_vp_1: " << ret.obsBasisScaled.row(5).norm()
-          << std::endl;
-        std::cout << "v_r_vp_2: " << ret.obsBasisScaled.row(6).norm()
-          << std::endl;
-        std::cout << "v_r_vp_3: " << ret.obsBasisScaled.row(7).norm()
-          << std::endl;
-        std::cout << "v_R_p_1: " << ret.obsBasisScaled.row(8).norm()
-          << std::endl;
-        std::cout << "v_R_p_2: " << ret.obsBasisScaled.row(9).norm()
-          << std::endl;
-        std::cout << "v_R_p_3: " << ret.obsBasisScaled.row(10).norm()
-          << std::endl;
+        // only active variables have a row, and none without column scaling
+        Eigen::DenseIndex row = 0;
+        auto printObservability = [&](const std::string& name, bool active) {
+          if (active && row < ret.obsBasisScaled.rows())
+            std::cout << name << ": " << ret.obsBasisScaled.row(row++).norm()
+              << std::endl;
+        };
+        const OdometryDesignVariables& dv = *_odometryDesignVariables;
+        printObservability("b", dv.b->isActive());
+        printObservability("k_l", dv.k_l->isActive());
+        printObservability("t_l", dv.t_l->isActive());
+        printObservability("k_r", dv.k_r->isActive());
+        printObservability("t_r", dv.t_r->isActive());
+        printObservability("v_r_vp_1", dv.v_r_vp->isActive());
+        printObservability("v_r_vp_2", dv.v_r_vp->isActive());
+        printObservability("v_r_vp_3", dv.v_r_vp->isActive());
+        printObservability("v_R_p_1", dv.v_R_p->isActive());
+        printObservability("v_R_p_2", dv.v_R_p->isActive());
+        printObservability("v_R_p_3", dv.v_R_p->isActive());
       }
       _infoGainHistory.push_back(ret.informationGain);
       _odometryVariablesHistory.push_back(
-- 
2.43.0


From 64ab57a6a8598aad226e7515b179d4d12b73bcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:53 +0000
Subject: [PATCH 42/57] fix: the egomotion calibrator does nothing without
 measurements of the reference sensor

---
 .../src/algo/Calibrator.cpp                                 | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
index a49d45a..ab44a1b 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
@@ -76,6 +76,9 @@ namespace aslam {
     }
 
     void Calibrator::predict() {
+      if (!motionMeasurements_.count(options_.referenceSensor))
+        return;
+
       initSplines(options_.referenceSensor);
       for (const auto& measurements : motionMeasurements_)
         predictMotion(measurements.first);
@@ -98,6 +101,9 @@ namespace aslam {
     }
 
     void Calibrator::addMeasurements() {
+      if (!motionMeasurements_.count(options_.referenceSensor))
+        return;
+
       auto batch = boost::make_shared<OptimizationProblemSpline>();
       initSplines(options_.referenceSensor);
       batch->addSpline(translationSpline_, 0);
-- 
2.43.0


From 67d541ba72afd8cbe9749025931bf510b4f99180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:32 +0000
Subject: [PATCH 43/57] fix: predicting does not move the start of the next
 batch of the egomotion calibrator

---
 .../src/algo/Calibrator.cpp                                    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
index ab44a1b..d5fe386 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
@@ -79,7 +79,10 @@ namespace aslam {
       if (!motionMeasurements_.count(options_.referenceSensor))
         return;
 
+      // the measurements are not consumed, the next batch starts where this did
+      const auto batchStartTransformation = prevTransformation_;
       initSplines(options_.referenceSensor);
+      prevTransformation_ = batchStartTransformation;
       for (const auto& measurements : motionMeasurements_)
         predictMotion(measurements.first);
     }
-- 
2.43.0


From da2dc42d1f7e6099e8be6de9737586b32261e7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:38 +0000
Subject: [PATCH 44/57] fix: the egomotion calibrator prints the observability
 of the variables it estimates

---
 .../src/algo/Calibrator.cpp                   | 34 +++++++++++--------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
index d5fe386..da64e7c 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/algo/Calibrator.cpp
@@ -6,6 +6,7 @@
 #include "aslam/calibration/egomotion/algo/Calibrator.h"
 
 #include <cmath>
+#include <string>
 
 #include <boost/make_shared.hpp>
 
@@ -131,23 +132,26 @@ namespace aslam {
         std::cout << "singular values: " << std::endl
           << ret.singularValuesScaled << std::endl;
         std::cout << "observability: " << std::endl;
-        size_t idx = 0;
+        // only active variables have a row, and none without column scaling
+        Eigen::DenseIndex row = 0;
+        auto printObservability = [&](const std::string& name, bool active) {
+          if (active && row < ret.obsBasisScaled.rows())
+            std::cout << name << ": " << ret.obsBasisScaled.row(row++).norm()
+              << std::endl;
+        };
         for (const auto& designVariable :
             designVariables_->calibrationVariables_) {
-          std::cout << "t_" << designVariable.first << ": "
-            << ret.obsBasisScaled.row(idx++).norm() << std::endl;
-          std::cout << "r_" << designVariable.first << "_1 : "
-            << ret.obsBasisScaled.row(idx++).norm() << std::endl;
-          std::cout << "r_" << designVariable.first << "_2 : "
-            << ret.obsBasisScaled.row(idx++).norm() << std::endl;
-          std::cout << "r_" << designVariable.first << "_3 : "
-            << ret.obsBasisScaled.row(idx++).norm() << std::endl;
-          std::cout << "R_" << designVariable.first << "_1 : "
-            << ret.obsBasisScaled.row(idx++).norm() << std::endl;
-          std::cout << "R_" << designVariable.first << "_2 : "
-            << ret.obsBasisScaled.row(idx++).norm() << std::endl;
-          std::cout << "R_" << designVariable.first << "_3 : "
-            << ret.obsBasisScaled.row(idx++).norm() << std::endl;
+          const auto idx = std::to_string(designVariable.first);
+          const auto& t = std::get<0>(designVariable.second);
+          const auto& r = std::get<1>(designVariable.second);
+          const auto& R = std::get<2>(designVariable.second);
+          printObservability("t_" + idx, t->isActive());
+          printObservability("r_" + idx + "_1 ", r->isActive());
+          printObservability("r_" + idx + "_2 ", r->isActive());
+          printObservability("r_" + idx + "_3 ", r->isActive());
+          printObservability("R_" + idx + "_1 ", R->isActive());
+          printObservability("R_" + idx + "_2 ", R->isActive());
+          printObservability("R_" + idx + "_3 ", R->isActive());
         }
       }
       for (const auto& designVariable : designVariables_->calibrationVariables_)
-- 
2.43.0


From e902d9350ec30e720d86a70929c89e5dac5dcb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:35 +0000
Subject: [PATCH 45/57] fix: the default spline order of the egomotion
 trajectory parameters is not read uninitialized

---
 .../src/simulation/TrajectoryParams.cpp                        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/TrajectoryParams.cpp b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/TrajectoryParams.cpp
index 72a75c6..c86a279 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/TrajectoryParams.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/TrajectoryParams.cpp
@@ -31,7 +31,8 @@ namespace aslam {
         rotSplineOrder(4) {
     }
 
-    TrajectoryParams::TrajectoryParams(const PropertyTree& config) {
+    TrajectoryParams::TrajectoryParams(const PropertyTree& config) :
+        TrajectoryParams() {
       A = config.getDouble("A");
       f = config.getDouble("f");
       const EulerAnglesYawPitchRoll ypr;
-- 
2.43.0


From da4c21ec27e2bb1607951978fb989dadbfdd37a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:33 +0000
Subject: [PATCH 46/57] fix: the phases of a combined egomotion simulation go
 on where the one before ended

---
 .../src/simulation/simulationEngine.cpp                   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/simulationEngine.cpp b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/simulationEngine.cpp
index 5bf0ef6..58a3555 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/simulationEngine.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_egomotion_sensors/src/simulation/simulationEngine.cpp
@@ -76,9 +76,11 @@ namespace aslam {
         }
 
         // sinePlanar
-        w_phi_v_km1 = std::atan(2 * M_PI * f * A * cos(2 * M_PI * f * dt));
-        w_r_wv_km1 = Eigen::Vector2d::Zero();
         auto lastTimestamp = nsecToSec(timestamps.back());
+        w_phi_v_km1 = std::atan(2 * M_PI * f * A * cos(2 * M_PI * f *
+          (lastTimestamp + dt)));
+        w_r_wv_km1 = Eigen::Vector2d(lastTimestamp, A * sin(2 * M_PI * f *
+          lastTimestamp));
         for (double t = lastTimestamp + dt; t < 2.0 / 3.0 * T; t += dt) {
           Eigen::Vector2d v_v_om_wv_k = genSineBodyVel2d(w_phi_v_km1,
             w_r_wv_km1, t, dt, A, f);
@@ -97,8 +99,6 @@ namespace aslam {
         }
 
         // random
-        w_phi_v_km1 = std::atan(2 * M_PI * f * A * cos(2 * M_PI * f * dt));
-        w_r_wv_km1 = Eigen::Vector2d::Zero();
         lastTimestamp = nsecToSec(timestamps.back());
         auto trajDist = NormalDistribution<3>(
           Eigen::Matrix<double, 3, 1>::Zero(),
-- 
2.43.0


From 6b21007bf45f52e1af76b2715b4a31f56222a3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:21 +0000
Subject: [PATCH 47/57] fix: write the camera calibration without standard
 deviations when no batch was accepted

---
 .../src/camera/CameraCalibrator.cpp           | 34 ++++++++++++-------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
index 1bc8c5d..0a6be6d 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
@@ -514,17 +514,21 @@ namespace aslam {
       Eigen::VectorXd projectionStd = getProjectionStandardDeviation();
       auto distortion = getDistortion();
       Eigen::VectorXd distortionStd = getDistortionStandardDeviation();
+      // no standard deviations are available before a batch gets accepted
+      const bool hasStd = _estimator->getNumBatches() > 0;
       if (_options.cameraProjectionType == "omni") {
         config.setDouble("projection/xi", projection(0));
-        config.setDouble("projection/sigma_xi", projectionStd(0));
         config.setDouble("projection/fu", projection(1));
-        config.setDouble("projection/sigma_fu", projectionStd(1));
         config.setDouble("projection/fv", projection(2));
-        config.setDouble("projection/sigma_fv", projectionStd(2));
         config.setDouble("projection/cu", projection(3));
-        config.setDouble("projection/sigma_cu", projectionStd(3));
         config.setDouble("projection/cv", projection(4));
-        config.setDouble("projection/sigma_cv", projectionStd(4));
+        if (hasStd) {
+          config.setDouble("projection/sigma_xi", projectionStd(0));
+          config.setDouble("projection/sigma_fu", projectionStd(1));
+          config.setDouble("projection/sigma_fv", projectionStd(2));
+          config.setDouble("projection/sigma_cu", projectionStd(3));
+          config.setDouble("projection/sigma_cv", projectionStd(4));
+        }
         config.setInt("projection/ru",
           dynamic_cast<aslam::cameras::DistortedOmniCameraGeometry*>(
           _geometry.get())->projection().ru());
@@ -534,13 +538,15 @@ namespace aslam {
       }
       else {
         config.setDouble("projection/fu", projection(0));
-        config.setDouble("projection/sigma_fu", projectionStd(0));
         config.setDouble("projection/fv", projection(1));
-        config.setDouble("projection/sigma_fv", projectionStd(1));
         config.setDouble("projection/cu", projection(2));
-        config.setDouble("projection/sigma_cu", projectionStd(2));
         config.setDouble("projection/cv", projection(3));
-        config.setDouble("projection/sigma_cv", projectionStd(3));
+        if (hasStd) {
+          config.setDouble("projection/sigma_fu", projectionStd(0));
+          config.setDouble("projection/sigma_fv", projectionStd(1));
+          config.setDouble("projection/sigma_cu", projectionStd(2));
+          config.setDouble("projection/sigma_cv", projectionStd(3));
+        }
         config.setInt("projection/ru",
           dynamic_cast<aslam::cameras::DistortedPinholeCameraGeometry*>
           (_geometry.get())->projection().ru());
@@ -550,13 +556,15 @@ namespace aslam {
       }
       config.setString("projection/type", _options.cameraProjectionType);
       config.setDouble("projection/distortion/k1", distortion(0));
-      config.setDouble("projection/distortion/sigma_k1", distortionStd(0));
       config.setDouble("projection/distortion/k2", distortion(1));
-      config.setDouble("projection/distortion/sigma_k2", distortionStd(1));
       config.setDouble("projection/distortion/p1", distortion(2));
-      config.setDouble("projection/distortion/sigma_p1", distortionStd(2));
       config.setDouble("projection/distortion/p2", distortion(3));
-      config.setDouble("projection/distortion/sigma_p2", distortionStd(3));
+      if (hasStd) {
+        config.setDouble("projection/distortion/sigma_k1", distortionStd(0));
+        config.setDouble("projection/distortion/sigma_k2", distortionStd(1));
+        config.setDouble("projection/distortion/sigma_p1", distortionStd(2));
+        config.setDouble("projection/distortion/sigma_p2", distortionStd(3));
+      }
       config.setDouble("shutter/line-delay", 0.0);
       config.setString("mask/mask-file", "");
       Eigen::MatrixXd nobsBasis = getNobsBasis();
-- 
2.43.0


From 410c1c0d6f1e9c8e66b02f972a6af57a3ecc2ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:15 +0000
Subject: [PATCH 48/57] fix: keep the camera observations in the order of the
 estimated poses

---
 .../src/camera/CameraCalibrator.cpp                             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
index 0a6be6d..7dec588 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
@@ -467,7 +467,7 @@ namespace aslam {
         return;
       auto ret = _estimator->addBatch(_batch);
       if (ret.batchAccepted) {
-        _estimatorObservations.insert(_estimatorObservations.begin(),
+        _estimatorObservations.insert(_estimatorObservations.end(),
           _batchObservations.begin(), _batchObservations.end());
       }
       if (_options.verbose) {
-- 
2.43.0


From 74b5d409794c9e5d3105651734c159ac9a7542aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 49/57] fix: average the shown reprojection error over the
 corners it was computed for

---
 .../src/camera/CameraValidator.cpp                          | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraValidator.cpp b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraValidator.cpp
index 1afa415..565c875 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraValidator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraValidator.cpp
@@ -155,6 +155,7 @@ namespace aslam {
       double maxErrorNorm = 0.0;
       const int radius = 5;
       size_t numOutliers = 0;
+      size_t numErrors = 0;
       for (size_t i = 0; i < _calibrationTarget->size(); ++i) {
         auto targetPoint = sm::kinematics::toHomogeneous(
           _calibrationTarget->point(i));
@@ -195,6 +196,7 @@ namespace aslam {
         if (std::fabs(error(1)) > maxYError)
           maxYError = std::fabs(error(1));
         errorNormSum += errorNorm;
+        numErrors++;
         if (errorNorm > maxErrorNorm)
           maxErrorNorm = errorNorm;
         const double q = boost::math::quantile(
@@ -205,8 +207,8 @@ namespace aslam {
           numOutliers++;
       }
       std::stringstream stream;
-      stream << "Reprojection error norm: avg = " << errorNormSum /
-        _calibrationTarget->size() << "   max = " << maxErrorNorm;
+      stream << "Reprojection error norm: avg = " << (numErrors > 0 ?
+        errorNormSum / numErrors : 0.0) << "   max = " << maxErrorNorm;
       cv::putText(imageCopy, stream.str(), cv::Point(10, imageCopy.rows - 40),
         cv::FONT_HERSHEY_COMPLEX, 0.5, cv::Scalar(255, 255, 255), 1, CV_AA);
       stream.str(std::string());
-- 
2.43.0


From a6a11516469d1b0a07461759aef29085288a315c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:47 +0000
Subject: [PATCH 50/57] fix: the heading error of the laser-rangefinder motion
 model does not jump by full turns

The simulation wraps headings, so that an error of 2 pi entered wherever the
path crosses half a turn, and the estimate was wrong.
---
 .../src/2dlrf/ErrorTermMotion.cpp                               | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp
index 7e5ba1c..5f226ef 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/ErrorTermMotion.cpp
@@ -104,6 +104,8 @@ namespace aslam {
       B(1, 1) = cos((_xkm1->getValue())(2));
       error_t error = _uk -
         (1 / _T * B * (_xk->getValue() - _xkm1->getValue()));
+      // headings are only defined up to full turns
+      error(2) = sm::kinematics::angleMod(error(2) * _T) / _T;
       setError(error);
       return evaluateChiSquaredError();
     }
-- 
2.43.0


From 30f630cebfbee12824f97ccd87a59a043133f90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:47 +0000
Subject: [PATCH 51/57] fix: the incremental laser-rangefinder program tells
 the number of batches offered

A batch left incomplete at the end was rounded away from the total.
---
 .../src/2dlrf/simulate-online-new.cpp                           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online-new.cpp b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online-new.cpp
index 52a3d3f..93e3b89 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online-new.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_2dlrf/src/2dlrf/simulate-online-new.cpp
@@ -303,7 +303,7 @@ int main(int argc, char** argv) {
   std::cout << "marginalized group: " << incrementalEstimator.getMargGroupId()
     << std::endl;
   std::cout << "number of batches: " << incrementalEstimator.getNumBatches()
-    << " out of " << round((double)steps / batchSize) << std::endl;
+    << " out of " << (steps + batchSize - 1) / batchSize << std::endl;
 
   // fetch the problem
   auto problem = incrementalEstimator.getProblem();
-- 
2.43.0


From 8378369ad02be8f052c0643dd9a0ff013c8fb2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:05 +0000
Subject: [PATCH 52/57] fix: the position covariance of the Applanix poses is
 in the east-north-up frame of the poses

---
 .../src/realworld/analyzer.cpp                              | 6 +++---
 .../src/realworld/calibrator.cpp                            | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp
index 73f1a62..9de3bb0 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp
@@ -144,9 +144,9 @@ int main(int argc, char** argv) {
         deg2rad(vns->latitude), deg2rad(vns->longitude));
       pose.m_R_r = ypr.rotationMatrixToParameters(m_T_e.C() * e_T_l_ned.C() *
         l_ned_R_r);
-      pose.sigma2_m_r_mr = Eigen::Vector3d(lastVnp->northPositionRMSError *
-        lastVnp->northPositionRMSError, lastVnp->eastPositionRMSError *
-        lastVnp->eastPositionRMSError, lastVnp->downPositionRMSError *
+      pose.sigma2_m_r_mr = Eigen::Vector3d(lastVnp->eastPositionRMSError *
+        lastVnp->eastPositionRMSError, lastVnp->northPositionRMSError *
+        lastVnp->northPositionRMSError, lastVnp->downPositionRMSError *
         lastVnp->downPositionRMSError).asDiagonal();
       pose.sigma2_m_R_r = Eigen::Vector3d(deg2rad(lastVnp->headingRMSError) *
         deg2rad(lastVnp->headingRMSError), deg2rad(lastVnp->pitchRMSError) *
diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
index 1e4efd1..84595f6 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
@@ -144,9 +144,9 @@ int main(int argc, char** argv) {
         deg2rad(vns->latitude), deg2rad(vns->longitude));
       pose.m_R_r = ypr.rotationMatrixToParameters(m_T_e.C() * e_T_l_ned.C() *
         l_ned_R_r);
-      pose.sigma2_m_r_mr = Eigen::Vector3d(lastVnp->northPositionRMSError *
-        lastVnp->northPositionRMSError, lastVnp->eastPositionRMSError *
-        lastVnp->eastPositionRMSError, lastVnp->downPositionRMSError *
+      pose.sigma2_m_r_mr = Eigen::Vector3d(lastVnp->eastPositionRMSError *
+        lastVnp->eastPositionRMSError, lastVnp->northPositionRMSError *
+        lastVnp->northPositionRMSError, lastVnp->downPositionRMSError *
         lastVnp->downPositionRMSError).asDiagonal();
       pose.sigma2_m_R_r = Eigen::Vector3d(deg2rad(lastVnp->headingRMSError) *
         deg2rad(lastVnp->headingRMSError), deg2rad(lastVnp->pitchRMSError) *
-- 
2.43.0


From 90370097d509e3eb826105cf56d7b6912d0065b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:05 +0000
Subject: [PATCH 53/57] fix: the velocity covariance of the Applanix
 measurements is in the frame of the velocities

---
 .../src/realworld/analyzer.cpp                               | 5 +++--
 .../src/realworld/calibrator.cpp                             | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp
index 9de3bb0..ef503ff 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/analyzer.cpp
@@ -164,10 +164,11 @@ int main(int argc, char** argv) {
       VelocitiesMeasurement vel;
       vel.r_v_mr = l_ned_R_r.transpose() * Eigen::Vector3d(vns->northVelocity,
         vns->eastVelocity, vns->downVelocity);
-      vel.sigma2_r_v_mr = Eigen::Vector3d(lastVnp->northVelocityRMSError *
+      vel.sigma2_r_v_mr = l_ned_R_r.transpose() *
+        Eigen::Vector3d(lastVnp->northVelocityRMSError *
         lastVnp->northVelocityRMSError, lastVnp->eastVelocityRMSError *
         lastVnp->eastVelocityRMSError, lastVnp->downVelocityRMSError *
-        lastVnp->downVelocityRMSError).asDiagonal();
+        lastVnp->downVelocityRMSError).asDiagonal() * l_ned_R_r;
       vel.r_om_mr = Eigen::Vector3d(deg2rad(vns->angularRateLong),
         deg2rad(vns->angularRateTrans), deg2rad(vns->angularRateDown));
       vel.sigma2_r_om_mr = Eigen::Vector3d(deg2rad(lastVnp->rollRMSError) *
diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
index 84595f6..e3356bc 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
@@ -164,10 +164,11 @@ int main(int argc, char** argv) {
       VelocitiesMeasurement vel;
       vel.r_v_mr = l_ned_R_r.transpose() * Eigen::Vector3d(vns->northVelocity,
         vns->eastVelocity, vns->downVelocity);
-      vel.sigma2_r_v_mr = Eigen::Vector3d(lastVnp->northVelocityRMSError *
+      vel.sigma2_r_v_mr = l_ned_R_r.transpose() *
+        Eigen::Vector3d(lastVnp->northVelocityRMSError *
         lastVnp->northVelocityRMSError, lastVnp->eastVelocityRMSError *
         lastVnp->eastVelocityRMSError, lastVnp->downVelocityRMSError *
-        lastVnp->downVelocityRMSError).asDiagonal();
+        lastVnp->downVelocityRMSError).asDiagonal() * l_ned_R_r;
       vel.r_om_mr = Eigen::Vector3d(deg2rad(vns->angularRateLong),
         deg2rad(vns->angularRateTrans), deg2rad(vns->angularRateDown));
       vel.sigma2_r_om_mr = Eigen::Vector3d(deg2rad(lastVnp->rollRMSError) *
-- 
2.43.0


From 5678a0e2c47f84a88a99b1ecc26311d658f374d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:38 +0000
Subject: [PATCH 54/57] fix: the car calibration program writes the deviations
 of the variables it estimates

---
 .../src/realworld/calibrator.cpp              | 56 +++++++++++++------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
index e3356bc..100ecd6 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_car/src/realworld/calibrator.cpp
@@ -40,6 +40,14 @@
 #include <can_prius/RearWheelsSpeedMsg.h>
 #include <can_prius/Steering1Msg.h>
 
+#include <aslam/backend/EuclideanPoint.hpp>
+#include <aslam/backend/FixedPointNumber.hpp>
+#include <aslam/backend/GenericScalar.hpp>
+#include <aslam/backend/RotationQuaternion.hpp>
+#include <aslam/backend/Scalar.hpp>
+
+#include <aslam/calibration/data-structures/VectorDesignVariable.h>
+
 #include "aslam/calibration/car/algo/CarCalibrator.h"
 #include "aslam/calibration/car/algo/splinesToFile.h"
 #include "aslam/calibration/car/data/WheelSpeedsMeasurement.h"
@@ -47,6 +55,7 @@
 #include "aslam/calibration/car/data/DMIMeasurement.h"
 #include "aslam/calibration/car/data/PoseMeasurement.h"
 #include "aslam/calibration/car/data/VelocitiesMeasurement.h"
+#include "aslam/calibration/car/design-variables/OdometryDesignVariables.h"
 #include "aslam/calibration/car/geo/geodetic.h"
 
 using namespace sm;
@@ -246,24 +255,35 @@ int main(int argc, char** argv) {
   std::ofstream devFile("deviations.txt");
   devFile << std::fixed << std::setprecision(18);
   Eigen::VectorXd variances = calibrator.getOdometryVariablesVariance();
-  devFile << "e_r: " << std::sqrt(variances(0)) << std::endl;
-  devFile << "e_f: " << std::sqrt(variances(1)) << std::endl;
-  devFile << "L: " << std::sqrt(variances(2)) << std::endl;
-  devFile << "a0: " << std::sqrt(variances(3)) << std::endl;
-  devFile << "a1: " << std::sqrt(variances(4)) << std::endl;
-  devFile << "a2: " << std::sqrt(variances(5)) << std::endl;
-  devFile << "a3: " << std::sqrt(variances(6)) << std::endl;
-  devFile << "k_rl: " << std::sqrt(variances(7)) << std::endl;
-  devFile << "k_rr: " << std::sqrt(variances(8)) << std::endl;
-  devFile << "k_fl: " << std::sqrt(variances(9)) << std::endl;
-  devFile << "k_fr: " << std::sqrt(variances(10)) << std::endl;
-  devFile << "k_dmi: " << std::sqrt(variances(11)) << std::endl;
-  devFile << "v_r_vr_1: " << std::sqrt(variances(12)) << std::endl;
-  devFile << "v_r_vr_2: " << std::sqrt(variances(13)) << std::endl;
-  devFile << "v_r_vr_3: " << std::sqrt(variances(14)) << std::endl;
-  devFile << "v_R_r_1: " << std::sqrt(variances(15)) << std::endl;
-  devFile << "v_R_r_2: " << std::sqrt(variances(16)) << std::endl;
-  devFile << "v_R_r_3: " << std::sqrt(variances(17)) << std::endl;
+  // only active variables have a variance, and none before a batch is accepted
+  Eigen::DenseIndex row = 0;
+  auto writeDeviation = [&](const std::string& name, bool active) {
+    if (active && row < variances.size())
+      devFile << name << ": " << std::sqrt(variances(row++)) << std::endl;
+  };
+  const OdometryDesignVariables& dv = *calibrator.getOdometryDesignVariables();
+  writeDeviation("e_r", dv.e_r->isActive());
+  writeDeviation("e_f", dv.e_f->isActive());
+  writeDeviation("L", dv.L->isActive());
+  writeDeviation("a0", dv.a->isActive());
+  writeDeviation("a1", dv.a->isActive());
+  writeDeviation("a2", dv.a->isActive());
+  writeDeviation("a3", dv.a->isActive());
+  writeDeviation("k_rl", dv.k_rl->isActive());
+  writeDeviation("k_rr", dv.k_rr->isActive());
+  writeDeviation("k_fl", dv.k_fl->isActive());
+  writeDeviation("k_fr", dv.k_fr->isActive());
+  writeDeviation("k_dmi", dv.k_dmi->isActive());
+  writeDeviation("v_r_vr_1", dv.v_r_vr->isActive());
+  writeDeviation("v_r_vr_2", dv.v_r_vr->isActive());
+  writeDeviation("v_r_vr_3", dv.v_r_vr->isActive());
+  writeDeviation("v_R_r_1", dv.v_R_r->isActive());
+  writeDeviation("v_R_r_2", dv.v_R_r->isActive());
+  writeDeviation("v_R_r_3", dv.v_R_r->isActive());
+  writeDeviation("t_r", dv.t_r->isActive());
+  writeDeviation("t_f", dv.t_f->isActive());
+  writeDeviation("t_s", dv.t_s->isActive());
+  writeDeviation("t_dmi", dv.t_dmi->isActive());
 
   std::ofstream m_T_v_estFile("m_T_v_est.txt");
   m_T_v_estFile << std::fixed << std::setprecision(18);
-- 
2.43.0


From 24a436bfcc0d03618b4e85c6aee1de206c252448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:38 +0000
Subject: [PATCH 55/57] fix: the camera configuration is well-formed

---
 .../incremental_calibration_examples_camera/conf/config.xml     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_camera/conf/config.xml b/incremental_calibration_examples/incremental_calibration_examples_camera/conf/config.xml
index 865ff04..03ab47c 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_camera/conf/config.xml
+++ b/incremental_calibration_examples/incremental_calibration_examples_camera/conf/config.xml
@@ -6,7 +6,7 @@
   <calibrator>
     <saveEstimatorImages>true</saveEstimatorImages>
     <outputErrors>true</outputErrors>
-    <rows>6</cols>
+    <rows>6</rows>
     <cols>7</cols>
     <rowSpacingMeters>0.06</rowSpacingMeters>
     <colSpacingMeters>0.06</colSpacingMeters>
-- 
2.43.0


From 3a2ab9bf26d30bd607f9aee0cabaef0a1de3d080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:38 +0000
Subject: [PATCH 56/57] fix: the camera calibrator does not process a batch
 without images

---
 .../src/camera/CameraCalibrator.cpp                             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
index 7dec588..867ad1f 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/CameraCalibrator.cpp
@@ -463,7 +463,7 @@ namespace aslam {
     }
 
     void CameraCalibrator::processBatch() {
-      if (!_batch)
+      if (!_batch || !_batchNumImages)
         return;
       auto ret = _estimator->addBatch(_batch);
       if (ret.batchAccepted) {
-- 
2.43.0


From 636be934424392e8cd7cd5d6a83832f483c5aee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:38 +0000
Subject: [PATCH 57/57] fix: the camera validation program saves an image only
 where a target was found

---
 .../src/camera/validateCamera.cpp                            | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/validateCamera.cpp b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/validateCamera.cpp
index e751b4c..e74db3e 100644
--- a/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/validateCamera.cpp
+++ b/incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/validateCamera.cpp
@@ -72,7 +72,8 @@ int main(int argc, char** argv) {
     if (it->getTopic() == rosTopic) {
       sensor_msgs::ImagePtr image(it->instantiate<sensor_msgs::Image>());
       auto cvImage = cv_bridge::toCvCopy(image);
-      validator.addImage(cvImage->image, image->header.stamp.toNSec());
+      const bool found = validator.addImage(cvImage->image,
+        image->header.stamp.toNSec());
       if (config.getBool("camera/validator/visualization")) {
         cv::Mat resultImage;
         validator.getLastImage(resultImage);
@@ -80,7 +81,7 @@ int main(int argc, char** argv) {
           cv::imshow("Image Results", resultImage);
           cv::waitKey(config.getInt("camera/imageTime"));
         }
-        if (config.getBool("camera/validator/saveImages")) {
+        if (found && config.getBool("camera/validator/saveImages")) {
           if (!boost::filesystem::exists("images"))
             boost::filesystem::create_directory("images");
           std::stringstream stream;
-- 
2.43.0

