From 4aa56e87b5553fa3583652698329a4391e41ea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:01:45 +0000
Subject: [PATCH 01/56] fix: eoVlUniformBinOp reported 'unchanged' after taking
 over the second parent

The genome was swapped in and the operator then returned false when the
offspring was a copy of the second parent, so the old fitness was kept.
---
 eo/src/eoVariableLengthCrossover.h | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/eo/src/eoVariableLengthCrossover.h b/eo/src/eoVariableLengthCrossover.h
index c61f916..b2ff9df 100644
--- a/eo/src/eoVariableLengthCrossover.h
+++ b/eo/src/eoVariableLengthCrossover.h
@@ -296,16 +296,15 @@ public :
   {
     unsigned i;
     EOT tmp1;
-    bool tmpIsOne=true, tmpIsTwo=true;
+    bool tmpIsOne=true;
     unsigned index=0;
     do {
+      tmp1.clear();
+      tmpIsOne=true;
       for (i=0; i<_eo1.size(); i++)
         {
           if (eo::rng.flip(rate))
-            {
-              tmp1.push_back(_eo1[i]);
-              tmpIsTwo = false;
-            }
+            tmp1.push_back(_eo1[i]);
           else
             tmpIsOne=false;
         // we should look for _eo1[i] inside _eo2 and erase it there if found!
@@ -317,8 +316,6 @@ public :
               tmp1.push_back(_eo2[i]);
               tmpIsOne = false;
             }
-          else
-            tmpIsTwo = false;
         }
       index++;
     } while ( ( (tmp1.size()<Min) || (tmp1.size()>Max) )
@@ -330,16 +327,9 @@ public :
         return false;
       }
 
-    _eo1.swap(tmp1);
-    if (tmpIsTwo)
-      {
-        //	_eo1.fitness(_eo2.fitness());     NO FITNESS EXISTS HERE!
-        return false;
-      }
     if (tmpIsOne)                  // already has the right fitness
-      {                            // WRONG: NO FITNESS EXISTS HERE!
-        return false;
-      }
+      return false;
+    _eo1.swap(tmp1);
     return true;                   // there were some modifications...
   }
 
-- 
2.43.0


From ec5313e6402fb975a8a72bfdc021147b9fb6ac17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:30 +0000
Subject: [PATCH 02/56] fix: eoRealToIntInit left the old fitness valid on a
 re-initialised individual

---
 eo/src/eoRealToIntInit.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eo/src/eoRealToIntInit.h b/eo/src/eoRealToIntInit.h
index 4b79ca6..334ea55 100644
--- a/eo/src/eoRealToIntInit.h
+++ b/eo/src/eoRealToIntInit.h
@@ -59,6 +59,7 @@ public:
             }
             intsol[i] = static_cast<typename EOTINT::AtomType>(rounded);
         }
+        intsol.invalidate();
     }
 
 protected:
-- 
2.43.0


From 7d5984dbe98fa49ce48495f2e1f03c4c53be57a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:30 +0000
Subject: [PATCH 03/56] fix: moMonOpDiversification re-evaluated without
 invalidating the moved solution

Evaluators may skip individuals that are still marked valid, so the old
fitness could survive the diversification.
---
 mo/src/memory/moMonOpDiversification.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mo/src/memory/moMonOpDiversification.h b/mo/src/memory/moMonOpDiversification.h
index 46fa854..66714e3 100644
--- a/mo/src/memory/moMonOpDiversification.h
+++ b/mo/src/memory/moMonOpDiversification.h
@@ -59,6 +59,8 @@ public:
      */
     bool operator()(EOT& _solution) {
         bool res = monOp(_solution);
+        if (res)
+            _solution.invalidate();
         fullEval(_solution);
         return res;
     }
-- 
2.43.0


From c5a6e31742fb7b76694674fb1a8c883ff76721db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:30 +0000
Subject: [PATCH 04/56] fix: moVNSexplorer started its local search from a
 shaken solution with a stale fitness

---
 mo/src/explorer/moVNSexplorer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mo/src/explorer/moVNSexplorer.h b/mo/src/explorer/moVNSexplorer.h
index b7633c2..c61f1dc 100644
--- a/mo/src/explorer/moVNSexplorer.h
+++ b/mo/src/explorer/moVNSexplorer.h
@@ -111,7 +111,8 @@ public:
     eoMonOp<EOT> & ls    = selection.getLocalSearch();
 
     currentSol = _solution;
-    shake(currentSol);
+    if (shake(currentSol))
+      currentSol.invalidate();
     ls(currentSol);
 
     // update the best solution found
-- 
2.43.0


From af8a89e895acf8732504a473624d8f9f9470757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:03:30 +0000
Subject: [PATCH 05/56] fix: PO::best() tested the validity of the current
 fitness instead of the best one

The best fitness of a new particle was also never marked invalid.
---
 eo/src/PO.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/PO.h b/eo/src/PO.h
index 477f165..33414b3 100644
--- a/eo/src/PO.h
+++ b/eo/src/PO.h
@@ -53,7 +53,7 @@ public:
         Fitness must have a ctor which takes 0 as a value. Best fitness mush also have the same constructor.
     */
     PO ():repFitness (Fitness ()), invalidFitness (true),
-            bestFitness (Fitness()){}
+            bestFitness (Fitness()), invalidBestFitness (true){}
 
 
     /// Return fitness value.
@@ -79,7 +79,7 @@ public:
     */
     Fitness best () const
     {
-        if (invalid ())
+        if (invalidBest ())
             throw eoInvalidFitnessError("invalid best fitness in PO.h");
         return bestFitness;
     }
-- 
2.43.0


From 9ea494398180ad426d7edc71368b3cd70e3394ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:14 +0000
Subject: [PATCH 06/56] fix: seed population shuffles and permutations from the
 library generator

---
 eo/src/eoInit.h | 3 +--
 eo/src/eoPop.h  | 6 ++----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/eo/src/eoInit.h b/eo/src/eoInit.h
index 5230b29..329b3b2 100644
--- a/eo/src/eoInit.h
+++ b/eo/src/eoInit.h
@@ -198,8 +198,7 @@ class eoInitPermutation: public eoInit<EOT> // FIXME inherit from eoInitWithDim
                 chrom[idx] = idx+startFrom;
             }
 
-            std::random_device rd;
-            std::mt19937 gen(rd());
+            std::mt19937 gen(eo::rng.rand());
             std::shuffle(chrom.begin(), chrom.end(), gen);
             chrom.invalidate();
         }
diff --git a/eo/src/eoPop.h b/eo/src/eoPop.h
index fe91102..9546fc3 100644
--- a/eo/src/eoPop.h
+++ b/eo/src/eoPop.h
@@ -183,8 +183,7 @@ class eoPop: public std::vector<EOT>, public eoObject, public eoPersistent
         */
         void shuffle(void)
         {
-            std::random_device rd;
-            std::mt19937 gen(rd());
+            std::mt19937 gen(eo::rng.rand());
             //UF_random_generator<unsigned int> gen; // FIXME refactor
             std::shuffle(begin(), end(), gen);
         }
@@ -197,8 +196,7 @@ class eoPop: public std::vector<EOT>, public eoObject, public eoPersistent
 
             std::transform(begin(), end(), result.begin(), Ref());
 
-            std::random_device rd;
-            std::mt19937 gen(rd());
+            std::mt19937 gen(eo::rng.rand());
             //UF_random_generator<unsigned int> gen; // FIXME refactor
             std::shuffle(result.begin(), result.end(), gen);
         }
-- 
2.43.0


From 12059b3b1c88f014e18c07b9f1a1cf6144956c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:14 +0000
Subject: [PATCH 07/56] fix: seed the order of moRndVectorVNSelection from the
 library generator

---
 mo/src/neighborhood/moRndVectorVNSelection.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mo/src/neighborhood/moRndVectorVNSelection.h b/mo/src/neighborhood/moRndVectorVNSelection.h
index 86a9d00..27780f2 100644
--- a/mo/src/neighborhood/moRndVectorVNSelection.h
+++ b/mo/src/neighborhood/moRndVectorVNSelection.h
@@ -87,8 +87,7 @@ public:
           order.push_back(i); }
 
 #if __cplusplus >= 201103L
-    std::random_device rd;
-    std::mt19937 gen(rd());
+    std::mt19937 gen(eo::rng.rand());
     std::shuffle(order.begin(), order.end(), gen);
 #else
     UF_random_generator<unsigned int> gen(order.size());
-- 
2.43.0


From c23892a90d9966b249bea3135339ebaa06a1417d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:14 +0000
Subject: [PATCH 08/56] fix: seed archive selections from the library generator

---
 moeo/src/selection/moeoDetArchiveSelect.h      | 3 +--
 moeo/src/selection/moeoNumberUnvisitedSelect.h | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/moeo/src/selection/moeoDetArchiveSelect.h b/moeo/src/selection/moeoDetArchiveSelect.h
index c3f94d0..ae8ad5c 100644
--- a/moeo/src/selection/moeoDetArchiveSelect.h
+++ b/moeo/src/selection/moeoDetArchiveSelect.h
@@ -76,8 +76,7 @@ class moeoDetArchiveSelect : public eoSelect<MOEOT>
 						permutation.push_back(i);
 					// UF_random_generator<unsigned int> rndGen(permutation.size());
 					// random_shuffle(permutation.begin(), permutation.end(), rndGen);
-					std::random_device rd;
-					std::mt19937 gen(rd());
+					std::mt19937 gen(eo::rng.rand());
 					std::shuffle(permutation.begin(), permutation.end(), gen);
 					for (unsigned int i=0; i<max; i++)
 						_dest.push_back(archive[permutation[i]]);
diff --git a/moeo/src/selection/moeoNumberUnvisitedSelect.h b/moeo/src/selection/moeoNumberUnvisitedSelect.h
index 5a23843..ac40e08 100644
--- a/moeo/src/selection/moeoNumberUnvisitedSelect.h
+++ b/moeo/src/selection/moeoNumberUnvisitedSelect.h
@@ -74,8 +74,7 @@ public:
                 res.push_back(i);
         }
         if(number < res.size()){
-            std::random_device rd;
-            std::mt19937 gen(rd());
+            std::mt19937 gen(eo::rng.rand());
             std::shuffle(res.begin(), res.end(), gen);
             res.resize(number);
         }
-- 
2.43.0


From b4d2c5ee1396387a130219749a63c19d7ffd953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:14 +0000
Subject: [PATCH 09/56] fix: eoBucketBitMutation drew from rand() instead of
 the library generator

---
 eo/src/ga/eoStandardBitMutation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/ga/eoStandardBitMutation.h b/eo/src/ga/eoStandardBitMutation.h
index 32ece13..77d31ce 100644
--- a/eo/src/ga/eoStandardBitMutation.h
+++ b/eo/src/ga/eoStandardBitMutation.h
@@ -301,7 +301,7 @@ class eoBucketBitMutation : public eoMonOp<EOT>
 
             int nbBits;
             if (gapBit > 0) {
-                nbBits = rand() % gapBit + startBit;
+                nbBits = eo::rng.random(gapBit) + startBit;
             } else {
                 nbBits = endBit;
             }
-- 
2.43.0


From fa05e5ef8b997629d217169cfcc2399505ab1d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:14 +0000
Subject: [PATCH 10/56] fix: reseeding the generator kept a cached Gaussian
 deviate

---
 eo/src/utils/eoRNG.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eo/src/utils/eoRNG.h b/eo/src/utils/eoRNG.h
index e91c6af..9f11071 100644
--- a/eo/src/utils/eoRNG.h
+++ b/eo/src/utils/eoRNG.h
@@ -508,6 +508,7 @@ using eo::rng;
 inline void eoRng::initialize(uint32_t seed)
 {
     left = -1;
+    cached = false;
 
     uint32_t x = (seed | 1U) & 0xFFFFFFFFU, *s = state;
     int j;
-- 
2.43.0


From 96a472217eaa40ee85229873a122e8429915b31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:14 +0000
Subject: [PATCH 11/56] fix: CMA-ES state leaked from one run to the next
 through a static local

---
 eo/src/es/CMAState.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/eo/src/es/CMAState.cpp b/eo/src/es/CMAState.cpp
index 897b32f..d3eaef8 100644
--- a/eo/src/es/CMAState.cpp
+++ b/eo/src/es/CMAState.cpp
@@ -82,11 +82,12 @@ struct CMAStateImpl {
     unsigned			gen;
     vector<double>		fitnessHistory;
 
+    double			lastGoodMinimumEigenValue;
 
     CMAStateImpl(const CMAParams& params_, const vector<double>& m, double sigma_) :
         p(params_),
         C(p.n), B(p.n), d(p.n), pc(p.n), ps(p.n), mean(m), sigma(sigma_),
-        gen(0), fitnessHistory(3)
+        gen(0), fitnessHistory(3), lastGoodMinimumEigenValue(1.0)
     {
         double trace = (p.initialStdevs * p.initialStdevs).sum();
         /* Initialize covariance structure */
@@ -296,8 +297,6 @@ struct CMAStateImpl {
 
         if (max_iters==0) max_iters = 30 * p.n;
 
-        static double lastGoodMinimumEigenValue = 1.0;
-
         /* Try to get a valid calculation */
         for (unsigned tries = 0; tries < max_tries; ++tries) {
 
-- 
2.43.0


From 9833a5f7a84fed5d820ae88a7273ad3d06fd7158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:30 +0000
Subject: [PATCH 12/56] fix: throw the crossover errors that were only
 constructed

---
 eo/src/es/eoRealOp.h |  4 ++--
 eo/src/ga/eoBitOp.h  | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/eo/src/es/eoRealOp.h b/eo/src/es/eoRealOp.h
index 8c95741..e1110c5 100644
--- a/eo/src/es/eoRealOp.h
+++ b/eo/src/es/eoRealOp.h
@@ -473,7 +473,7 @@ template<class EOT> class eoRealUXover: public eoQuadOp<EOT>
   eoRealUXover(const float& _preference = 0.5): preference(_preference)
     {
       if ( (_preference <= 0.0) || (_preference >= 1.0) )
-        std::runtime_error("UxOver --> invalid preference");
+        throw std::runtime_error("UxOver --> invalid preference");
     }
 
   /// The class name.
@@ -488,7 +488,7 @@ template<class EOT> class eoRealUXover: public eoQuadOp<EOT>
   bool operator()(EOT& _eo1, EOT& _eo2)
     {
       if ( _eo1.size() != _eo2.size())
-            std::runtime_error("UxOver --> chromosomes sizes don't match" );
+            throw std::runtime_error("UxOver --> chromosomes sizes don't match" );
       bool changed = false;
       for (unsigned int i=0; i<_eo1.size(); i++)
         {
diff --git a/eo/src/ga/eoBitOp.h b/eo/src/ga/eoBitOp.h
index 50e2320..680d0d3 100644
--- a/eo/src/ga/eoBitOp.h
+++ b/eo/src/ga/eoBitOp.h
@@ -341,7 +341,7 @@ template<class Chrom> class eoUBitXover: public eoQuadOp<Chrom>
   eoUBitXover(const double& _preference = 0.5): preference(_preference)
     {
       if ( (_preference <= 0.0) || (_preference >= 1.0) )
-        std::runtime_error("UxOver --> invalid preference");
+        throw std::runtime_error("UxOver --> invalid preference");
     }
   /// The class name.
   virtual std::string className() const { return "eoUBitXover"; }
@@ -355,7 +355,7 @@ template<class Chrom> class eoUBitXover: public eoQuadOp<Chrom>
   bool operator()(Chrom& chrom1, Chrom& chrom2)
     {
       if ( chrom1.size() != chrom2.size())
-            std::runtime_error("UxOver --> chromosomes sizes don't match" );
+            throw std::runtime_error("UxOver --> chromosomes sizes don't match" );
       bool changed = false;
       for (unsigned int i=0; i<chrom1.size(); i++)
         {
@@ -387,7 +387,7 @@ public:
     eoNPtsBitXover(const unsigned& _num_points = 2) : num_points(_num_points)
         {
             if (num_points < 1)
-                std::runtime_error("NxOver --> invalid number of points");
+                throw std::runtime_error("NxOver --> invalid number of points");
         }
 
     /** The class name */
@@ -451,9 +451,9 @@ template<class Chrom> class eoBitGxOver: public eoQuadOp<Chrom>
     gene_size(_gene_size), num_points(_num_points)
     {
       if (gene_size < 1)
-        std::runtime_error("GxOver --> invalid gene size");
+        throw std::runtime_error("GxOver --> invalid gene size");
       if (num_points < 1)
-        std::runtime_error("GxOver --> invalid number of points");
+        throw std::runtime_error("GxOver --> invalid number of points");
     }
 
   /// The class name
-- 
2.43.0


From cc40321b1a48d89e1f22d377a948c8bb13345759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:30 +0000
Subject: [PATCH 13/56] fix: eoEvalNamedPipe ignored pipes that cannot be
 opened

---
 eo/src/eoEvalNamedPipe.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eo/src/eoEvalNamedPipe.h b/eo/src/eoEvalNamedPipe.h
index 02d6dc6..5440bb1 100644
--- a/eo/src/eoEvalNamedPipe.h
+++ b/eo/src/eoEvalNamedPipe.h
@@ -102,12 +102,18 @@ private:
     {
         // Write the passed solution.
         std::ofstream out(_output_pipe_name);
+        if(not out) {
+            throw eoFileError(_output_pipe_name);
+        }
         out << sol << std::endl;
         out.close();
 
         // Read the output string in a valid fitness object.
         Fitness fit;
         std::ifstream if_fit(_input_pipe_name);
+        if(not if_fit) {
+            throw eoFileError(_input_pipe_name);
+        }
         std::stringstream ss_fit;
         ss_fit << if_fit.rdbuf();
         if_fit.close();
-- 
2.43.0


From 5a1b681f48a4618d8dfad989df39a709f54730fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:30 +0000
Subject: [PATCH 14/56] fix: moeo saving updaters ignored files that cannot be
 opened

---
 moeo/src/utils/moeoArchiveObjectiveVectorSavingUpdater.h | 2 ++
 moeo/src/utils/moeoBinaryMetricSavingUpdater.h           | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/moeo/src/utils/moeoArchiveObjectiveVectorSavingUpdater.h b/moeo/src/utils/moeoArchiveObjectiveVectorSavingUpdater.h
index 819533f..b3e1d04 100644
--- a/moeo/src/utils/moeoArchiveObjectiveVectorSavingUpdater.h
+++ b/moeo/src/utils/moeoArchiveObjectiveVectorSavingUpdater.h
@@ -96,6 +96,8 @@ class moeoArchiveObjectiveVectorSavingUpdater : public eoUpdater
           counter ++;
         }
       std::ofstream f(buff);
+      if (!f)
+        throw eoFileError(buff);
       for (unsigned int i = 0; i < arch.size (); i++)
         f << arch[i].objectiveVector() << std::endl;
       f.close ();
diff --git a/moeo/src/utils/moeoBinaryMetricSavingUpdater.h b/moeo/src/utils/moeoBinaryMetricSavingUpdater.h
index 0848ef8..c5bbdcc 100644
--- a/moeo/src/utils/moeoBinaryMetricSavingUpdater.h
+++ b/moeo/src/utils/moeoBinaryMetricSavingUpdater.h
@@ -91,6 +91,8 @@ class moeoBinaryMetricSavingUpdater : public eoUpdater
                 to.push_back(oldPop[i].objectiveVector());
               // writing the result into the file
               std::ofstream f (filename.c_str(), std::ios::app);
+              if (!f)
+                throw eoFileError(filename);
               f << counter++ << ' ' << metric(from,to) << std::endl;
               f.close();
             }
-- 
2.43.0


From 225e7d261a8a314465115075b92486dcbef6648b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:30 +0000
Subject: [PATCH 15/56] fix: report a status file that cannot be written

---
 eo/src/utils/make_help.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eo/src/utils/make_help.cpp b/eo/src/utils/make_help.cpp
index b021e01..9967218 100644
--- a/eo/src/utils/make_help.cpp
+++ b/eo/src/utils/make_help.cpp
@@ -31,6 +31,7 @@
 #include <stdexcept>
 
 #include "eoParser.h"
+#include "eoLogger.h"
 
 // using namespace std;
 
@@ -56,7 +57,10 @@ void make_help(eoParser & _parser, bool exit_after, std::ostream& out)
     if (statusParam.value() != "")
       {
         std::ofstream os(statusParam.value().c_str());
-        os << _parser;		// and you can use that file as parameter file
+        if (os)
+          os << _parser;		// and you can use that file as parameter file
+        else
+          eo::log << eo::errors << "Could not write the status file " << statusParam.value() << std::endl;
       }
    // do the following AFTER ALL PARAMETERS HAVE BEEN PROCESSED
    // i.e. in case you need parameters somewhere else, postpone these
-- 
2.43.0


From 68f969e320924f0aef6fd766fb333bec6a9a06ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:30 +0000
Subject: [PATCH 16/56] fix: edoFileSnapshot ignored a list file that cannot be
 opened

---
 edo/src/utils/edoFileSnapshot.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/edo/src/utils/edoFileSnapshot.cpp b/edo/src/utils/edoFileSnapshot.cpp
index 7628f93..d1a07be 100644
--- a/edo/src/utils/edoFileSnapshot.cpp
+++ b/edo/src/utils/edoFileSnapshot.cpp
@@ -81,6 +81,12 @@ edoFileSnapshot::edoFileSnapshot(std::string dirname,
 
     _descOfFiles = new std::ofstream( std::string(dirname + "/list_of_files.txt").c_str() );
 
+    if (!*_descOfFiles)
+	{
+	    delete _descOfFiles;
+	    throw eoFileError(dirname + "/list_of_files.txt");
+	}
+
 }
 
 edoFileSnapshot::~edoFileSnapshot()
-- 
2.43.0


From ba371a4c3c6c0ec6959c9f840ffd141324c5ff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:03 +0000
Subject: [PATCH 17/56] fix: give a new eoEsSimple a defined standard deviation

---
 eo/src/es/eoEsSimple.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/es/eoEsSimple.h b/eo/src/es/eoEsSimple.h
index 812b993..b7dbf0e 100644
--- a/eo/src/es/eoEsSimple.h
+++ b/eo/src/es/eoEsSimple.h
@@ -45,7 +45,7 @@ public :
 
     typedef double Type;
 
-    eoEsSimple() : eoVector<Fit, double>() {}
+    eoEsSimple() : eoVector<Fit, double>(), stdev(0.0) {}
 
     virtual std::string className() const { return "eoEsSimple"; }
 
-- 
2.43.0


From eafb38cc5ad9f10578194671ce63f83ff113b530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:03 +0000
Subject: [PATCH 18/56] fix: initialise value and precision of a default
 constructed eoValueParam

---
 eo/src/utils/eoParam.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/utils/eoParam.h b/eo/src/utils/eoParam.h
index 969ea00..8d1673a 100644
--- a/eo/src/utils/eoParam.h
+++ b/eo/src/utils/eoParam.h
@@ -149,7 +149,7 @@ class eoValueParam : public eoParam
 public :
 
     /** Construct a Param. */
-    eoValueParam(void) : eoParam() {}
+    eoValueParam(void) : eoParam(), repValue(), numOfDigits(std::cout.precision()) {}
 
     /** Construct a Param.
      *
-- 
2.43.0


From d76065d378e02acc6934abc7c1dfa967d6c408ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:03 +0000
Subject: [PATCH 19/56] fix: initialise the output precision in every
 moVectorMonitor constructor

---
 mo/src/continuator/moVectorMonitor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/continuator/moVectorMonitor.h b/mo/src/continuator/moVectorMonitor.h
index 30c3317..529be71 100644
--- a/mo/src/continuator/moVectorMonitor.h
+++ b/mo/src/continuator/moVectorMonitor.h
@@ -126,7 +126,7 @@ public:
 	 * @param _param unvalid Parameter
 	 */
 	template <class T>
-	moVectorMonitor(eoValueParam<T> & /*_param*/) : doubleParam(NULL), intParam(NULL), intLongParam(NULL), intLongLongParam(NULL), eotParam(NULL)
+	moVectorMonitor(eoValueParam<T> & /*_param*/) : doubleParam(NULL), intParam(NULL), intLongParam(NULL), intLongLongParam(NULL), eotParam(NULL), precisionOutput(std::cout.precision())
 	{
 		std::cerr << "Sorry the type can not be in a vector of moVectorMonitor" << std::endl;
 	}
-- 
2.43.0


From 02cfe33de536e792900e282c55e92ba34926fef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:03 +0000
Subject: [PATCH 20/56] fix: start moBitsNeighbor with no bit to flip

---
 mo/src/problems/bitString/moBitsNeighbor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/problems/bitString/moBitsNeighbor.h b/mo/src/problems/bitString/moBitsNeighbor.h
index e0f1363..5007561 100644
--- a/mo/src/problems/bitString/moBitsNeighbor.h
+++ b/mo/src/problems/bitString/moBitsNeighbor.h
@@ -56,7 +56,7 @@ public:
   /**
    * Default Constructor
    */
-  moBitsNeighbor() : moNeighbor<EOT, Fitness>() {}
+  moBitsNeighbor() : moNeighbor<EOT, Fitness>(), nBits(0) {}
 
   /**
    * Copy Constructor
-- 
2.43.0


From b68ae7621d6e9847a94e6b15658dba1e30fdec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:03 +0000
Subject: [PATCH 21/56] fix: give neighbourhood statistics defined values
 before the first computation

---
 mo/src/continuator/moNeighborhoodStat.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mo/src/continuator/moNeighborhoodStat.h b/mo/src/continuator/moNeighborhoodStat.h
index 6a6e506..6967ae2 100644
--- a/mo/src/continuator/moNeighborhoodStat.h
+++ b/mo/src/continuator/moNeighborhoodStat.h
@@ -290,19 +290,19 @@ protected:
     moSolNeighborComparator<Neighbor> defaultSolNeighborComp;
 
     // the stastics of the fitness
-    Fitness max, min;
+    Fitness max = Fitness(), min = Fitness();
 
     // mean and standard deviation
-    double mean, sd ;
+    double mean = 0.0, sd = 0.0;
 
   // quartiles
-  Fitness q1, q2, q3;
+  Fitness q1 = Fitness(), q2 = Fitness(), q3 = Fitness();
 
     // number of neighbors in the neighborhood;
-    unsigned int nb;
+    unsigned int nb = 0;
 
     // number of neighbors with lower, equal and higher fitness
-    unsigned int nbInf, nbEqual, nbSup ;
+    unsigned int nbInf = 0, nbEqual = 0, nbSup = 0;
 };
 
 #endif
-- 
2.43.0


From 7233473e191d5c2db80a40c0ae9948af3302f03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:03 +0000
Subject: [PATCH 22/56] fix: store the feasibility given to
 moeoDualRealObjectiveVector

---
 moeo/src/core/moeoDualRealObjectiveVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/core/moeoDualRealObjectiveVector.h b/moeo/src/core/moeoDualRealObjectiveVector.h
index 64bf65f..879b181 100644
--- a/moeo/src/core/moeoDualRealObjectiveVector.h
+++ b/moeo/src/core/moeoDualRealObjectiveVector.h
@@ -50,7 +50,7 @@ class moeoDualRealObjectiveVector : public moeoScalarObjectiveVector<ObjectiveVe
 
         moeoDualRealObjectiveVector(double value=0.0, bool feasible = false)
             : moeoScalarObjectiveVector<ObjectiveVectorTraits,T>
-              ( T(value, feasible) ) {}
+              ( T(value, feasible) ), _is_feasible(feasible) {}
 
         bool is_feasible() const
         {
-- 
2.43.0


From d0c80d5c35d74d23574ceb319026aa11f2a2aa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:03 +0000
Subject: [PATCH 23/56] fix: initialise the running maxima of the epsilon
 indicator

---
 moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h b/moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h
index 570d3e5..046d2b4 100644
--- a/moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h
+++ b/moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h
@@ -73,7 +73,7 @@ public:
     {
         if (normalize)
             setup(_set1, _set2);
-        double eps, eps_temp, eps_j, eps_k;
+        double eps = 0.0, eps_temp, eps_j = 0.0, eps_k = 0.0;
 
         unsigned i, j, k;
 
-- 
2.43.0


From 9416436cbd086e72f94899cf580f7f6e2c1a7766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:03 +0000
Subject: [PATCH 24/56] fix: initialise and copy index and inserted flag of
 quad tree nodes

---
 moeo/src/scalarStuffs/archive/moeoQuadTree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moeo/src/scalarStuffs/archive/moeoQuadTree.h b/moeo/src/scalarStuffs/archive/moeoQuadTree.h
index b06a248..84e85ed 100644
--- a/moeo/src/scalarStuffs/archive/moeoQuadTree.h
+++ b/moeo/src/scalarStuffs/archive/moeoQuadTree.h
@@ -46,9 +46,9 @@ class QuadTreeNode{
 public:
 
 
-	QuadTreeNode(ObjectiveVector& _objVec):objVec(_objVec),subTree(){}
+	QuadTreeNode(ObjectiveVector& _objVec):objVec(_objVec),subTree(),index(0),inserted(false){}
 
-	QuadTreeNode(const QuadTreeNode& _source):objVec(_source.objVec),subTree(_source.subTree){}
+	QuadTreeNode(const QuadTreeNode& _source):objVec(_source.objVec),subTree(_source.subTree),index(_source.index),inserted(_source.inserted){}
 
 	QuadTreeNode& operator=(const QuadTreeNode& _src){
 		(*this).objVec=_src.objVec;
-- 
2.43.0


From 7ee3ba50b138e0bcd7343299006e4f688e1ef7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:03 +0000
Subject: [PATCH 25/56] fix: start the result of archive updates at false

---
 moeo/src/archive/moeoEpsilonHyperboxArchive.h       | 2 +-
 moeo/src/scalarStuffs/archive/moeoQuadTreeArchive.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/moeo/src/archive/moeoEpsilonHyperboxArchive.h b/moeo/src/archive/moeoEpsilonHyperboxArchive.h
index 7ea2e1f..3af4814 100644
--- a/moeo/src/archive/moeoEpsilonHyperboxArchive.h
+++ b/moeo/src/archive/moeoEpsilonHyperboxArchive.h
@@ -231,7 +231,7 @@ public:
      */
     bool operator()(const eoPop < MOEOT > & _pop)
     {
-    	bool res, tmp = false;
+    	bool res = false, tmp = false;
     	for(unsigned int i=0; i<_pop.size(); i++){
     		tmp = (*this)(_pop[i]);
     		res = res || tmp;
diff --git a/moeo/src/scalarStuffs/archive/moeoQuadTreeArchive.h b/moeo/src/scalarStuffs/archive/moeoQuadTreeArchive.h
index 9f95224..ffe65ef 100644
--- a/moeo/src/scalarStuffs/archive/moeoQuadTreeArchive.h
+++ b/moeo/src/scalarStuffs/archive/moeoQuadTreeArchive.h
@@ -87,7 +87,7 @@ public:
      * @return if at least one _pop[i] is added to the archive
      */
     bool operator()(const eoPop < MOEOT > & _pop){
-    	bool res, tmp = false;
+    	bool res = false, tmp = false;
     	for(unsigned int i=0; i<_pop.size(); i++){
     		tmp = (*this)(_pop[i]);
     		res = res || tmp;
-- 
2.43.0


From 8ff21a895094816941001c12169a7a1de1a89241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:48 +0000
Subject: [PATCH 26/56] fix: edoAlgoStateless must not be copied, it owns its
 components

---
 edo/src/edoAlgoStateless.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edo/src/edoAlgoStateless.h b/edo/src/edoAlgoStateless.h
index a325ff2..a5196c7 100644
--- a/edo/src/edoAlgoStateless.h
+++ b/edo/src/edoAlgoStateless.h
@@ -94,6 +94,10 @@ public:
         edoAlgoAdaptive<D>( *(new D), evaluator, selector, estimator, sampler, replacor, pop_continuator)
     {}
 
+    // owns what its destructor releases: not copyable
+    edoAlgoStateless(const edoAlgoStateless&) = delete;
+    edoAlgoStateless& operator=(const edoAlgoStateless&) = delete;
+
     ~edoAlgoStateless()
     {
         // delete the temporary distrib allocated in constructors
-- 
2.43.0


From 87cad16aed16669bff725ff75f5c452585c0062b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:48 +0000
Subject: [PATCH 27/56] fix: edoEstimatorCombined resets its distribution
 without deleting it

---
 edo/src/edoEstimatorCombined.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/edo/src/edoEstimatorCombined.h b/edo/src/edoEstimatorCombined.h
index 3c546bd..3223a51 100644
--- a/edo/src/edoEstimatorCombined.h
+++ b/edo/src/edoEstimatorCombined.h
@@ -88,11 +88,14 @@ public:
 
     virtual D operator()( eoPop<EOType>& pop )
     {
-        delete &(this->_distrib);
-        this->_distrib = *(new D);
+        this->_distrib = D();
         return edoEstimatorCombinedAdaptive<D>::operator()(pop);
     }
 
+    // owns what its destructor releases: not copyable
+    edoEstimatorCombinedStateless(const edoEstimatorCombinedStateless&) = delete;
+    edoEstimatorCombinedStateless& operator=(const edoEstimatorCombinedStateless&) = delete;
+
     ~edoEstimatorCombinedStateless()
     {
         delete &(this->_distrib);
-- 
2.43.0


From a4079aa76af6bbadb782b165e4a7856e846113d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:48 +0000
Subject: [PATCH 28/56] fix: edoFileSnapshot must not be copied, it owns its
 stream

---
 edo/src/utils/edoFileSnapshot.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edo/src/utils/edoFileSnapshot.h b/edo/src/utils/edoFileSnapshot.h
index 7f157f3..e2a60b6 100644
--- a/edo/src/utils/edoFileSnapshot.h
+++ b/edo/src/utils/edoFileSnapshot.h
@@ -52,6 +52,10 @@ public:
 		   bool rmFiles = true,
 		   bool saveFilenames = true);
 
+    // owns what its destructor releases: not copyable
+    edoFileSnapshot(const edoFileSnapshot&) = delete;
+    edoFileSnapshot& operator=(const edoFileSnapshot&) = delete;
+
     virtual ~edoFileSnapshot();
 
     virtual bool hasChanged() {return _boolChanged;}
-- 
2.43.0


From 1122c245900b7fc7a15626bbd3f3c9eec7b40a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:48 +0000
Subject: [PATCH 29/56] fix: forges must not be copied, they own their
 operators

---
 eo/src/eoForge.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/eo/src/eoForge.h b/eo/src/eoForge.h
index 3940715..f175792 100644
--- a/eo/src/eoForge.h
+++ b/eo/src/eoForge.h
@@ -149,6 +149,10 @@ class eoForgeOperator : public eoForgeInterface<Itf>
             return _instantiated_ptr;
         }
 
+        // owns what its destructor releases: not copyable
+        eoForgeOperator(const eoForgeOperator&) = delete;
+        eoForgeOperator& operator=(const eoForgeOperator&) = delete;
+
         virtual ~eoForgeOperator() override
         {
             delete _instantiated;
@@ -208,6 +212,10 @@ class eoForgeOperator<Itf,Op> : public eoForgeInterface<Itf>
             return _instantiated_ptr;
         }
 
+        // owns what its destructor releases: not copyable
+        eoForgeOperator(const eoForgeOperator&) = delete;
+        eoForgeOperator& operator=(const eoForgeOperator&) = delete;
+
         virtual ~eoForgeOperator() override
         {
             delete _instantiated;
@@ -365,6 +373,10 @@ class eoForgeVector : public std::vector<eoForgeInterface<Itf>*>
             this->at(index) = pfo;
         }
 
+        // owns what its destructor releases: not copyable
+        eoForgeVector(const eoForgeVector&) = delete;
+        eoForgeVector& operator=(const eoForgeVector&) = delete;
+
         virtual ~eoForgeVector()
         {
             for(auto p : *this) {
@@ -492,6 +504,10 @@ class eoForgeMap : public std::map<std::string,eoForgeInterface<Itf>*>
             this->emplace({name, pfo});
         }
 
+        // owns what its destructor releases: not copyable
+        eoForgeMap(const eoForgeMap&) = delete;
+        eoForgeMap& operator=(const eoForgeMap&) = delete;
+
         virtual ~eoForgeMap()
         {
             for(auto kv : *this) {
-- 
2.43.0


From ce9933868a30844f61400b9fbd107466bf0eb73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:48 +0000
Subject: [PATCH 30/56] fix: release message buffers with delete[]

---
 eo/src/mpi/implMpi.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/mpi/implMpi.cpp b/eo/src/mpi/implMpi.cpp
index d045da3..1796a30 100644
--- a/eo/src/mpi/implMpi.cpp
+++ b/eo/src/mpi/implMpi.cpp
@@ -58,7 +58,7 @@ namespace mpi
     {
         if( _buf )
         {
-            delete _buf;
+            delete [] _buf;
             _buf = 0;
         }
     }
-- 
2.43.0


From 95d18bb6be6adece70c80032e762c4871a5d0c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:48 +0000
Subject: [PATCH 31/56] fix: eoParameterLoader must not be copied, it owns its
 parameters

---
 eo/src/utils/eoParser.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eo/src/utils/eoParser.h b/eo/src/utils/eoParser.h
index 8e1df04..4231068 100644
--- a/eo/src/utils/eoParser.h
+++ b/eo/src/utils/eoParser.h
@@ -46,6 +46,12 @@ class eoParameterLoader
 {
 public :
 
+    eoParameterLoader() {}
+
+    // owns what its destructor releases: not copyable
+    eoParameterLoader(const eoParameterLoader&) = delete;
+    eoParameterLoader& operator=(const eoParameterLoader&) = delete;
+
     /** Need a virtual destructor */
     virtual ~eoParameterLoader();
 
-- 
2.43.0


From 79761140f99f4d78734c05c3d8c8f31620395042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:48 +0000
Subject: [PATCH 32/56] fix: moDoubleIncrEvaluation must not be copied, it owns
 its neighbours

---
 mo/src/eval/moDoubleIncrEvaluation.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mo/src/eval/moDoubleIncrEvaluation.h b/mo/src/eval/moDoubleIncrEvaluation.h
index 2f1ac30..3452688 100644
--- a/mo/src/eval/moDoubleIncrEvaluation.h
+++ b/mo/src/eval/moDoubleIncrEvaluation.h
@@ -59,6 +59,10 @@ public:
     deltaFitness = new Fitness[neighborhoodSize];
   }
   
+  // owns what its destructor releases: not copyable
+  moDoubleIncrEvaluation(const moDoubleIncrEvaluation&) = delete;
+  moDoubleIncrEvaluation& operator=(const moDoubleIncrEvaluation&) = delete;
+
   /**
    * Destructor
    */
-- 
2.43.0


From 257e7d83a248bfe502b611863eaae5cb7f7a8f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:48 +0000
Subject: [PATCH 33/56] fix: NK incremental evaluations must not be copied,
 they own their tables

---
 mo/src/problems/eval/moNKlandscapesBitsIncrEval.h | 4 ++++
 mo/src/problems/eval/moNKlandscapesIncrEval.h     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/mo/src/problems/eval/moNKlandscapesBitsIncrEval.h b/mo/src/problems/eval/moNKlandscapesBitsIncrEval.h
index c9a0ff0..9a273ae 100644
--- a/mo/src/problems/eval/moNKlandscapesBitsIncrEval.h
+++ b/mo/src/problems/eval/moNKlandscapesBitsIncrEval.h
@@ -66,6 +66,10 @@ public:
      * Destructor
      *
      */
+    // owns what its destructor releases: not copyable
+    moNKlandscapesBitsIncrEval(const moNKlandscapesBitsIncrEval&) = delete;
+    moNKlandscapesBitsIncrEval& operator=(const moNKlandscapesBitsIncrEval&) = delete;
+
     ~moNKlandscapesBitsIncrEval() {
         delete [] inverseLinks;
     }
diff --git a/mo/src/problems/eval/moNKlandscapesIncrEval.h b/mo/src/problems/eval/moNKlandscapesIncrEval.h
index a253c7c..055f9f7 100644
--- a/mo/src/problems/eval/moNKlandscapesIncrEval.h
+++ b/mo/src/problems/eval/moNKlandscapesIncrEval.h
@@ -66,6 +66,10 @@ public:
    * Destructor
    *
    */
+  // owns what its destructor releases: not copyable
+  moNKlandscapesIncrEval(const moNKlandscapesIncrEval&) = delete;
+  moNKlandscapesIncrEval& operator=(const moNKlandscapesIncrEval&) = delete;
+
   ~moNKlandscapesIncrEval() {
     delete [] inverseLinks;
   }
-- 
2.43.0


From 7af20434e35fbe077c29151eb3d9888125949e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:48 +0000
Subject: [PATCH 34/56] fix: moSampling must not be copied, it owns its
 checkpoint

---
 mo/src/sampling/moSampling.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mo/src/sampling/moSampling.h b/mo/src/sampling/moSampling.h
index 93ae196..4bf9226 100644
--- a/mo/src/sampling/moSampling.h
+++ b/mo/src/sampling/moSampling.h
@@ -78,6 +78,10 @@ public:
 		precisionOutput = std::clog.precision();
 	}
 
+	// owns what its destructor releases: not copyable
+	moSampling(const moSampling&) = delete;
+	moSampling& operator=(const moSampling&) = delete;
+
 	/**
 	 * default destructor
 	 */
-- 
2.43.0


From 8f3978adeb99b7cb66848a7cd785b5ef45220731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:48 +0000
Subject: [PATCH 35/56] fix: moeoHypContinue must not be copied, it owns its
 metric

---
 moeo/src/continue/moeoHypContinue.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/moeo/src/continue/moeoHypContinue.h b/moeo/src/continue/moeoHypContinue.h
index bbc1a79..093ef12 100644
--- a/moeo/src/continue/moeoHypContinue.h
+++ b/moeo/src/continue/moeoHypContinue.h
@@ -76,6 +76,10 @@ public:
         vectorToParetoSet(_OptimVec);
     }
 
+    // owns what its destructor releases: not copyable
+    moeoHypContinue(const moeoHypContinue&) = delete;
+    moeoHypContinue& operator=(const moeoHypContinue&) = delete;
+
     ~moeoHypContinue()
     {
         if( default_metric != NULL ) {
-- 
2.43.0


From bd464c329fbff212a595338b8448933312eac3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:48 +0000
Subject: [PATCH 36/56] fix: moeoEuclideanDistance takes its normalizer by
 reference

---
 moeo/src/distance/moeoEuclideanDistance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/distance/moeoEuclideanDistance.h b/moeo/src/distance/moeoEuclideanDistance.h
index 5c43c75..4406e2f 100644
--- a/moeo/src/distance/moeoEuclideanDistance.h
+++ b/moeo/src/distance/moeoEuclideanDistance.h
@@ -61,7 +61,7 @@ class moeoEuclideanDistance : public moeoObjSpaceDistance < MOEOT >
       ctr with a normalizer
       @param _normalizer the normalizer used for every ObjectiveVector
       */
-    moeoEuclideanDistance (moeoObjectiveVectorNormalizer<MOEOT> _normalizer):normalizer(_normalizer)
+    moeoEuclideanDistance (moeoObjectiveVectorNormalizer<MOEOT> & _normalizer):normalizer(_normalizer)
 	  {}
     /**
       default ctr
-- 
2.43.0


From 8778e70dae54d1099ecf61bc2907e1453ec56004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:48 +0000
Subject: [PATCH 37/56] fix: moeoQuadTree must not be copied, it owns its nodes

---
 moeo/src/scalarStuffs/archive/moeoQuadTree.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/moeo/src/scalarStuffs/archive/moeoQuadTree.h b/moeo/src/scalarStuffs/archive/moeoQuadTree.h
index 84e85ed..0a8d520 100644
--- a/moeo/src/scalarStuffs/archive/moeoQuadTree.h
+++ b/moeo/src/scalarStuffs/archive/moeoQuadTree.h
@@ -116,6 +116,10 @@ public:
 		comparator=new moeoParetoObjectiveVectorComparator<ObjectiveVector>();
 	}
 
+	// owns what its destructor releases: not copyable
+	moeoQuadTree(const moeoQuadTree&) = delete;
+	moeoQuadTree& operator=(const moeoQuadTree&) = delete;
+
 	~moeoQuadTree(){
 		delete(comparator);
 	}
-- 
2.43.0


From e4fc63af2ce1ed9d0088cf5b375f725d2a7aecfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:49 +0000
Subject: [PATCH 38/56] fix: moCheckpoint counts generations, not statistics

---
 mo/src/continuator/moCheckpoint.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mo/src/continuator/moCheckpoint.h b/mo/src/continuator/moCheckpoint.h
index 37b5cd6..33035dd 100644
--- a/mo/src/continuator/moCheckpoint.h
+++ b/mo/src/continuator/moCheckpoint.h
@@ -138,8 +138,8 @@ public :
         for (i = 0; i < stats.size(); ++i) {
             if (counter % interval == 0)
                 (*stats[i])(_sol);
-            counter++;
         }
+        counter++;
 
         for (i = 0; i < updaters.size(); ++i)
             (*updaters[i])();
@@ -174,6 +174,9 @@ public :
 
         for (i = 0; i < monitors.size(); ++i)
             monitors[i]->lastCall();
+
+        for (i = 0; i < continuators.size(); ++i)
+            continuators[i]->lastCall(_sol);
     }
 
 private :
-- 
2.43.0


From 0b53d8d7dad4cfdfb30b2a997b9f14181557a646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:08 +0000
Subject: [PATCH 39/56] fix: moCombinedContinuator forwards the final call to
 its members

---
 mo/src/continuator/moCombinedContinuator.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mo/src/continuator/moCombinedContinuator.h b/mo/src/continuator/moCombinedContinuator.h
index 7533bd4..521341d 100644
--- a/mo/src/continuator/moCombinedContinuator.h
+++ b/mo/src/continuator/moCombinedContinuator.h
@@ -85,6 +85,15 @@ public:
         return bContinue;
     }
 
+    /**
+     * last call of all continuators
+     * @param _solution a solution
+     */
+    virtual void lastCall(EOT & _solution) {
+        for (unsigned int i = 0; i < continuators.size(); ++i)
+            continuators[i]->lastCall(_solution);
+    }
+
 private:
     /** continuators vector */
     std::vector< moContinuator<Neighbor>* > continuators;
-- 
2.43.0


From 25d71a4d7508a5d5483d2a7e3c2e72497b33ee65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:29 +0000
Subject: [PATCH 40/56] fix: set the dimension in the full constructor of
 edoNormalAdaptive

---
 edo/src/edoNormalAdaptive.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edo/src/edoNormalAdaptive.h b/edo/src/edoNormalAdaptive.h
index 7b60d2b..9e2963c 100644
--- a/edo/src/edoNormalAdaptive.h
+++ b/edo/src/edoNormalAdaptive.h
@@ -99,6 +99,7 @@ public:
             Vector p_c,
             Vector p_s
         ) :
+        _dim( dim ),
         _mean( mean ),
         _C( C ),
         _B( B ),
-- 
2.43.0


From 562a9cec09d9322913da57869b269d01bb21c7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:48 +0000
Subject: [PATCH 41/56] fix: count the evaluations in the time-limited
 evaluators

---
 eo/src/eoEvalTimeThrowException.h     | 2 +-
 eo/src/eoEvalUserTimeThrowException.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/eo/src/eoEvalTimeThrowException.h b/eo/src/eoEvalTimeThrowException.h
index 5b72de6..b968dec 100644
--- a/eo/src/eoEvalTimeThrowException.h
+++ b/eo/src/eoEvalTimeThrowException.h
@@ -47,7 +47,7 @@ public:
             if( elapsed >= _max ) {
                 throw eoMaxTimeException(elapsed);
             } else {
-                func(eo);
+                this->eoEvalFuncCounter<EOT>::operator()(eo);
             }
         }
     }
diff --git a/eo/src/eoEvalUserTimeThrowException.h b/eo/src/eoEvalUserTimeThrowException.h
index a117484..443b445 100644
--- a/eo/src/eoEvalUserTimeThrowException.h
+++ b/eo/src/eoEvalUserTimeThrowException.h
@@ -61,7 +61,7 @@ public:
             if( current >= _max ) {
                 throw eoMaxTimeException( current );
             } else {
-                this->func(eo);
+                this->eoEvalFuncCounter<EOT>::operator()(eo);
             }
         }
     }
@@ -95,7 +95,7 @@ public:
             if( current.QuadPart >= _max ) {
                 throw eoMaxTimeException( current.QuadPart );
             } else {
-                func(eo);
+                this->eoEvalFuncCounter<EOT>::operator()(eo);
             }
         }
     }
-- 
2.43.0


From 03dc65063339e6effc5f9d57b79c4d1798849b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:48 +0000
Subject: [PATCH 42/56] fix: update the bests of the ring neighborhoods of a
 particle

---
 eo/src/eoRingTopology.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/eo/src/eoRingTopology.h b/eo/src/eoRingTopology.h
index a5526fe..c9f7abf 100644
--- a/eo/src/eoRingTopology.h
+++ b/eo/src/eoRingTopology.h
@@ -117,12 +117,11 @@ public:
             for(unsigned i=0;i<_po.size();i++)
                         _po.bestPositions[i]=_po[i];
         }
-        // update the global best if the given particle is "better"
-        for (unsigned i=-neighborhoodSize+1; i < neighborhoodSize; i++)
+        // update the best of each neighborhood the particle belongs to, if the particle is "better"
+        for (unsigned i=0; i < neighborhoods.size(); i++)
                 {
-                        unsigned indi = (_po.size()+_indice+i)%_po.size();
-                        if (_po.fitness() > neighborhoods[indi].best().fitness())
-                                neighborhoods[indi].best(_po);
+                        if (neighborhoods[i].contains(_indice) && _po.fitness() > neighborhoods[i].best().fitness())
+                                neighborhoods[i].best(_po);
                 }
      }
 
-- 
2.43.0


From 3d38ebb1f5401dd67ffe231c44bdec84654424f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:16 +0000
Subject: [PATCH 43/56] fix: set the selectors of eoCellularEasyEA up before
 drawing

---
 eo/src/eoCellularEasyEA.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eo/src/eoCellularEasyEA.h b/eo/src/eoCellularEasyEA.h
index 37e4ec0..2950f89 100644
--- a/eo/src/eoCellularEasyEA.h
+++ b/eo/src/eoCellularEasyEA.h
@@ -98,6 +98,7 @@ public :
 
         // To select a partner
         EOT part, old_sol = pop [i] ;
+        sel_neigh.setup (neigh) ;
         part = sel_neigh (neigh) ;
 
         // To perform cross-over
@@ -117,6 +118,7 @@ public :
         pop_loc.push_back (pop [i]) ;
         pop_loc.push_back (part) ;
 
+        sel_child.setup (pop_loc) ;
         pop [i] = sel_child (pop_loc) ;
 
         // To choose only one between the new made child and the old individual
@@ -125,6 +127,7 @@ public :
 
         pop_loc.push_back (old_sol) ;
 
+        sel_repl.setup (pop_loc) ;
         pop [i] = sel_repl (pop_loc) ;
       }
 
-- 
2.43.0


From f20e17aaedd96f120b20a06cb164606dc3a2be0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:16 +0000
Subject: [PATCH 44/56] fix: set the selector of edoEDASA up before drawing

---
 edo/src/edoEDASA.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edo/src/edoEDASA.h b/edo/src/edoEDASA.h
index 1966d54..874ded5 100644
--- a/edo/src/edoEDASA.h
+++ b/edo/src/edoEDASA.h
@@ -165,6 +165,7 @@ public:
 		// Init of a variable contening a point with the bestest fitnesses
 		//-------------------------------------------------------------
 
+		_selectone.setup(selected_pop);
 		EOType current_solution = _selectone(selected_pop);
 
 		//-------------------------------------------------------------
-- 
2.43.0


From 7f44227519cac1ea4f12008ba419e1f41c0f9868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:54 +0000
Subject: [PATCH 45/56] fix: refuse to split off more individuals than there
 are

---
 eo/src/eoReduceSplit.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/eo/src/eoReduceSplit.h b/eo/src/eoReduceSplit.h
index b310087..52c2513 100644
--- a/eo/src/eoReduceSplit.h
+++ b/eo/src/eoReduceSplit.h
@@ -65,7 +65,7 @@ public:
     if (!eliminated)   // nothing to do
       return ;
     unsigned newsize = popSize - eliminated;
-    if (newsize < 0)
+    if (eliminated > popSize)
       throw eoException("eoTruncateSplit: Cannot truncate to a larger size!\n");
 
     _newgen.nth_element(newsize);
@@ -142,7 +142,7 @@ public:
     if (!eliminated)   // nothing to do
       return ;
     unsigned newsize = popSize - eliminated;
-    if (newsize < 0)
+    if (eliminated > popSize)
       throw eoException("eoRandomSplit: Cannot truncate to a larger size!\n");
 
     _newgen.shuffle();
@@ -181,13 +181,13 @@ public:
     if (!eliminated)   // nothing to do
       return ;
     unsigned newsize = popSize - eliminated;
-    if (newsize < 0)
+    if (eliminated > popSize)
       throw eoException("eoLinearRandomSplit: Cannot truncate to a larger size!\n");
 
     _eliminated.reserve(_eliminated.size()+eliminated); //in case not empty?
     for (unsigned i=0; i<eliminated; i++)
       {
-        unsigned loser=random(_newgen.size());
+        unsigned loser=eo::rng.random(_newgen.size());
         typename eoPop<EOT>::iterator it = _newgen.begin()+loser;
         if (returnEliminated)
           _eliminated.push_back(*it);
@@ -233,7 +233,7 @@ public:
     if (!eliminated)   // nothing to do
       return ;
     unsigned newsize = popSize - eliminated;
-    if (newsize < 0)
+    if (eliminated > popSize)
       throw eoException("eoDetTournamentTruncateSplit: Cannot truncate to a larger size!\n");
 
 
@@ -300,7 +300,7 @@ end of old version    */
     if (!eliminated)   // nothing to do
       return ;
     unsigned newsize = popSize - eliminated;
-    if (newsize < 0)
+    if (eliminated > popSize)
       throw eoException("eoDetTournamentTruncateSplit: Cannot truncate to a larger size!\n");
 
 
-- 
2.43.0


From 33636aca6e434465ddf9517af7d9156eff26d81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:54 +0000
Subject: [PATCH 46/56] fix: let the stochastic tournament split eliminate the
 number asked for

---
 eo/src/eoReduceSplit.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/eoReduceSplit.h b/eo/src/eoReduceSplit.h
index 52c2513..560f87d 100644
--- a/eo/src/eoReduceSplit.h
+++ b/eo/src/eoReduceSplit.h
@@ -257,7 +257,7 @@ private:
 To be used in SSGA-like replacements (e.g. see eoSSGAStochTournamentReplacement)
 */
 template <class EOT>
-class eoStochTournamentTruncateSplit : public eoReduce<EOT>
+class eoStochTournamentTruncateSplit : public eoReduceSplit<EOT>
 {
 public:
   /** Ctor: must provide amount of reduction,
@@ -306,7 +306,7 @@ end of old version    */
 
 
     _eliminated.reserve(_eliminated.size()+eliminated); //in case not empty?
-    for (unsigned i=0; i<_eliminated.size(); i++)
+    for (unsigned i=0; i<eliminated; i++)
       {
         typename eoPop<EOT>::iterator it = inverse_stochastic_tournament(_newgen.begin(), _newgen.end(), t_rate);
         if (returnEliminated)
-- 
2.43.0


From 2766bb562d85c584ca3b2c9bc553768e7fa679b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:54 +0000
Subject: [PATCH 47/56] fix: merge only the elite asked for

---
 eo/src/eoMerge.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoMerge.h b/eo/src/eoMerge.h
index 1564f39..1696727 100644
--- a/eo/src/eoMerge.h
+++ b/eo/src/eoMerge.h
@@ -96,7 +96,7 @@ public :
     std::vector<const EOT*> result;
     _pop.nth_element(combienLocal, result);
 
-    for (size_t i = 0; i < result.size(); ++i)
+    for (size_t i = 0; i < combienLocal; ++i)
       {
         _offspring.push_back(*result[i]);
       }
-- 
2.43.0


From c56044dfa0c2ff3b4b4ccc6e390da97106597a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:50:32 +0000
Subject: [PATCH 48/56] fix: read every word of a fitness

---
 eo/src/EO.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/eo/src/EO.h b/eo/src/EO.h
index 09bb2d2..ff20229 100644
--- a/eo/src/EO.h
+++ b/eo/src/EO.h
@@ -141,6 +141,16 @@ public:
                 invalidFitness = false;
                 std::istringstream iss(fitness_str);
                 iss >> repFitness;
+                // a fitness may be written as several words: fetch those that are missing
+                std::string more;
+                while (iss.fail() && iss.eof() && _is >> more)
+                {
+                        fitness_str += ' ';
+                        fitness_str += more;
+                        iss.clear();
+                        iss.str(fitness_str);
+                        iss >> repFitness;
+                }
         }
   }
 
-- 
2.43.0


From ab60a72a0d0481d8f94c7e7d919506eddfe45d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:50:32 +0000
Subject: [PATCH 49/56] fix: read an empty bitstring back

---
 eo/src/ga/eoBit.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eo/src/ga/eoBit.h b/eo/src/ga/eoBit.h
index 320a5b7..e6b1022 100644
--- a/eo/src/ga/eoBit.h
+++ b/eo/src/ga/eoBit.h
@@ -109,7 +109,8 @@ public:
       unsigned s;
       is >> s;
       std::string bits;
-      is >> bits;
+      if (s > 0) // nothing is written for an empty bitstring
+        is >> bits;
       if (is)
         {
           resize(bits.size());
-- 
2.43.0


From 9d9afa6e1f56196dae3c4d88615685cd85b411f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:50:32 +0000
Subject: [PATCH 50/56] fix: read an empty bit vector back

---
 moeo/src/core/moeoBitVector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moeo/src/core/moeoBitVector.h b/moeo/src/core/moeoBitVector.h
index ff41832..e923066 100644
--- a/moeo/src/core/moeoBitVector.h
+++ b/moeo/src/core/moeoBitVector.h
@@ -95,7 +95,8 @@ class moeoBitVector : public moeoVector < MOEOObjectiveVector, bool, MOEOFitness
       unsigned int s;
       _is >> s;
       std::string bits;
-      _is >> bits;
+      if (s > 0) // nothing is written for an empty bit vector
+        _is >> bits;
       if (_is)
         {
           resize(bits.size());
-- 
2.43.0


From b31b0a4a0d8a472a4b291a515813cdc542e0bbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:50:32 +0000
Subject: [PATCH 51/56] fix: read back a dual fitness without feasibility

---
 eo/src/eoDualFitness.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/eo/src/eoDualFitness.h b/eo/src/eoDualFitness.h
index 7fdf402..d8afaca 100644
--- a/eo/src/eoDualFitness.h
+++ b/eo/src/eoDualFitness.h
@@ -28,6 +28,7 @@ Authors:
 
 #include <functional>
 #include <iostream>
+#include <sstream>
 #include <utility> // for std::pair
 #include <string>
 
@@ -347,11 +348,19 @@ public:
         BaseT value;
         is >> value;
 
-        bool feasible;
-        is >> feasible;
+        std::string word; // "?" if the feasibility was not set
+        is >> word;
 
         fitness._value = value;
-        fitness.is_feasible( feasible );
+        if( word == "?" ) {
+            fitness._is_feasible = false;
+            fitness._feasible_init = false;
+        } else {
+            bool feasible = false;
+            std::istringstream iss( word );
+            iss >> feasible;
+            fitness.is_feasible( feasible );
+        }
         return is;
     }
 };
-- 
2.43.0


From 7cafa0f3a5e17e2ed731b094512ba76f7b9dadf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:50:32 +0000
Subject: [PATCH 52/56] fix: write the rejected atoms and forget the previous
 ones on loading

---
 mo/src/problems/partition/moBinaryPartition.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mo/src/problems/partition/moBinaryPartition.h b/mo/src/problems/partition/moBinaryPartition.h
index 7feaef0..ba7957f 100644
--- a/mo/src/problems/partition/moBinaryPartition.h
+++ b/mo/src/problems/partition/moBinaryPartition.h
@@ -151,12 +151,10 @@ class moBinaryPartition : public EO<FitT>
         virtual void printOn(std::ostream& out) const override
         {
             this->printSelectedOn(out);
-            // Printing the rejected atom should not be necessary,
-            // as this is the complementary set of the selected.
-            // out << "   ";
-            // out << rejected.size() << "  "; // Size.
-            // std::copy(std::begin(rejected), std::end(rejected),
-            //     std::ostream_iterator<AtomType>(out, " ")); // Values.
+            out << "   ";
+            out << rejected.size() << "  "; // Size.
+            std::copy(std::begin(rejected), std::end(rejected),
+                std::ostream_iterator<AtomType>(out, " ")); // Values.
         }
 
         /** Deserialization of the `selected` and `rejected` atoms.
@@ -167,6 +165,8 @@ class moBinaryPartition : public EO<FitT>
         virtual void readFrom(std::istream& in) override
         {
             EO<FitT>::readFrom(in); // Fitness.
+            selected.clear();
+            rejected.clear();
             unsigned size;
             in >> size; // Size.
             for(size_t i = 0; i < size; ++i) {
-- 
2.43.0


From 0361da50dcd1b663b8155ff7f4fe04c7c2fd0d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:12:11 +0000
Subject: [PATCH 53/56] fix: recognise the sections of a saved state

---
 eo/src/utils/eoState.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/eo/src/utils/eoState.cpp b/eo/src/utils/eoState.cpp
index 6a46dc6..3a5ee59 100644
--- a/eo/src/utils/eoState.cpp
+++ b/eo/src/utils/eoState.cpp
@@ -36,7 +36,9 @@ bool eoState::is_section(const std::string& str, std::string& name)
         return false;
     //else
 
-    std::string::size_type end = str.find(_tag_section_sc);
+    // str is a line: it cannot hold the end of line that finishes the tag
+    pos += _tag_section_so.size();
+    std::string::size_type end = str.find(_tag_section_sc.substr(0, _tag_section_sc.find('\n')), pos);
 
     if (end == std::string::npos)
         return false;
@@ -44,7 +46,7 @@ bool eoState::is_section(const std::string& str, std::string& name)
 
     // affect name, passed by reference
     // Note: substr( start, count )
-    name = str.substr( pos + _tag_section_so.size(), end - _tag_section_so.size() );
+    name = str.substr( pos, end - pos );
 
     return true;
 }
-- 
2.43.0


From 6d339db1c88f5c06b5c1ddb092c2a44ab7ab1515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:45:18 +0000
Subject: [PATCH 54/56] fix: test work packages under their lock

---
 smp/src/scheduler.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/smp/src/scheduler.cpp b/smp/src/scheduler.cpp
index 9a5210e..1c86d03 100644
--- a/smp/src/scheduler.cpp
+++ b/smp/src/scheduler.cpp
@@ -102,10 +102,11 @@ void paradiseo::smp::Scheduler<EOT,Policy>::operator()(eoUF<EOT&, void>& func, e
     {
         for(unsigned i = 0; i < workers.size(); i++)
         {
-            if(popPackages[i].empty() && counter < pop.size())
+            // The package belongs to its worker as long as the worker holds the lock
+            std::unique_lock<std::mutex> lock(m[i], std::try_to_lock);
+            if(lock.owns_lock() && popPackages[i].empty() && counter < pop.size())
             {
                 j = 0;
-                std::unique_lock<std::mutex> lock(m[i]);
                 while (j < planning[i] && counter < pop.size()) 
                 {
                     //std::cout << counter << std::endl;
@@ -136,14 +137,18 @@ void paradiseo::smp::Scheduler<EOT,Policy>::applyLinearPolicy(eoUF<EOT&, void>&
 template<class EOT, class Policy>
 void paradiseo::smp::Scheduler<EOT,Policy>::applyProgressivePolicy(eoUF<EOT&, void>& func, std::vector<EOT*>& pop, int id)
 { 
-    while(!done || !pop.empty())
+    bool last = false;
+    while(!last)
     {   
         std::unique_lock<std::mutex> lock(m[id]);
+        // Nothing is added to the package once done is set
+        last = done;
         for(unsigned i = 0; i < pop.size(); i++) {
             //std::cout << "."  << id << "." << std::endl;
             func(*pop[i]);
         }
         pop.clear();
         lock.unlock();
+        std::this_thread::yield();
     }
 }
-- 
2.43.0


From 87e136c0c150fd8db7b7a34c60b1a301d28cba3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:45:18 +0000
Subject: [PATCH 55/56] fix: isolate stopped islands under the model's lock

---
 smp/src/islandModel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/smp/src/islandModel.cpp b/smp/src/islandModel.cpp
index e32fb8e..ab1f4a5 100644
--- a/smp/src/islandModel.cpp
+++ b/smp/src/islandModel.cpp
@@ -80,6 +80,7 @@ void paradiseo::smp::IslandModel<EOT>::operator()()
             // If an island is stopped we need to isolate its node in the topology
             if(it.second && it.first->isStopped())
             {
+                std::lock_guard<std::mutex> lock(m);
                 it.second = false;
                 topo.isolateNode(table.getLeft()[it.first]);
             }
-- 
2.43.0


From 7824642b2f7130609344391c74821b3b810fcc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:45:18 +0000
Subject: [PATCH 56/56] fix: wait for the last messages before the last
 integration

---
 smp/src/islandModel.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/smp/src/islandModel.cpp b/smp/src/islandModel.cpp
index ab1f4a5..49c2262 100644
--- a/smp/src/islandModel.cpp
+++ b/smp/src/islandModel.cpp
@@ -107,6 +107,9 @@ void paradiseo::smp::IslandModel<EOT>::operator()()
     // Force last integration
     while(!listEmigrants.empty())
         send();
+    for(auto& message : sentMessages)
+        message.wait();
+    sentMessages.clear();
     i = 0;
     for(auto& it : islands)
     {
-- 
2.43.0

