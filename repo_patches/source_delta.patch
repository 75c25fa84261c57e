From 17408033532dc5dbb2fdd62b3abbb97751a93429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 01/62] fix: visited list compares f-values in suboptimal
 search before they are set

With --suboptimal, nodes enter the visited list before they are pushed to
the fringe, so fValue is uninitialised.  The partial-order branch compared
it anyway, which re-opened nodes at random: runs were not reproducible and
explored exponentially many duplicates.
---
 src/VisitedList.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/VisitedList.cpp b/src/VisitedList.cpp
index 8c22c10..6a6c1a5 100644
--- a/src/VisitedList.cpp
+++ b/src/VisitedList.cpp
@@ -568,7 +568,8 @@ bool VisitedList::insertVisi(searchNode *n) {
 			//cout << endl << endl << "Comp " << result << endl;
 			//other->printNode(cout);
 			if (result) {
-				if (other->fValue > n->fValue){
+				// without reopening, the f-value of n has not been computed yet
+				if (!noReopening && other->fValue > n->fValue){
 					toRemove = other;
 					continue;
 				}
-- 
2.43.0


From 15beccdf0b4d0661e1c2b6258e41604e9cc6dcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 02/62] fix: methods with joins are not parallel sequences

The predecessor test was nested inside the unique-paths test, so an initial
method with joins (a<c, b<c) but no forks kept isParallelSequences.  The
sequence encodings then confuse a shared successor with two copies of it:
search reports solvable problems unsolvable and misses optima.
---
 src/Model.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index 0782e92..2b0eaf4 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -3066,11 +3066,11 @@ newlyReachedMLMs = new noDelIntSet();
 
 			if (notOneSuccessor > 1 || notOnePredecessor > 1) {
 				isTotallyOrdered = false;
-				if (notZeroOrOneSuccessor || decomposedTask[i] != initialTask) {
+				if (notZeroOrOneSuccessor || decomposedTask[i] != initialTask)
 					isUniquePaths = false;
-					if (notZeroOrOnePredecessor || decomposedTask[i] != initialTask)
-						isParallelSequences = false;
-				}
+				// sequences neither fork nor join
+				if (notZeroOrOneSuccessor || notZeroOrOnePredecessor || decomposedTask[i] != initialTask)
+					isParallelSequences = false;
 			}
 		}
 
-- 
2.43.0


From 9c074742a719cba2494fc1a2e6c7766c70a42356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:31 +0000
Subject: [PATCH 03/62] fix: isomorphism test of the visited list forgot the
 mapping of finished subtrees

matchingDFS got the mapping by value, so what was matched below one step
was forgotten when its siblings were matched. Networks that differ only in
which steps share a successor (four tasks A and two X with 3+1 against 2+2
orderings) were taken for duplicates and solvable problems reported as
unsolvable. Steps below are now matched with one mapping and the remaining
siblings as continuation.
---
 src/VisitedList.cpp | 61 ++++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/src/VisitedList.cpp b/src/VisitedList.cpp
index 6a6c1a5..ce1246f 100644
--- a/src/VisitedList.cpp
+++ b/src/VisitedList.cpp
@@ -155,8 +155,17 @@ void to_dfs(planStep *s, vector<int> &seq) {
 }
 
 
+// the steps (grouped by their tasks) that are still to be matched on one level of the DFS
+struct openMatching {
+    map<int, set<planStep *>> oneNextTasks;
+    map<int, set<planStep *>> otherNextTasks;
+    unordered_set<int> tasks;
+};
+
+// Both functions match what they are given and, with the same mapping, everything in todo.
 bool matchingDFS(searchNode *one, searchNode *other, planStep *oneStep, planStep *otherStep,
-                 map<planStep *, planStep *> mapping, map<planStep *, planStep *> backmapping);
+                 map<planStep *, planStep *> mapping, map<planStep *, planStep *> backmapping,
+                 vector<openMatching> todo);
 
 
 void getSortedTasks(planStep **network, int size, int *succ);
@@ -166,14 +175,20 @@ bool matchingGenerate(
         map<planStep *, planStep *> &mapping, map<planStep *, planStep *> &backmapping,
         map<int, set<planStep *>> oneNextTasks,
         map<int, set<planStep *>> otherNextTasks,
-        unordered_set<int> tasks
+        unordered_set<int> tasks,
+        vector<openMatching> todo
 ) {
-    if (tasks.size() == 0)
-        return true; // done, all children
+    if (tasks.size() == 0) { // done, all children
+        if (todo.empty()) return true;
+        // continue with the level above
+        openMatching next = todo.back();
+        todo.pop_back();
+        return matchingGenerate(one, other, mapping, backmapping, next.oneNextTasks, next.otherNextTasks, next.tasks, todo);
+    }
 
     if (oneNextTasks[*tasks.begin()].size() == 0) {
         tasks.erase(*tasks.begin());
-        return matchingGenerate(one, other, mapping, backmapping, oneNextTasks, otherNextTasks, tasks);
+        return matchingGenerate(one, other, mapping, backmapping, oneNextTasks, otherNextTasks, tasks, todo);
     }
 
     int task = *tasks.begin();
@@ -192,25 +207,22 @@ bool matchingGenerate(
         if (backmapping.count(psOther) && backmapping[psOther] != psOne) continue;
 		DEBUG(cout << "\tOK" << endl);
 
-        bool subRes = true;
-        map<planStep *, planStep *> subMapping = mapping;
-        map<planStep *, planStep *> subBackmapping = backmapping;
+        map<int, set<planStep *>> subOtherNextTasks = otherNextTasks;
+        subOtherNextTasks[task].erase(psOther);
 
-        if (!mapping.count(psOne)) { // don't check again if we already did it
+        if (mapping.count(psOne)) { // don't check again if we already did it, continue with the next task
+            if (matchingGenerate(one, other, mapping, backmapping, oneNextTasks, subOtherNextTasks, tasks, todo))
+                return true;
+        } else {
+            map<planStep *, planStep *> subMapping = mapping;
+            map<planStep *, planStep *> subBackmapping = backmapping;
             subMapping[psOne] = psOther;
             subBackmapping[psOther] = psOne;
 
-            // run the DFS below this pair
-            subRes = matchingDFS(one, other, psOne, psOther, subMapping, subBackmapping);
-        }
-
-
-        if (subRes) {
-            map<int, set<planStep *>> subOtherNextTasks = otherNextTasks;
-            subOtherNextTasks[task].erase(psOther);
-
-            // continue the extraction with the next task
-            if (matchingGenerate(one, other, subMapping, subBackmapping, oneNextTasks, subOtherNextTasks, tasks))
+            // run the DFS below this pair and then continue the extraction with the next task
+            vector<openMatching> subTodo = todo;
+            subTodo.push_back({oneNextTasks, subOtherNextTasks, tasks});
+            if (matchingDFS(one, other, psOne, psOther, subMapping, subBackmapping, subTodo))
                 return true;
         }
     }
@@ -219,10 +231,9 @@ bool matchingGenerate(
 }
 
 bool matchingDFS(searchNode *one, searchNode *other, planStep *oneStep, planStep *otherStep,
-                 map<planStep *, planStep *> mapping, map<planStep *, planStep *> backmapping) {
+                 map<planStep *, planStep *> mapping, map<planStep *, planStep *> backmapping,
+                 vector<openMatching> todo) {
 	if (oneStep->numSuccessors != otherStep->numSuccessors) return false; // is not possible
-    if (oneStep->numSuccessors == 0) return true; // no successors, matching OK
-
 
     // groups the successors into buckets according to their task labels
     map<int, set<planStep *>> oneNextTasks;
@@ -246,7 +257,7 @@ bool matchingDFS(searchNode *one, searchNode *other, planStep *oneStep, planStep
 
     for (int t : tasks) if (oneNextTasks[t].size() != otherNextTasks[t].size()) return false;
 
-    return matchingGenerate(one, other, mapping, backmapping, oneNextTasks, otherNextTasks, tasks);
+    return matchingGenerate(one, other, mapping, backmapping, oneNextTasks, otherNextTasks, tasks, todo);
 }
 
 
@@ -270,7 +281,7 @@ bool matching(searchNode *one, searchNode *other) {
     mapping[oneHead] = otherHead;
     backmapping[otherHead] = oneHead;
 
-    bool result = matchingDFS(one, other, oneHead, otherHead, mapping, backmapping);
+    bool result = matchingDFS(one, other, oneHead, otherHead, mapping, backmapping, {});
 
     //delete oneHead;
     //delete otherHead;
-- 
2.43.0


From f07c8db7e33c6beef336c783a1e62d73d631c174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:18 +0000
Subject: [PATCH 04/62] fix: Cudd_bddCharToVect releases the wrong entries when
 a reordering interrupts it

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c
index f999067..ea776e6 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddGenCof.c
@@ -495,12 +495,14 @@ Cudd_bddCharToVect(
 
     do {
 	dd->reordered = 0;
+	for (i = 0; i < dd->size; i++) vect[i] = NULL;
 	for (i = 0; i < dd->size; i++) {
 	    res = cuddBddCharToVect(dd,f,dd->vars[dd->invperm[i]]);
 	    if (res == NULL) {
-		/* Clean up the vector array in case reordering took place. */
-		for (j = 0; j < i; j++) {
-		    Cudd_IterDerefBdd(dd, vect[dd->invperm[j]]);
+		/* Clean up the vector array in case reordering took place.
+		** The order may have changed, hence look at every entry. */
+		for (j = 0; j < dd->size; j++) {
+		    if (vect[j] != NULL) Cudd_IterDerefBdd(dd, vect[j]);
 		}
 		break;
 	    }
-- 
2.43.0


From c5e7683c7632d21e0c6897093757aa8c0e13ba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:18 +0000
Subject: [PATCH 05/62] fix: Cudd_CofMinterm on a constant function reads past
 its result table

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddSign.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddSign.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddSign.c
index e2d50f8..63ffb2a 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddSign.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddSign.c
@@ -127,7 +127,7 @@ Cudd_CofMinterm(
 	result = ALLOC(double,size + 1);
 	if (result != NULL) {
 	    if (Cudd_IsConstantInt(node))
-		firstLevel = 1;
+		firstLevel = size;
 	    else
 		firstLevel = cuddI(dd,Cudd_Regular(node)->index);
 	    for (i = 0; i < size; i++) {
-- 
2.43.0


From e2e8d12ed664f0b73d4f65edf9b10e90ee66fddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:24 +0000
Subject: [PATCH 06/62] fix: Cudd_bddClosestCube misreads its result when
 unpacking it triggers reordering

---
 .../cudd-3.0.0/cudd/cuddPriority.c            | 26 ++++++++-----------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddPriority.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddPriority.c
index dfb530f..aca65ef 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddPriority.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddPriority.c
@@ -1317,26 +1317,22 @@ Cudd_bddClosestCube(
     DdNode *res, *acube;
     CUDD_VALUE_TYPE rdist;
 
-    /* Compute the cube and distance as a single ADD. */
+    /* Compute the cube and distance as a single ADD and unpack them.
+    ** The encoding of the distance depends on the variable order; hence,
+    ** if unpacking triggers reordering, start over. */
     do {
 	dd->reordered = 0;
+	acube = NULL;
 	res = cuddBddClosestCube(dd,f,g,CUDD_CONST_INDEX + 1.0);
-    } while (dd->reordered == 1);
-    if (res == NULL) {
-        if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
-            dd->timeoutHandler(dd, dd->tohArg);
-        }
-        return(NULL);
-    }
-    cuddRef(res);
-
-    /* Unpack distance and cube. */
-    do {
-	dd->reordered = 0;
-	acube = separateCube(dd, res, &rdist);
+	if (res != NULL) {
+	    cuddRef(res);
+	    acube = separateCube(dd, res, &rdist);
+	    if (acube == NULL) {
+		Cudd_RecursiveDeref(dd, res);
+	    }
+	}
     } while (dd->reordered == 1);
     if (acube == NULL) {
-	Cudd_RecursiveDeref(dd, res);
         if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
             dd->timeoutHandler(dd, dd->tohArg);
         }
-- 
2.43.0


From a450fe519681db0906b3d4ca239f6a350d6c75e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:15 +0000
Subject: [PATCH 07/62] fix: a tiny constant left by Cudd_CountMinterm is
 returned for the constant zero

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
index 6779800..ab8dd78 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddTable.c
@@ -1551,11 +1551,12 @@ cuddUniqueConst(
     /* Here we compare values both for equality and for difference less
      * than epsilon. The first comparison is required when values are
      * infinite, since Infinity - Infinity is NaN and NaN < X is 0 for
-     * every X.
+     * every X.  Zero is only matched exactly: a tiny constant created
+     * while epsilon was 0 (see Cudd_CountMinterm) must not stand for it.
      */
     while (looking != NULL) {
-	if (looking->type.value == value ||
-	ddEqualVal(looking->type.value,value,unique->epsilon)) {
+	if (looking->type.value == value || (value != 0.0 &&
+	ddEqualVal(looking->type.value,value,unique->epsilon))) {
 	    if (looking->ref == 0) {
 		cuddReclaim(unique,looking);
 	    }
-- 
2.43.0


From 460857d17b9cb825a06bfdead92bbee82008e4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 08/62] fix: Cudd_bddMakePrime walks the cube while reordering
 may change it

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c | 56 +++++++++++--------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c
index bce24ee..7080fb1 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c
@@ -969,15 +969,40 @@ cuddBddMakePrime(
     DdNode *t, *e;
     DdNode *res = cube;
     DdNode *lzero = Cudd_Not(DD_ONE(dd));
-
-    Cudd_Ref(res);
+    DdHalfWord *lits;
+    int i, nlits = 0;
+
+    /* Collect the variables of the cube first, because the abstractions
+    ** below may trigger reordering, which changes the cube's nodes. */
+    lits = ALLOC(DdHalfWord, dd->size + 1);
+    if (lits == NULL) {
+	dd->errorCode = CUDD_MEMORY_OUT;
+	return(NULL);
+    }
     scan = cube;
     while (!Cudd_IsConstantInt(scan)) {
-	DdNode *reg = Cudd_Regular(scan);
-	DdNode *var = dd->vars[reg->index];
-	DdNode *expanded = Cudd_bddExistAbstract(dd,res,var);
+	lits[nlits++] = Cudd_Regular(scan)->index;
+	cuddGetBranches(scan,&t,&e);
+	if (t == lzero) {
+	    scan = e;
+	} else if (e == lzero) {
+	    scan = t;
+	} else {
+	    FREE(lits);
+	    return(NULL);	/* cube is not a cube */
+	}
+    }
+    if (scan != DD_ONE(dd)) {
+	FREE(lits);
+	return(NULL);
+    }
+
+    Cudd_Ref(res);
+    for (i = 0; i < nlits; i++) {
+	DdNode *expanded = Cudd_bddExistAbstract(dd,res,dd->vars[lits[i]]);
 	if (expanded == NULL) {
-            Cudd_RecursiveDeref(dd,res);
+	    FREE(lits);
+	    Cudd_RecursiveDeref(dd,res);
 	    return(NULL);
 	}
 	Cudd_Ref(expanded);
@@ -987,24 +1012,11 @@ cuddBddMakePrime(
 	} else {
 	    Cudd_RecursiveDeref(dd,expanded);
 	}
-	cuddGetBranches(scan,&t,&e);
-	if (t == lzero) {
-	    scan = e;
-	} else if (e == lzero) {
-	    scan = t;
-	} else {
-	    Cudd_RecursiveDeref(dd,res);
-	    return(NULL);	/* cube is not a cube */
-	}
     }
+    FREE(lits);
 
-    if (scan == DD_ONE(dd)) {
-	Cudd_Deref(res);
-	return(res);
-    } else {
-	Cudd_RecursiveDeref(dd,res);
-	return(NULL);
-    }
+    Cudd_Deref(res);
+    return(res);
 
 } /* end of cuddBddMakePrime */
 
-- 
2.43.0


From 0286e914d2a1279788bda1b8960d5a60b08fa238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:12 +0000
Subject: [PATCH 09/62] fix: Cudd_SplitSet leaks references to the minterms it
 selects

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c
index f806f6d..a7f2f83 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddSplit.c
@@ -519,6 +519,8 @@ selectMintermsFromUniverse(
 	Cudd_RecursiveDeref(manager,vars[i]);
     FREE(vars);
 
+    if (result)
+	cuddDeref(result);	/* the callers take their own reference */
     return(result);
 
 } /* end of selectMintermsFromUniverse */
-- 
2.43.0


From 47d439ad32a480cbc26126fd19010afd10dd2d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 10/62] fix: exact reordering overflows its tables when some
 variables are unused

---
 .../cudd-3.0.0/cudd/cuddExact.c                | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddExact.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddExact.c
index 0e07eb2..8a094d8 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddExact.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddExact.c
@@ -120,7 +120,7 @@ cuddExact(
     int maxBinomial, oldSubsets, newSubsets;
     int subsetCost;
     int size;			/* number of variables to be reordered */
-    int unused, nvars, level, result;
+    int nvars, level, result;
     int upperBound, lowerBound, cost;
     int roots;
     char *mask = NULL;
@@ -163,17 +163,9 @@ cuddExact(
     /* Initialization. */
     nvars = table->size;
     size = upper - lower + 1;
-    /* Count unused variable among those to be reordered.  This is only
-    ** used to compute maxBinomial. */
-    unused = 0;
-    for (i = lower + 1; i < upper; i++) {
-	if (table->subtables[i].keys == 1 &&
-	    table->vars[table->invperm[i]]->ref == 1)
-	    unused++;
-    }
-
-    /* Find the maximum number of subsets we may have to store. */
-    maxBinomial = getMaxBinomial(size - unused);
+    /* Find the maximum number of subsets we may have to store.  Unused
+    ** variables are counted, too, because not all of them are skipped. */
+    maxBinomial = getMaxBinomial(size);
     if (maxBinomial == -1) goto cuddExactOutOfMem;
 
     newOrder = getMatrix(maxBinomial, size);
@@ -238,7 +230,7 @@ cuddExact(
 	    /* For each top bottom variable. */
 	    for (j = level; j >= 0; j--) {
 		/* Skip unused variables. */
-		if (table->subtables[j+lower-1].keys == 1 &&
+		if (j > 0 && table->subtables[j+lower-1].keys == 1 &&
 		    table->vars[table->invperm[j+lower-1]]->ref == 1) continue;
 		/* Find cost under this order. */
 		subsetCost = cost + getLevelKeys(table, lower + level);
-- 
2.43.0


From 927bffaf1e317dbe06aef6c73b45e0789f59b9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:03 +0000
Subject: [PATCH 11/62] fix: genetic reordering reads past the roulette wheel
 when the population is smaller than the number of variables

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddGenetic.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddGenetic.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddGenetic.c
index a818225..b5ff124 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddGenetic.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddGenetic.c
@@ -879,7 +879,7 @@ roulette(
     ** the sum of all fitness values. 2147483561 is the largest number
     ** returned by Cudd_Random.
     */
-    spin = wheel[info->numvars-1] * (double) Cudd_Random(dd) / 2147483561.0;
+    spin = wheel[info->popsize-1] * (double) Cudd_Random(dd) / 2147483561.0;
 
     /* Find the lucky element by scanning the wheel. */
     for (i = 0; i < info->popsize; i++) {
-- 
2.43.0


From 5b0ef6ee36b74ade1279c0dc4e032c99b14e3476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:19 +0000
Subject: [PATCH 12/62] fix: Cudd_addResidue ignored the sign bit of two's
 complement numbers

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c
index 789341d..b6dc20f 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c
@@ -209,6 +209,10 @@ Cudd_addResidue(
 	    return(NULL);
 	}
 	cuddRef(var);
+	/* Adjust residue for MSB, if this is a two's complement number. */
+	if (tc && (k == n - 1)) {
+	    residue = (m - residue) % m;
+	}
 	for (i = 0; i < m; i ++) {
 	    t = (i + residue) % m;
 	    tmp = Cudd_addIte(dd,var,array[previous][t],array[previous][i]);
@@ -233,10 +237,6 @@ Cudd_addResidue(
 	Cudd_RecursiveDeref(dd,var);
 	/* Update residue of 2**k. */
 	residue = (2 * residue) % m;
-	/* Adjust residue for MSB, if this is a two's complement number. */
-	if (tc && (k == n - 1)) {
-	    residue = (m - residue) % m;
-	}
     }
 
     /* We are only interested in the 0-residue node of the top layer. */
-- 
2.43.0


From 0140c7f1ba1eff7b06f10c513b1ef56854e9ba97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:20 +0000
Subject: [PATCH 13/62] fix: Cudd_addNonSimCompose wrote past its vectors when
 a variable beyond the last substituted one is met

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c
index cdcb5a6..73f8e10 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c
@@ -656,7 +656,7 @@ Cudd_addNonSimCompose(
 {
     DdNode		*cube, *key, *var, *tmp, *piece;
     DdNode		*res;
-    int			i, lastsub;
+    int			i;
 
     /* The cache entry for this function is composed of three parts:
     ** f itself, the replacement relation, and the cube of the
@@ -717,16 +717,11 @@ Cudd_addNonSimCompose(
 
     /* Now try composition, until no reordering occurs. */
     do {
-	/* Find real substitution with largest index. */
-	for (lastsub = dd->size - 1; lastsub >= 0; lastsub--) {
-	    if (!ddIsIthAddVar(dd,vector[lastsub],(unsigned int)lastsub)) {
-		break;
-	    }
-	}
-
-	/* Recursively solve the problem. */
+	/* Recursively solve the problem. Variables that are not
+	** substituted may be met on the way, whatever their index: the
+	** vectors need an entry for each variable. */
 	dd->reordered = 0;
-	res = cuddAddNonSimComposeRecur(dd,f,vector,key,cube,lastsub+1);
+	res = cuddAddNonSimComposeRecur(dd,f,vector,key,cube,(int) dd->size);
 	if (res != NULL) cuddRef(res);
 
     } while (dd->reordered == 1);
-- 
2.43.0


From 39423a4cdd297635d5d41dd8d52d206ec3f9115b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 14/62] fix: Cudd_addMinus took a negation interrupted by
 reordering for a non-terminal case

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddAddApply.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddApply.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddApply.c
index d9de676..c0172f0 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddApply.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddApply.c
@@ -315,7 +315,6 @@ Cudd_addMinus(
 
     F = *f; G = *g;
     if (F == G) return(DD_ZERO(dd));
-    if (F == DD_ZERO(dd)) return(cuddAddNegateRecur(dd,G));
     if (G == DD_ZERO(dd)) return(F);
     if (cuddIsConstant(F) && cuddIsConstant(G)) {
 	value = cuddV(F)-cuddV(G);
-- 
2.43.0


From 638c275e1d9e7d77223d3cb0ce161d6de72e2b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:04 +0000
Subject: [PATCH 15/62] fix: Cudd_addOuterSum hid a reordering from its
 recursion

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c
index 2b1e547..e779a80 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c
@@ -643,7 +643,11 @@ cuddAddOuterSumRecur(
 		return(M);
 	    }
 	} else {
-	    P = Cudd_addApply(dd,Cudd_addMinimum,R,M);
+	    P = cuddAddApplyRecur(dd,Cudd_addMinimum,R,M);
+	    if (P == NULL) {
+		Cudd_RecursiveDeref(dd,R);
+		return(NULL);
+	    }
 	    cuddRef(P);
 	    Cudd_RecursiveDeref(dd,R);
 	    cuddDeref(P);
-- 
2.43.0


From c2e6b40d50840dcbff8932a4f0f147cb5fd0c493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 16/62] fix: Cudd_addRoundOff reused results of another
 precision

---
 .../cudd-3.0.0/cudd/cuddAddNeg.c              | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddNeg.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddNeg.c
index 3f4c95d..0f6d161 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddNeg.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddNeg.c
@@ -130,13 +130,20 @@ Cudd_addRoundOff(
   DdNode * f,
   int  N)
 {
-    DdNode *res;
+    DdNode *res, *digits;
     double trunc = pow(10.0,(double)N);
 
+    /* The precision is part of the key in the computed table. */
+    digits = cuddUniqueConst(dd,trunc);
+    if (digits == NULL) return(NULL);
+    cuddRef(digits);
     do {
 	dd->reordered = 0;
 	res = cuddAddRoundOffRecur(dd,f,trunc);
     } while (dd->reordered == 1);
+    if (res != NULL) cuddRef(res);
+    Cudd_RecursiveDeref(dd,digits);
+    if (res != NULL) cuddDeref(res);
     if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
         dd->timeoutHandler(dd, dd->tohArg);
     }
@@ -225,9 +232,9 @@ cuddAddRoundOffRecur(
   double  trunc)
 {
 
-    DdNode *res, *fv, *fvn, *T, *E;
+    DdNode *res, *fv, *fvn, *T, *E, *digits;
     double m, n;
-    DD_CTFP1 cacheOp;
+    DD_CTFP cacheOp;
 
     statLine(dd);
     // if (cuddIsConstant(f)) {
@@ -245,8 +252,10 @@ cuddAddRoundOffRecur(
 	res = cuddUniqueConst(dd,n);
 	return(res);
     }
-    cacheOp = (DD_CTFP1) Cudd_addRoundOff;
-    res = cuddCacheLookup1(dd,cacheOp,f);
+    digits = cuddUniqueConst(dd,trunc);
+    if (digits == NULL) return(NULL);
+    cacheOp = (DD_CTFP) Cudd_addRoundOff;
+    res = cuddCacheLookup2(dd,cacheOp,f,digits);
     if (res != NULL) {
 	return(res);
     }
@@ -275,7 +284,7 @@ cuddAddRoundOffRecur(
     cuddDeref(E);
 
     /* Store result. */
-    cuddCacheInsert1(dd,cacheOp,f,res);
+    cuddCacheInsert2(dd,cacheOp,f,digits,res);
     return(res);
 
 } /* end of cuddAddRoundOffRecur */
-- 
2.43.0


From eb20bb1dec2fb001a02975b8b142c275f5872829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:10 +0000
Subject: [PATCH 17/62] fix: Cudd_addResidue failed when creating a variable
 triggered reordering

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c
index b6dc20f..a2ece4d 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddAddWalsh.c
@@ -199,7 +199,7 @@ Cudd_addResidue(
 	} else {
 	    index = top+k;
 	}
-	var = cuddUniqueInter(dd,index,DD_ONE(dd),DD_ZERO(dd));
+	var = Cudd_addIthVar(dd,index);
 	if (var == NULL) {
 	    for (j = 0; j < m; j++) {
 		Cudd_RecursiveDeref(dd,array[previous][j]);
-- 
2.43.0


From e043127cca32faaa65cd04f5af23c18b777c6f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:19 +0000
Subject: [PATCH 18/62] fix: Cudd_addPermute leaked nodes when creating a
 variable triggered reordering

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c
index 73f8e10..3bad3dc 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddCompose.c
@@ -1069,7 +1069,11 @@ cuddAddPermuteRecur(
     */
     index = permut[node->index];
     var = cuddUniqueInter(manager,index,DD_ONE(manager),DD_ZERO(manager));
-    if (var == NULL) return(NULL);
+    if (var == NULL) {
+	Cudd_RecursiveDeref(manager, T);
+	Cudd_RecursiveDeref(manager, E);
+	return(NULL);
+    }
     cuddRef(var);
     res = cuddAddIteRecur(manager,var,T,E);
     if (res == NULL) {
-- 
2.43.0


From a62834dfd9513b4f136efda518d2e8cc844e5f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:30 +0000
Subject: [PATCH 19/62] fix: Cudd_zddIthVar built a wrong diagram when index
 and level of the variable differ

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c
index fcc5eb0..901bf7f 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddAPI.c
@@ -341,6 +341,7 @@ Cudd_zddIthVar(
     DdNode *zvar;
     DdNode *lower;
     int j;
+    int autoDynZ;
 
     if ((unsigned int) i >= CUDD_MAXINDEX - 1) {
         dd->errorCode = CUDD_INVALID_ARG;
@@ -352,8 +353,13 @@ Cudd_zddIthVar(
     ** Above that level there are nodes with identical children.
     */
 
+    /* The levels must not change while the chain of nodes is built. */
+    autoDynZ = dd->autoDynZ;
+    dd->autoDynZ = 0;
+
     /* First we build the node at the level of index i. */
-    lower = (i < dd->sizeZ - 1) ? dd->univ[dd->permZ[i]+1] : DD_ONE(dd);
+    lower = (i < dd->sizeZ && dd->permZ[i] < dd->sizeZ - 1) ?
+        dd->univ[dd->permZ[i]+1] : DD_ONE(dd);
     do {
 	dd->reordered = 0;
 	zvar = cuddUniqueInterZdd(dd, i, lower, DD_ZERO(dd));
@@ -362,8 +368,10 @@ Cudd_zddIthVar(
         dd->timeoutHandler(dd, dd->tohArg);
     }
 
-    if (zvar == NULL)
+    if (zvar == NULL) {
+	dd->autoDynZ = autoDynZ;
 	return(NULL);
+    }
     cuddRef(zvar);
 
     /* Now we add the "filler" nodes above the level of index i. */
@@ -373,6 +381,7 @@ Cudd_zddIthVar(
 	    res = cuddUniqueInterZdd(dd, dd->invpermZ[j], zvar, zvar);
 	} while (dd->reordered == 1);
 	if (res == NULL) {
+	    dd->autoDynZ = autoDynZ;
 	    Cudd_RecursiveDerefZdd(dd,zvar);
             if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
                 dd->timeoutHandler(dd, dd->tohArg);
@@ -383,6 +392,7 @@ Cudd_zddIthVar(
 	Cudd_RecursiveDerefZdd(dd,zvar);
 	zvar = res;
     }
+    dd->autoDynZ = autoDynZ;
     cuddDeref(zvar);
     return(zvar);
 
-- 
2.43.0


From 20a17c8b22bce3887831e2e4361ebffd0a2cf84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:30 +0000
Subject: [PATCH 20/62] fix: cuddZddGetCofactors2 left the first cofactor
 unprotected while computing the second

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c
index 5f6d63c..6cf20cd 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c
@@ -1444,11 +1444,13 @@ cuddZddGetCofactors2(
     *f1 = cuddZddSubset1(dd, f, v);
     if (*f1 == NULL)
 	return(1);
+    Cudd_Ref(*f1);
     *f0 = cuddZddSubset0(dd, f, v);
     if (*f0 == NULL) {
 	Cudd_RecursiveDerefZdd(dd, *f1);
 	return(1);
     }
+    Cudd_Deref(*f1);
     return(0);
 
 } /* end of cuddZddGetCofactors2 */
-- 
2.43.0


From f1ff62beefc872a219867e870a736fdfc78ffcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:30 +0000
Subject: [PATCH 21/62] fix: cuddZddDivide leaked a partial result when
 reordering interrupted it

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c
index 6cf20cd..94e469b 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddFuncs.c
@@ -1170,6 +1170,7 @@ cuddZddDivide(
 	    Cudd_RecursiveDerefZdd(dd, f0);
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, g0);
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    return(NULL);
 	}
 	Cudd_Ref(q);
@@ -1180,6 +1181,7 @@ cuddZddDivide(
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, g0);
 	    Cudd_RecursiveDerefZdd(dd, q);
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    return(NULL);
 	}
 	Cudd_Ref(r);
@@ -1267,6 +1269,7 @@ cuddZddDivideF(
 	    Cudd_RecursiveDerefZdd(dd, f0);
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, g0);
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    return(NULL);
 	}
 	Cudd_Ref(q);
@@ -1277,6 +1280,7 @@ cuddZddDivideF(
 	    Cudd_RecursiveDerefZdd(dd, g1);
 	    Cudd_RecursiveDerefZdd(dd, g0);
 	    Cudd_RecursiveDerefZdd(dd, q);
+	    Cudd_RecursiveDerefZdd(dd, tmp);
 	    return(NULL);
 	}
 	Cudd_Ref(r);
-- 
2.43.0


From 565d3d510ce8c3ce2cc5721a53e9d0c4fdbd1a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:30 +0000
Subject: [PATCH 22/62] fix: Cudd_zddDiffConst cached a non-node and reclaimed
 results nobody released

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddZddSetop.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSetop.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSetop.c
index 18172b8..3a42a33 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSetop.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSetop.c
@@ -231,8 +231,9 @@ Cudd_zddDiffConst(
     if (P == Q)
 	return(empty);
 
-    /* Check cache.  The cache is shared by cuddZddDiff(). */
-    res = cuddCacheLookup2Zdd(table, cuddZddDiff, P, Q);
+    /* Check cache.  The cache is not shared by cuddZddDiff(): a lookup
+    ** could reclaim a dead difference, which nobody would dereference. */
+    res = cuddCacheLookup2Zdd(table, Cudd_zddDiffConst, P, Q);
     if (res != NULL)
 	return(res);
 
@@ -256,7 +257,9 @@ Cudd_zddDiffConst(
 	    res = Cudd_zddDiffConst(zdd, cuddE(P), cuddE(Q));
     }
 
-    cuddCacheInsert2(table, cuddZddDiff, P, Q, res);
+    /* DD_NON_CONSTANT is not a node, hence not a legal cache entry. */
+    if (res != DD_NON_CONSTANT)
+	cuddCacheInsert2(table, Cudd_zddDiffConst, P, Q, res);
 
     return(res);
 
-- 
2.43.0


From d0aaa6d1e80edee120f15cfd8660719d59b1fd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:48 +0000
Subject: [PATCH 23/62] fix: BDD planner did not swap the subtasks of a method
 ordered second-before-first

---
 src/symbolic_search/automaton.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 8b80a59..9e82524 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -1196,7 +1196,7 @@ void build_automaton(Model * htn){
 		int first = htn->subTasks[method][0];
 		int second = htn->subTasks[method][1];
 		assert(htn->numOrderings[method] == 2);
-		if (htn->ordering[method][0] == 1 && htn->ordering[method][1])
+		if (htn->ordering[method][0] == 1 && htn->ordering[method][1] == 0)
 			std::swap(first,second);
 
 		tasks_per_method[method] = {first, second};
-- 
2.43.0


From 6565bd0b7a2ea3a41361e58ba371e63b529af969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:48 +0000
Subject: [PATCH 24/62] fix: BDD planner incremented an end iterator and missed
 cost layers with abstract tasks only

---
 src/symbolic_search/automaton.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 9e82524..298f718 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -1724,13 +1724,18 @@ void build_automaton(Model * htn){
 		
 		if (next_abstract_layer == abst_q[currentCost].end()){
 			// transition to primitive layer
-			auto findIt = prim_q.find(currentCost);
-			findIt++;
-			if (findIt == prim_q.end() && ++abst_q.find(currentCost) == abst_q.end()){
+			// the next cost may be that of a primitive or (after an epsilon transition) only that of an abstract layer
+			auto nextPrim = prim_q.upper_bound(currentCost);
+			auto nextAbst = abst_q.upper_bound(currentCost);
+			while (nextAbst != abst_q.end() && nextAbst->second.empty()) nextAbst++;
+			if (nextPrim == prim_q.end() && nextAbst == abst_q.end()){
 				std::cout << color(RED,"Problem is unsolvable") << std::endl;
 				exit(0);
 			}
-			currentCost = findIt->first;
+			if (nextAbst == abst_q.end() || (nextPrim != prim_q.end() && nextPrim->first < nextAbst->first))
+				currentCost = nextPrim->first;
+			else
+				currentCost = nextAbst->first;
 			currentDepthInAbstract = 0; // the primitive layer
 			current_queue = prim_q[currentCost];
 			std::cout << color(CYAN,"==========================") << " Cost Layer " << currentCost << std::endl; 
-- 
2.43.0


From 6b59e4d62f191b55d76bc4ab50652792c7f4684e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:48 +0000
Subject: [PATCH 25/62] fix: BDD planner never visited the layer of an edge
 carrying additional cost

---
 src/symbolic_search/automaton.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 298f718..d50650f 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -1235,6 +1235,9 @@ void build_automaton(Model * htn){
 		std::tuple<int,int> tup = {task, to};
 		tracingInfo from = {currentCost, currentDepthInAbstract, fromTask, fromTo, method, cost, depth, extraCost};
 
+		// the edge was added to the layer of this cost, so that layer has to be visited
+		if (extraCost > 0) prim_q[currentCost + extraCost];
+
 		std::vector<tracingInfo> * insertQueue;
 #ifndef NDEBUG
 		int insertCost = -1, insertDepth = -1;
@@ -1282,7 +1285,7 @@ void build_automaton(Model * htn){
 			for(tracingInfo & info : entry.second){
 				//int sourceCost = get<0>(info) + get<7>(info);
 				int sourceCost = get<0>(info);
-				if (get<7>(info) != get<5>(info)) sourceCost += get<7>(info);
+				if (get<7>(info) > 0) sourceCost += get<7>(info);
 				if (handledCosts.count(sourceCost)) continue;
 				handledCosts.insert(sourceCost);
 
-- 
2.43.0


From e46e9f7c0bbe4713ee7f5a2563d43908fce6cacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:48 +0000
Subject: [PATCH 26/62] fix: BDD planner skipped epsilons whose insertion was
 not recorded

---
 src/symbolic_search/automaton.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index d50650f..9eb90fc 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -1565,8 +1565,6 @@ void build_automaton(Model * htn){
 											for (int depth = 0; depth < eps[methods_with_two_tasks_vertex[method]][cost].size(); depth++){
 												//if (cost == currentCost && depth == currentDepthInAbstract) break; // don't take epsilons from current layer, they will be handled elsewhere ...?
 												
-												// there is no reason to consider this, as there was no newly inserted epsilon state
-												if (eps_inserted[methods_with_two_tasks_vertex[method]][cost][depth].size() == 0) continue; 
 		
 												// state after eps in v and stack push state in v'
 												BDD epsCurrent = eps[methods_with_two_tasks_vertex[method]][cost][depth];
-- 
2.43.0


From 31d6b581f78e7c20bd636e07c27434cecf934fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:48 +0000
Subject: [PATCH 27/62] fix: BDD planner extended a new epsilon only along the
 edges of the previous layer

---
 src/symbolic_search/automaton.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 9eb90fc..464f988 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -1360,10 +1360,10 @@ void build_automaton(Model * htn){
 	
 							for (auto & [task2,tos] : edges[to]){
 								for (auto & [to2,bdds] : tos){
-									if (!bdds.count(lastCost) || !bdds[lastCost].count(lastDepth)) continue;
+									if (!bdds.count(currentCost) || !bdds[currentCost].count(currentDepthInAbstract)) continue;
 									DEBUG(std::cout << "\tContinuing edge: " << task2 << " " << vertex_to_method[to2] << "\t" << htn->taskNames[task2] << std::endl);
 									
-									BDD bdd = bdds[lastCost][lastDepth];
+									BDD bdd = bdds[currentCost][currentDepthInAbstract];
 									BDD addStateWithIntermediate = nextState * bdd;
 									BDD originalAddStateWithIntermediate = addStateWithIntermediate;
 									// we only add something if it is not already at the edge ...
-- 
2.43.0


From 6e53f986f1b50f4900b11b1f98905efa6b08832b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:48 +0000
Subject: [PATCH 28/62] fix: BDD plan extraction took the wrong previous layer

---
 src/symbolic_search/automaton.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 464f988..befb5e9 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -309,14 +309,14 @@ reconstructed_plan addToPlan(reconstructed_plan a, int task, int method, Model *
 
 
 
-pair<int,int> prev(int cost, int depth){
-	if (depth != 0)
-		return {cost, depth-1};
+// the layers in the order in which the search has visited them
+std::vector<std::pair<int,int>> visited_layers;
 
-	if (abst_q[cost-1].size() == 0)
-		return {cost-1, 0};
-	
-	return {cost-1, (--abst_q[cost-1].end())->first};
+pair<int,int> prev(int cost, int depth){
+	auto layer = std::lower_bound(visited_layers.begin(), visited_layers.end(), std::make_pair(cost,depth));
+	// there is nothing in front of the first layer
+	if (layer == visited_layers.begin()) return {-1, 0};
+	return *(--layer);
 }
 
 
@@ -1277,6 +1277,7 @@ void build_automaton(Model * htn){
 	std::map<std::tuple<int,int>, std::vector<tracingInfo> > & current_queue = prim_q[0];
 	// TODO separate trans and rel
 	while (true){ // TODO: detect unsolvability
+		visited_layers.push_back({currentCost, currentDepthInAbstract});
 		for (auto & entry : current_queue){
 			int task       = get<0>(entry.first);
 			int to         = get<1>(entry.first);
-- 
2.43.0


From b50811fd5294ade5e9066145f49608848e464b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:48 +0000
Subject: [PATCH 29/62] fix: BDD plan extraction lost the sub-plan of an
 epsilon

---
 src/symbolic_search/automaton.cpp | 43 +++++++++++++------------------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index befb5e9..13972a8 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -935,34 +935,29 @@ reconstructed_plan extract2From(int curCost, int curDepth,
 		);
 
 
-		for (auto & [_preCost2, _preDepth2, lastTask, _toAgain, method2, remainingTask, remainingMethod, _] : eps_inserted[toVertex][cost][depth]){
-			DEBUG(pc(mc); std::cout << color(YELLOW,"Vertex was reachable with Epsilon when ") << " next on stack: t=" << remainingTask << " m=" << remainingMethod << " previous task: " << lastTask << " method: " << method2 << " " << endl);
+		for (auto & [_preCost2, _preDepth2, lastTask, _toAgain, method2, _remainingTask, _remainingMethod, _] : eps_inserted[toVertex][cost][depth]){
+			DEBUG(pc(mc); std::cout << color(YELLOW,"Vertex was reachable with Epsilon when ") << " previous task: " << lastTask << " method: " << method2 << " " << endl);
 		
 
 			//////////////////////////////////////////////// Reconstruct a plan for the epsilon transition
-			// start reconstruction with empty stack	
-			std::deque<int> epsilonTaskStack;
-			std::deque<int> epsilonMethodStack;
-			std::deque<BDD> epsilonStateStack;
-
-			epsilonTaskStack.push_back(remainingTask);
-			epsilonMethodStack.push_back(remainingMethod);
-			ensureBDD(remainingTask, remainingMethod, pCost, pDepth, sym_vars);
-			epsilonStateStack.push_back(edges[0][remainingTask][remainingMethod][cost][depth] * !edges[0][remainingTask][remainingMethod][pCost][pDepth]);
-		
-			// regress through the last operation that we performed
-			predecessorsIsPossible = generatePredecessor(lastTask,toVertex,
-				epsilonTaskStack,epsilonMethodStack,epsilonStateStack,
-				method2,htn,sym_vars);
-
-			if (!predecessorsIsPossible) {
+			// the epsilon ends with the last operation that we performed, in one of the states that lead to the current stack head
+			BDD epsilonState = edgeBDD.AndAbstract(sym_vars.oneBDD(), sym_vars.existsVarsAux).
+				SwapVariables(sym_vars.swapVarsEff, sym_vars.swapVarsAux);
+			// regress through it
+			if (lastTask < htn->numActions)
+				epsilonState = trs[lastTask].preimage(epsilonState);
+
+			if (epsilonState.IsZero()) {
 				DEBUG(pc(mc); std::cout << "\t" << color(RED,"Predecessor cannot account for the new state.") << std::endl;);
 				continue;
 			}
 
-			epsilonTaskStack.pop_back();
-			epsilonMethodStack.pop_back();
-			epsilonStateStack.pop_back();
+			std::deque<int> epsilonTaskStack;
+			std::deque<int> epsilonMethodStack;
+			std::deque<BDD> epsilonStateStack;
+			epsilonTaskStack.push_back(lastTask);
+			epsilonMethodStack.push_back(toVertex);
+			epsilonStateStack.push_back(epsilonState);
 
 			// only a target state if push and current are identical	
 			BDD nextTargetState = edgeBDD.AndAbstract(sym_vars.oneBDD(), sym_vars.existsVarsPre).
@@ -1356,6 +1351,8 @@ void build_automaton(Model * htn){
 	 					BDD disjunct = eps[to][currentCost][currentDepthInAbstract] + nextState;  
 						if (disjunct != eps[to][currentCost][currentDepthInAbstract]){
 							eps[to][currentCost][currentDepthInAbstract] = disjunct;
+							tracingInfo tracingInf = {currentCost, currentDepthInAbstract, task, to, htn->emptyMethod[task], -1, -1, -1};
+							eps_inserted[to][currentCost][currentDepthInAbstract].push_back(tracingInf);
 							DEBUG(std::cout << "\t\t\t\t\t\t" << color(MAGENTA,"Adding to eps of ") << vertex_to_method[to] << std::endl);
 							
 	
@@ -1442,10 +1439,6 @@ void build_automaton(Model * htn){
 									addQ(task2, to2, 0, task, to, htn->emptyMethod[task], -1, -1, false); // no method as primitive
 							
 									
-									tracingInfo tracingInf = {currentCost, currentDepthInAbstract, task, to, htn->emptyMethod[task], task2, to2, -1};
-									eps_inserted[to][currentCost][currentDepthInAbstract].push_back(tracingInf);
-								
-									
 									//if (step == 141){
 									//	exit(0);
 									//}	
-- 
2.43.0


From 2d03012a7e733b6a324702a14f37c9a9782ff66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:48 +0000
Subject: [PATCH 30/62] fix: BDD plan extraction read from an empty stack after
 failing

---
 src/symbolic_search/automaton.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/symbolic_search/automaton.cpp b/src/symbolic_search/automaton.cpp
index 13972a8..47190ea 100644
--- a/src/symbolic_search/automaton.cpp
+++ b/src/symbolic_search/automaton.cpp
@@ -1095,10 +1095,11 @@ void extract(int curCost, int curDepth, int curTask, int curTo,
 	std::clock_t plan_start = std::clock();
 	reconstructed_plan a = extract2From(curCost, curDepth, htn->initialTask, 0, init, st, sm, ss, htn, sym_vars);
 
-	int stackTask = a.currentStack.front(); a.currentStack.pop_front();
-	// add a primitive action
-	a.primitive_plan.push_back({stackTask,curTask});
-	
+	if (a.success){
+		int stackTask = a.currentStack.front(); a.currentStack.pop_front();
+		// add a primitive action
+		a.primitive_plan.push_back({stackTask,curTask});
+	}
 	
 	std::clock_t plan_end = std::clock();
 	double plan_time_in_ms = 1000.0 * (plan_end-plan_start) / CLOCKS_PER_SEC;
-- 
2.43.0


From a7aeee943bbf77f730c24e19fd231e361223edf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:09 +0000
Subject: [PATCH 31/62] fix: deletes of facts that the same action adds
 overrode the add in the BDD, SAT and invariant code

---
 src/Model.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Model.cpp b/src/Model.cpp
index 2b0eaf4..5bfe652 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -1653,6 +1653,11 @@ newlyReachedMLMs = new noDelIntSet();
 			conditionalDelLists[i] = get<1>(dels);
 			conditionalDelListsCondition[i] = get<2>(dels);
 
+			// a fact that is both added and deleted is true afterwards, so it is not deleted
+			numDels[i] = std::remove_if(delLists[i], delLists[i] + numDels[i], [&](int f) {
+				return std::find(addLists[i], addLists[i] + numAdds[i], f) != addLists[i] + numAdds[i];
+			}) - delLists[i];
+
 #ifndef NDEBUG
 			for (int j = 0; j < numPrecs[i]; j++) {
 				assert(precLists[i][j] < numStateBits);
-- 
2.43.0


From 2888f642bab7ba259f19bbc27cd9069f92431dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:09 +0000
Subject: [PATCH 32/62] fix: SAT planner with h2 pruning but without mutexes
 dereferenced a null vector

---
 src/SearchEngine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SearchEngine.cpp b/src/SearchEngine.cpp
index ccb04b8..72d0279 100644
--- a/src/SearchEngine.cpp
+++ b/src/SearchEngine.cpp
@@ -229,7 +229,7 @@ int main(int argc, char *argv[]) {
 	bool trackContainedTasks = useTaskHash;
     Model* htn = new Model(trackContainedTasks, reachability, true, true);
 	htn->filename = inputFilename;
-	if (args_info.satmutexes_flag) htn->rintanenInvariants = true;
+	if (args_info.satmutexes_flag || string(args_info.pruning_arg) == "h2") htn->rintanenInvariants = true;
 	htn->read(inputStream);
 	assert(htn->isHtnModel);
 	searchNode* tnI = htn->prepareTNi(htn);
-- 
2.43.0


From b9b6bf3810dcbbf37179117860f95498cb025805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:09 +0000
Subject: [PATCH 33/62] fix: SAT planner ignored the order between actions with
 and without effects sharing a time step

---
 src/sat/partial_order.cpp | 10 ++++++++++
 src/sat/sat_planner.cpp   | 32 +++++++++++++++++---------------
 src/sat/state_formula.cpp |  4 ++--
 3 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/sat/partial_order.cpp b/src/sat/partial_order.cpp
index 5d52986..01811d0 100644
--- a/src/sat/partial_order.cpp
+++ b/src/sat/partial_order.cpp
@@ -160,6 +160,16 @@ void generate_matching_formula(void* solver, sat_capsule & capsule, Model * htn,
 		}
 	}
 
+	// at the same position, actions without effects are executed first, so nothing may follow one with effects
+	for (int l = 0; l < leafSOG->numberOfVertices; l++){
+		if (!leafSOG->leafContainsEffectAction[l]) continue;
+		for (int lSucc : leafSOG->adj[l]){
+			for (int p = 0; p < vars.size(); p++){
+				implies(solver,matching.matchingPerLeaf[l][p],forbiddenPerLeaf[lSucc][p]);
+			}
+		}
+	}
+
 	// forbidden-ness gets implied onwards
 	for (int l = 0; l < leafSOG->numberOfVertices; l++){
 		for (int lSucc : leafSOG->adj[l]){
diff --git a/src/sat/sat_planner.cpp b/src/sat/sat_planner.cpp
index ee86171..730efaa 100644
--- a/src/sat/sat_planner.cpp
+++ b/src/sat/sat_planner.cpp
@@ -97,21 +97,23 @@ pair<int,int> printSolution(void * solver, Model * htn, PDT* pdt, MatchingData &
 	// if po output the primitive plan now
 	if (!htn->isTotallyOrdered){
 		for (int p = 0; p < matching.matchingPerPosition.size(); p++){
-			for (auto [pvar, prim] : matching.vars[p]){
-				if (ipasir_val(solver,pvar) > 0){
-					// find the if of the matched leaf
-					for (int l = 0; l < matching.matchingPerPosition[p].size(); l++){
-						if (ipasir_val(solver,matching.matchingPerPosition[p][l]) > 0
-								&& matching.leafSOG->leafOfNode[l]->outputTask == prim){
-							// get the output number of that leaf
-							PDT * leaf = matching.leafSOG->leafOfNode[l];
-							solutionCost += htn->actionCosts[prim];
-							trueSolutionCost += originalActionCosts[prim];
-							leafsWithTask.push_back({leaf,l});
-							std::cout << leaf->outputID << " " << htn->taskNames[prim] << endl;
-						}
-					}
-				}
+			// find the leafs matched to this position
+			vector<tuple<bool,size_t,int>> matchedLeafs;
+			for (int l = 0; l < matching.matchingPerPosition[p].size(); l++)
+				if (ipasir_val(solver,matching.matchingPerPosition[p][l]) > 0
+						&& matching.leafSOG->leafOfNode[l]->outputTask != -1)
+					matchedLeafs.push_back({matching.leafSOG->leafContainsEffectAction[l], matching.leafSOG->predecessorSet[l].size(), l});
+			// effect-less actions come first, and in the order given by the decomposition
+			sort(matchedLeafs.begin(), matchedLeafs.end());
+
+			for (auto [_1, _2, l] : matchedLeafs){
+				// get the output number of that leaf
+				PDT * leaf = matching.leafSOG->leafOfNode[l];
+				int prim = leaf->outputTask;
+				solutionCost += htn->actionCosts[prim];
+				trueSolutionCost += originalActionCosts[prim];
+				leafsWithTask.push_back({leaf,l});
+				std::cout << leaf->outputID << " " << htn->taskNames[prim] << endl;
 			}
 		}
 	}
diff --git a/src/sat/state_formula.cpp b/src/sat/state_formula.cpp
index 955d8f5..4ee29ca 100644
--- a/src/sat/state_formula.cpp
+++ b/src/sat/state_formula.cpp
@@ -275,8 +275,8 @@ void get_partial_state_atoms(sat_capsule & capsule, Model * htn, SOG* sog, vecto
 		sog->leafContainsEffectAction[t] = actualAction;
 	}
 	int numberOfTimeSteps = sog->numberOfVertices - leafsWithoutActualActions;
-	numberOfTimeSteps = numberOfTimeSteps;
-	if (numberOfTimeSteps == 0) numberOfTimeSteps = 1;
+	// effect-less actions share a time step with the next action with effects, or come after all of those
+	if (leafsWithoutActualActions || numberOfTimeSteps == 0) numberOfTimeSteps++;
 	
 	cout << "Total Leafs: " << sog->numberOfVertices << " of that without effect-actions " << leafsWithoutActualActions << " remaining: " << numberOfTimeSteps << endl;
 
-- 
2.43.0


From 3bf1d2295dd879229f711a1e353a9aed6bd549f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:09 +0000
Subject: [PATCH 34/62] fix: merging partially ordered methods in the SAT
 planner implied orderings, even cyclic ones, no method has

---
 src/sat/sog.cpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/sat/sog.cpp b/src/sat/sog.cpp
index 9ccc8d8..b1c64a1 100644
--- a/src/sat/sog.cpp
+++ b/src/sat/sog.cpp
@@ -5,6 +5,36 @@
 #include "pdt.h"
 
 
+// Determines the orderings that follow if the given subtask is mapped to vertex v (sog->adj is kept transitively closed).
+// Returns whether one of them contradicts a method that has already been mapped, and adds them on request.
+bool addOrderingsTransitively(SOG* sog, vector<unordered_set<uint16_t>> & antiAdj, int v, int m, int subTask, size_t stID, vector<uint16_t> & mapping, Model* htn, bool add){
+	unordered_set<uint16_t> before (sog->bdj[v]), after (sog->adj[v]);
+	for (size_t ostID = 0; ostID < stID; ostID++){
+		int otherSubTask = htn->methodTotalOrder[m][ostID];
+		int ov = mapping[otherSubTask];
+		if (htn->methodSubTasksSuccessors[m][subTask].count(otherSubTask)){
+			after.insert(ov);
+			after.insert(sog->adj[ov].begin(), sog->adj[ov].end());
+		} else if (htn->methodSubTasksPredecessors[m][subTask].count(otherSubTask)){
+			before.insert(ov);
+			before.insert(sog->bdj[ov].begin(), sog->bdj[ov].end());
+		}
+	}
+	if (before.count(v) || after.count(v)) return true;
+	before.insert(v);
+	after.insert(v);
+
+	for (int b : before) for (int a : after){
+		if (b == v && a == v) continue;
+		if (a == b || antiAdj[b].count(a)) return true;
+		if (add){
+			sog->adj[b].insert(a);
+			sog->bdj[a].insert(b);
+		}
+	}
+	return false;
+}
+
 SOG* runPOSOGOptimiser(SOG* sog, vector<tuple<uint32_t,uint32_t,uint32_t>> & methods, Model* htn, bool effectLessActionsInSeparateLeaf){
 	vector<unordered_set<uint16_t>> antiAdj;
 	vector<unordered_set<uint16_t>> antiBdj;
@@ -82,6 +112,9 @@ SOG* runPOSOGOptimiser(SOG* sog, vector<tuple<uint32_t,uint32_t,uint32_t>> & met
 					}
 				}
 			
+				// the orderings that would be implied transitively must not contradict any method either
+				if (addOrderingsTransitively(sog, antiAdj, v, m, subTask, stID, mapping, htn, false)) goto next_vertex;
+
 				// if we reached this point, this vertex is ok
 				matchingVertices.push_back(v);
 next_vertex:;
@@ -139,6 +172,7 @@ next_vertex:;
 			sog->labels[v].insert(myTask);
 			if (myTask < htn->numActions && (htn->numAdds[myTask] == 0 && htn->numDels[myTask] == 0)) vertices_for_effectless_actions.insert(v);
 
+			addOrderingsTransitively(sog, antiAdj, v, m, subTask, stID, mapping, htn, true);
 			// add the vertices and anti-vertices needed for this new node
 			for (size_t ostID = 0; ostID < stID; ostID++){
 				int otherSubTask = htn->methodTotalOrder[m][ostID];
-- 
2.43.0


From 6cb9ee097506b345450b454b40f442b816c081c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:59 +0000
Subject: [PATCH 35/62] fix: the SAS+ translation looked for the variable of an
 initial fact among too few variables

---
 src/translation/htnToSAS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index f0833df..e109800 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -174,7 +174,7 @@ void HTNToSASTranslation::sasPlus(){
   for (int i = 0; i < htn->s0Size; i++){
     int j = 0;
     while (true){
-      if (j >= htn->s0Size || htn->firstIndex[j] > htn->s0List[i]){
+      if (j >= htn->numVars || htn->firstIndex[j] > htn->s0List[i]){
         j--;
         break;
       }
-- 
2.43.0


From d0fcff5deee23cb65ea61366d00150aa933940ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:59 +0000
Subject: [PATCH 36/62] fix: the push encoding wrote conditional effects that
 were never set

---
 src/translation/htnToSAS.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index e109800..fb92c6e 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -714,9 +714,10 @@ int HTNToSASTranslation::htnToCondSorted(int pgb) {
   index = methodTaskIndex;
   for (int i = 0; i < htn->numTasks; i++) {
     for (int j = 0; j < (pgb - 1); j++){
-      numConditionalEffectsTrans[index] = pgb;
+      // one per ordering to copy, and two for the movability of the next point
+      numConditionalEffectsTrans[index] = pgb - 2;
       if (j > 0){
-        numConditionalEffectsTrans[index] = pgb + 2;
+        numConditionalEffectsTrans[index] = pgb;
       }
       effectConditionsTrans[index] = new int*[numConditionalEffectsTrans[index]];
       numEffectConditionsTrans[index] = new int[numConditionalEffectsTrans[index]];
-- 
2.43.0


From 50295ebd1adc1b7586be1bf27c71c39891eebefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:59 +0000
Subject: [PATCH 37/62] fix: the empty tasks of the STRIPS encoding had the
 costs of unrelated actions

---
 src/translation/htnToSAS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index fb92c6e..3d4d9f3 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -2348,7 +2348,7 @@ void HTNToSASTranslation::writeToFastDown(string sasName, bool hasCondEff, bool
         }
         sasfile << cost << " " << var0 << " " << preco << " " << var1 << endl;
       }
-      sasfile << this->actionCostsTrans[i] << endl;
+      sasfile << 0 << endl;
       sasfile << "end_operator" << endl;
       for (int j = 0; j < numP; j++){
         delete[] precs[j];
-- 
2.43.0


From 50dd4ddc605d8bc55d7c338da3d214df0a83e4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:59 +0000
Subject: [PATCH 38/62] fix: leading actions needing different values of a
 variable were merged into an applicable operator

---
 src/translation/htnToSAS.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index 3d4d9f3..c49691e 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -269,6 +269,15 @@ int HTNToSASTranslation::calculatePrecsAndAdds(int* s, int* p, int* a, string ta
         if (start == -1){
           start = varChange[i][2 * j];
         }
+        else if (varChange[i][2 * j] != -1 && start != varChange[i][2 * j]){
+          cerr << endl << "variable: " << i << ", value required: " << start << ", and also: " << varChange[i][2 * j] << endl;
+          for (int j = 0; j < htn->numVars; j++){
+            delete[] varChange[j];
+          }
+          delete[] varChange;
+          delete[] task;
+          return -1;
+        }
       }
       else if (varChange[i][2 * j] != -1 && end != varChange[i][2 * j]){
         cerr << endl << "variable: " << i << ", value old: " << end << ", value should be: " << varChange[i][2 * j] << endl;
-- 
2.43.0


From 666bf267f060d40ca79ac204b39b26a4466441e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:59 +0000
Subject: [PATCH 39/62] fix: the SAS+ translation mixed up the subtasks of
 methods not given in their order

---
 src/translation/htnToSAS.cpp | 63 +++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 34 deletions(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index c49691e..f0d54ce 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -339,54 +339,49 @@ void HTNToSASTranslation::reorderTasks(bool warning){
       hasNoLastTask[i] = true;
       continue;
     }
+    // topological order of the subtasks: subs[j] is the j-th one
     int* subs = new int[htn->numSubTasks[i]];
+    bool* used = new bool[htn->numSubTasks[i]];
     for (int j = 0; j < htn->numSubTasks[i]; j++){
-  	bool valueSet = false;
+      used[j] = false;
+    }
+    for (int j = 0; j < htn->numSubTasks[i]; j++){
+      bool valueSet = false;
       for (int k = 0; k < htn->numSubTasks[i]; k++){
-        bool notAlone = false;
+        bool notAlone = used[k];
         for (int l = 0; l < htn->numOrderings[i] / 2; l++){
-          bool alreadyUsed = false;
-          bool ka = false;
-          for (int m = 0; m < j; m++){
-            if (k == subs[m]){
-              ka = true;
-              break;
-            }
-            if (htn->ordering[i][2 * l] == subs[m]){
-              alreadyUsed = true;
-              break;
-            }
-          }
-          if (ka){
+          if (htn->ordering[i][2 * l + 1] == k && not used[htn->ordering[i][2 * l]]){
             notAlone = true;
-            break;
-          }
-          if (not alreadyUsed && htn->ordering[i][2 * l + 1] == k){
-            notAlone = true;
-            break;
           }
         }
         if (not notAlone){
           if (not valueSet){
-  			subs[j] = k;
-  			valueSet = true;
-  		} else if (warning){
-  			cout << "ATTENTION: Instance is not of the parallel sequences type. Search with the PSeq encoding might be incomplete." << endl;
-  		}
+            subs[j] = k;
+            valueSet = true;
+          } else if (warning && i != htn->taskToMethods[htn->initialTask][0]){
+            cout << "ATTENTION: Instance is not of the parallel sequences type. Search with the PSeq encoding might be incomplete." << endl;
+          }
         }
       }
+      used[subs[j]] = true;
     }
+    delete[] used;
 
-    // reordering tasks and adjusting restrictions
+    // reordering tasks (last one first) and adjusting restrictions
+    int* newIndex = new int[htn->numSubTasks[i]];
     for (int j = 0; j < htn->numSubTasks[i]; j++){
-      subTasksInOrder[i][j] = htn->subTasks[i][htn->numSubTasks[i] - 1 - subs[j]];
+      newIndex[subs[j]] = htn->numSubTasks[i] - 1 - j;
+    }
+    for (int j = 0; j < htn->numSubTasks[i]; j++){
+      subTasksInOrder[i][newIndex[j]] = htn->subTasks[i][j];
     }
     for (int j = 0; j < htn->numOrderings[i]; j++){
-      htn->ordering[i][j] = htn->numSubTasks[i] - 1 - subs[htn->ordering[i][j]];
+      htn->ordering[i][j] = newIndex[htn->ordering[i][j]];
     }
+    delete[] newIndex;
     // evaluating number of primitive tasks in front
-    for (int j = 0; j < htn->numSubTasks[i]; j++){
-      if (htn->isPrimitive[htn->subTasks[i][j]]){
+    for (int j = htn->numSubTasks[i] - 1; j >= 0; j--){
+      if (htn->isPrimitive[subTasksInOrder[i][j]]){
         firstNumTOPrimTasks[i]++;
       }
       else {
@@ -401,14 +396,14 @@ void HTNToSASTranslation::reorderTasks(bool warning){
     }
     else {
       bool* lower = new bool[htn->numSubTasks[i]];
-      for (int j = 0; j < htn->numSubTasks[i] - 1; j++){
+      for (int j = 1; j < htn->numSubTasks[i]; j++){
         lower[j] = false;
       }
-      lower[htn->numSubTasks[i] - 1] = true;
+      lower[0] = true;
       for (int j = 0; j < htn->numSubTasks[i] - 1; j++){
         for (int k = 0; k < htn->numOrderings[i] / 2; k++){
-          if (lower[htn->ordering[i][2 * k]]){
-            lower[htn->ordering[i][2 * k + 1]] = true;
+          if (lower[htn->ordering[i][2 * k + 1]]){
+            lower[htn->ordering[i][2 * k]] = true;
           }
         }
       }
-- 
2.43.0


From abd2d205098d276d5bf2e147082a6a604c9f515c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:59 +0000
Subject: [PATCH 40/62] fix: the conditional-effects encoding was written
 without its conditional effects

---
 src/translation/translationController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/translation/translationController.cpp b/src/translation/translationController.cpp
index aa36173..81e9c11 100644
--- a/src/translation/translationController.cpp
+++ b/src/translation/translationController.cpp
@@ -69,7 +69,7 @@ void printSASToFile(HTNToSASTranslation * translation, TranslationType transtype
     gettimeofday(&tp, NULL);
     startT = tp.tv_sec * 1000 + tp.tv_usec / 1000;
     cout << "Printing HTN model to file \"" << sasfile << "\" ... ";
-    translation->writeToFastDown(sasfile, transtype == Push, realCosts);
+    translation->writeToFastDown(sasfile, transtype == Push || transtype == BaseCondEffects, realCosts);
     gettimeofday(&tp, NULL);
     currentT = tp.tv_sec * 1000 + tp.tv_usec / 1000;
     cout << " (" << (currentT - startT) << " ms)" << endl;
-- 
2.43.0


From 32501a27af65003dba9be50494515e8599a6ebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:17 +0000
Subject: [PATCH 41/62] fix: plans of the translation were decoded by guessing
 which step does which subtask

---
 src/translation/htnToSAS.cpp | 80 +++++++++++-------------------------
 1 file changed, 24 insertions(+), 56 deletions(-)

diff --git a/src/translation/htnToSAS.cpp b/src/translation/htnToSAS.cpp
index f0d54ce..cadfa19 100644
--- a/src/translation/htnToSAS.cpp
+++ b/src/translation/htnToSAS.cpp
@@ -3,6 +3,7 @@
 #include <fstream>
 #include <cstring>
 #include <list>
+#include <map>
 #include <sys/time.h>
 
 using namespace std;
@@ -2588,7 +2589,8 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
     int* methIndex = new int[methNumMax];
     int* primIndex = new int[primNumMax];
     int** subHeads = new int*[methNumMax];
-    bool** subHeadsFixed = new bool*[methNumMax];
+    int** children = new int*[methNumMax]; // the step that does each subtask
+    map<int, pair<int, int>> owner; // for each occupied head: the method and which of its subtasks the task is
     bool* hasPrimIndezes = new bool[methNumMax];
     int** firstPrimIndezes = new int*[methNumMax];
     int* order = new int[linecount];
@@ -2604,20 +2606,10 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
         order[i] = primNum;
         heads[i] = stoi(plan[i].substr(plan[i].find("head") + 5, plan[i].find("]", plan[i].find("head"), 1) - plan[i].find("head") - 5));
         
-	    for (int j = methNum - 1; j >= 0; j--){
-		  bool repl = false;
-          for (int k = 0; k < htn->numSubTasks[methIndex[j]]; k++){
-            if (subHeadsFixed[j][k] == false && subHeads[j][k] == heads[i]){
-              subHeadsFixed[j][k] = true;
-			  repl = true;
-              break;
-            }
-          }
-          if (repl){
-            break;
-          }
-        }
-	
+        // the task at this head is done by this step
+        if (owner.count(heads[i])) children[owner[heads[i]].first][owner[heads[i]].second] = order[i];
+        owner.erase(heads[i]);
+
 		fout << primNum << " " << primitives[primNum] << endl;
         primNum++;
       }
@@ -2627,7 +2619,12 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
         order[i] = methNum + primNumMax;
         heads[i] = stoi(plan[i].substr(plan[i].find("head") + 5, plan[i].find("]", plan[i].find("head"), 1) - plan[i].find("head") - 5));
         subHeads[methNum] = new int[htn->numSubTasks[methIndex[methNum]]];
-        subHeadsFixed[methNum] = new bool[htn->numSubTasks[methIndex[methNum]]];
+        children[methNum] = new int[htn->numSubTasks[methIndex[methNum]]];
+        for (int j = 0; j < htn->numSubTasks[methIndex[methNum]]; j++){
+          children[methNum][j] = -1;
+        }
+        if (owner.count(heads[i])) children[owner[heads[i]].first][owner[heads[i]].second] = order[i];
+        owner.erase(heads[i]);
         int index = plan[i].find("firstPrim");
         hasPrimIndezes[methNum] = false;
         if (index < plan[i].length()){
@@ -2653,7 +2650,11 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
         index = plan[i].find("subtasks");
         if (index < plan[i].length()){
           string s = plan[i].substr(index + 9, plan[i].find("]", index, 1) - index - 9);
-          for (int j = 0; j < htn->numSubTasks[methIndex[methNum]]; j++){
+          int tracked = htn->numSubTasks[methIndex[methNum]];
+          if (hasPrimIndezes[methNum]){
+            tracked -= firstNumTOPrimTasks[methIndex[methNum]];
+          }
+          for (int j = 0; j < tracked; j++){
             int f = s.find(",");
             if (f < s.length()){
               subHeads[methNum][j] = stoi(s.substr(0, f));
@@ -2662,26 +2663,17 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
             else {
               subHeads[methNum][j] = stoi(s);
             }
-          	subHeadsFixed[methNum][j] = false;
-		  }
+            owner[subHeads[methNum][j]] = make_pair(methNum, j);
+          }
         }
         methNum++;
       }
       else if (plan[i].size() > 4 && string("move").compare(plan[i].substr(1, 4)) == 0){
         int from = stoi(plan[i].substr(plan[i].find("from") + 5, plan[i].find("]", plan[i].find("from"), 1) - plan[i].find("from") - 5));
         int to = stoi(plan[i].substr(plan[i].find("to") + 3, plan[i].find("]", plan[i].find("to"), 1) - plan[i].find("to") - 3));
-        bool repl = false;
-        for (int j = methNum - 1; j >= 0; j--){
-          if (repl){
-            break;
-          }
-          for (int k = 0; k < htn->numSubTasks[methIndex[j]]; k++){
-            if (subHeadsFixed[j][k] == false && subHeads[j][k] == from){
-              subHeads[j][k] = to;
-              repl = true;
-              break;
-            }
-          }
+        if (owner.count(from)){
+          owner[to] = owner[from];
+          owner.erase(from);
         }
       }
     }
@@ -2705,31 +2697,7 @@ void HTNToSASTranslation::planToHddl(string infile, string outfile) {
         }
       }
       for (int j = htn->numSubTasks[m] - 1 - fntopt; j >= 0; j--){
-	int index = -1;
-        for (int k = o + 1; k < linecount - 1; k++){
-          if (order[k] == -1){
-            continue;
-          }
-          if (order[k] < primNumMax){
-            if (primIndex[order[k]] == subTasksInOrder[m][j]){
-              if (heads[k] != subHeads[i][j]){
-                continue;
-              }
-              index = order[k];
-              break;
-            }
-          }
-          else {
-            if (subTasksInOrder[m][j] == htn->decomposedTask[methIndex[order[k]-primNumMax]]){
-              if (heads[k] != subHeads[i][j]){
-                continue;
-              }
-              index = order[k];
-              break;
-            }
-          }
-        }
-        fout << index << " ";
+        fout << children[i][j] << " ";
       }
       fout << endl;
     }
-- 
2.43.0


From 5574d2ec8d2d5f1304f22640642ca12fa2551234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:43 +0000
Subject: [PATCH 42/62] fix: minimal implied costs and distances ignored
 methods without actions

---
 src/Model.cpp | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index 5bfe652..8954be0 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -2695,9 +2695,10 @@ newlyReachedMLMs = new noDelIntSet();
 		int *minEstimatedCostsM = new int[this->numMethods];
 		int *minImpliedDistanceM = new int[this->numMethods];
 
+		// start from infinity: a value is only known once there is a decomposition having it
 		for (int i = 0; i < this->numMethods; i++) {
-            minEstimatedCostsM[i] = 0;
-			minImpliedDistanceM[i] = 0;
+            minEstimatedCostsM[i] = INT_MAX;
+			minImpliedDistanceM[i] = INT_MAX;
 		}
 
 		for (int i = 0; i < this->numTasks; i++) {
@@ -2705,20 +2706,17 @@ newlyReachedMLMs = new noDelIntSet();
                 minEstimatedCosts[i] = this->actionCosts[i];
 				minImpliedDistance[i] = 1;
 			} else {
-                minEstimatedCosts[i] = 0;
-				minImpliedDistance[i] = 0;
+                minEstimatedCosts[i] = INT_MAX;
+				minImpliedDistance[i] = INT_MAX;
 			}
 		}
 
 		list<tOrMnode *> h;
-		for (int i = 0; i < numActions; i++) {
-			for (int j = 0; j < this->stToMethodNum[i]; j++) {
-				int m = stToMethod[i][j];
-				tOrMnode *nn = new tOrMnode();
-				nn->id = m;
-				nn->isMethod = true;
-				h.push_back(nn);
-			}
+		for (int m = 0; m < numMethods; m++) {
+			tOrMnode *nn = new tOrMnode();
+			nn->id = m;
+			nn->isMethod = true;
+			h.push_back(nn);
 		}
 
 		while (!h.empty()) {
@@ -2732,6 +2730,11 @@ newlyReachedMLMs = new noDelIntSet();
 				minImpliedDistanceM[n->id] = 1; // a distance of one is implied by the decomposition itself
 				for (int i = 0; i < this->numSubTasks[n->id]; i++) {
 					int st = this->subTasks[n->id][i];
+					if (minImpliedDistance[st] == INT_MAX) { // no decomposition of this subtask known yet
+						minEstimatedCostsM[n->id] = INT_MAX;
+						minImpliedDistanceM[n->id] = INT_MAX;
+						break;
+					}
                     minEstimatedCostsM[n->id] += minEstimatedCosts[st];
 					minImpliedDistanceM[n->id] += minImpliedDistance[st];
 				}
@@ -2772,6 +2775,14 @@ newlyReachedMLMs = new noDelIntSet();
 		delete[] minEstimatedCostsM;
 		delete[] minImpliedDistanceM;
 
+		// nothing is known about tasks that cannot be decomposed completely
+		for (int i = 0; i < this->numTasks; i++) {
+			if (minImpliedDistance[i] == INT_MAX) {
+				minEstimatedCosts[i] = 0;
+				minImpliedDistance[i] = 0;
+			}
+		}
+
 		gettimeofday(&tp, NULL);
 		long currentT = tp.tv_sec * 1000 + tp.tv_usec / 1000;
 
-- 
2.43.0


From 183e378fb5ed121c64c71e4472e3897018d096a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:57 +0000
Subject: [PATCH 43/62] fix: the landmarks of an unreachable task or goal were
 read from a list it does not have

---
 src/heuristics/landmarks/lmExtraction/LmCausal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/heuristics/landmarks/lmExtraction/LmCausal.cpp b/src/heuristics/landmarks/lmExtraction/LmCausal.cpp
index db3ce5b..e7db9cc 100644
--- a/src/heuristics/landmarks/lmExtraction/LmCausal.cpp
+++ b/src/heuristics/landmarks/lmExtraction/LmCausal.cpp
@@ -245,7 +245,7 @@ namespace progression {
             LmAoNode *n = nodes[tNode(tn->containedTasks[i])];
             if (n->containsFullSet) {
                 for (int j = 0; j < numNodes; j++)
-                    unionSet->insert(n->lms[j]);
+                    unionSet->insert(j);
             } else {
                 for (int j = 0; j < n->numLMs; j++) {
                     unionSet->insert(n->lms[j]);
@@ -257,7 +257,7 @@ namespace progression {
             LmAoNode *n = nodes[fNode(gf)];
             if (n->containsFullSet) {
                 for (int j = 0; j < numNodes; j++)
-                    unionSet->insert(n->lms[j]);
+                    unionSet->insert(j);
             } else {
                 for (int j = 0; j < n->numLMs; j++) {
                     unionSet->insert(n->lms[j]);
-- 
2.43.0


From 5140c73223e010307880090007754cc2e577839f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:02 +0000
Subject: [PATCH 44/62] fix: HDDL export lost or dangled the orderings of
 omitted no-ops

---
 src/Model.cpp | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index 8954be0..231f8f8 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -2901,27 +2901,31 @@ newlyReachedMLMs = new noDelIntSet();
 				dfile << "     )" << endl;
 
 
-				if (this->numOrderings[i]) {
+				// tasks ordered via a no-op stay ordered without it
+				set<pair<int,int>> order;
+				for (int j = 0; j < this->numOrderings[i]; j += 2)
+					order.insert(make_pair(this->ordering[i][j], this->ordering[i][j + 1]));
+				for (const int & noop : noopIDs) {
+					set<pair<int,int>> without;
+					for (const pair<int,int> & before : order) {
+						if (before.first != noop && before.second != noop) without.insert(before);
+						if (before.second != noop) continue;
+						for (const pair<int,int> & after : order)
+							if (after.first == noop) without.insert(make_pair(before.first, after.second));
+					}
+					order = without;
+				}
 
-					int j = 0;
-					bool firstOrdering = true;
-					while (j < this->numOrderings[i]) {
-						if (this->ordering[i][j] == possibleMethodPrecondition || noopIDs.count(this->ordering[i][j]) || noopIDs.count(this->ordering[i][j] + 1) ) {
-							j+=2;
-							continue;
-						}
-						if (firstOrdering) {
-							dfile << "     :ordering (and" << endl;
-							firstOrdering = false;
-						}
-						
-						
-						dfile << "        (task" << this->ordering[i][j] << " < task" << this->ordering[i][j + 1] << ")"
-							<< endl;
-						j += 2;
+				bool firstOrdering = true;
+				for (const pair<int,int> & o : order) {
+					if (o.first == possibleMethodPrecondition) continue;
+					if (firstOrdering) {
+						dfile << "     :ordering (and" << endl;
+						firstOrdering = false;
 					}
-					if (!firstOrdering) dfile << "     )" << endl;
+					dfile << "        (task" << o.first << " < task" << o.second << ")" << endl;
 				}
+				if (!firstOrdering) dfile << "     )" << endl;
 			}
 
 			dfile << "  )" << endl;
-- 
2.43.0


From b699fdbdf25fc3cc95b698f6a3cbf16204147c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:24 +0000
Subject: [PATCH 45/62] fix: HDDL export gave different tasks or facts the same
 name

---
 src/Model.cpp | 45 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/Model.cpp b/src/Model.cpp
index 231f8f8..40e5ccb 100644
--- a/src/Model.cpp
+++ b/src/Model.cpp
@@ -2795,19 +2795,38 @@ newlyReachedMLMs = new noDelIntSet();
 	}
 
 	void Model::writeToPDDL(string dName, string pName) {
+		// different names may become equal when cleaned, these are told apart by their number
+		auto uniqueNames = [this](const string * names, int num) {
+			vector<string> unique(num);
+			set<string> cleaned, used;
+			for (int i = 0; i < num; i++) {
+				unique[i] = su.cleanStr(names[i]);
+				cleaned.insert(unique[i]);
+			}
+			for (int i = 0; i < num; i++) {
+				if (used.count(unique[i]))
+					do unique[i] += "_" + to_string(i);
+					while (cleaned.count(unique[i]) || used.count(unique[i]));
+				used.insert(unique[i]);
+			}
+			return unique;
+		};
+		const vector<string> factNames = uniqueNames(this->factStrs, this->numStateBits);
+		const vector<string> cleanTaskNames = uniqueNames(this->taskNames, this->numTasks);
+
 		ofstream dfile;
 		dfile.open(dName);
 		dfile << "(define (domain rc)" << endl;
 		dfile << "  (:predicates ";
 		for (int i = 0; i < this->numStateBits; i++) {
-			dfile << "(" << su.cleanStr(this->factStrs[i]) << ")" << endl;
+			dfile << "(" << factNames[i] << ")" << endl;
 			if (i < this->numStateBits - 1)
 				dfile << "               ";
 		}
 		dfile << "  )" << endl << endl;
 
 		for (int i = numActions; i < numTasks; i++) {
-			dfile << "  (:task " << su.cleanStr(this->taskNames[i]);
+			dfile << "  (:task " << cleanTaskNames[i];
 			dfile << " :parameters ())" << endl;
 		}
 		dfile << endl;
@@ -2856,13 +2875,13 @@ newlyReachedMLMs = new noDelIntSet();
 
 			dfile << "  (:method " << su.cleanStr(this->methodNames[i]) << "_" << i << endl;
 			dfile << "     :parameters ()" << endl;
-			dfile << "     :task (" << su.cleanStr(this->taskNames[this->decomposedTask[i]]) << ")" << endl;
+			dfile << "     :task (" << cleanTaskNames[this->decomposedTask[i]] << ")" << endl;
 			if (possibleMethodPrecondition >= 0){
 				int preconditionTask = subTasks[i][possibleMethodPrecondition];
 				
 				dfile << "     :precondition (and " << endl;
 				for (int j = 0; j < this->numPrecs[preconditionTask]; j++) {
-					dfile << "         (" << su.cleanStr(this->factStrs[this->precLists[preconditionTask][j]]) << ")" << endl;
+					dfile << "         (" << factNames[this->precLists[preconditionTask][j]] << ")" << endl;
 				}
 				dfile << "     )" << endl;
 			}
@@ -2878,7 +2897,7 @@ newlyReachedMLMs = new noDelIntSet();
 					
 					if (subTasks[i][j] < this->numActions)
 						actionOccurs[subTasks[i][j]] = true;
-					dfile << "        (" << su.cleanStr(taskNames[subTasks[i][j]]) << ")" << endl;
+					dfile << "        (" << cleanTaskNames[subTasks[i][j]] << ")" << endl;
 				}
 				dfile << "     )" << endl;
 
@@ -2896,7 +2915,7 @@ newlyReachedMLMs = new noDelIntSet();
 					}
 					if (subTasks[i][j] < this->numActions)
 						actionOccurs[subTasks[i][j]] = true;
-					dfile << "        (task" << j << " (" << su.cleanStr(taskNames[subTasks[i][j]]) << "))" << endl;
+					dfile << "        (task" << j << " (" << cleanTaskNames[subTasks[i][j]] << "))" << endl;
 				}
 				dfile << "     )" << endl;
 
@@ -2934,22 +2953,22 @@ newlyReachedMLMs = new noDelIntSet();
 
 		for (int i = 0; i < this->numActions; i++) {
 			if (!actionOccurs[i]) continue; // don't output method precondition actions.
-			dfile << "  (:action " << su.cleanStr(this->taskNames[i]) << endl;
+			dfile << "  (:action " << cleanTaskNames[i] << endl;
 			dfile << "     :parameters ()" << endl;
 			if (this->numPrecs[i]) {
 				dfile << "     :precondition (and " << endl;
 				for (int j = 0; j < this->numPrecs[i]; j++) {
-					dfile << "         (" << su.cleanStr(this->factStrs[this->precLists[i][j]]) << ")" << endl;
+					dfile << "         (" << factNames[this->precLists[i][j]] << ")" << endl;
 				}
 				dfile << "     )" << endl;
 			}
 			if (this->numAdds[i] + this->numDels[i]) {
 				dfile << "     :effect (and " << endl;
 				for (int j = 0; j < this->numAdds[i]; j++) {
-					dfile << "         (" << su.cleanStr(this->factStrs[this->addLists[i][j]]) << ")" << endl;
+					dfile << "         (" << factNames[this->addLists[i][j]] << ")" << endl;
 				}
 				for (int j = 0; j < this->numDels[i]; j++) {
-					dfile << "         (not(" << su.cleanStr(this->factStrs[this->delLists[i][j]]) << "))" << endl;
+					dfile << "         (not(" << factNames[this->delLists[i][j]] << "))" << endl;
 				}
 				dfile << "     )" << endl;
 			}
@@ -2968,19 +2987,19 @@ newlyReachedMLMs = new noDelIntSet();
 		if (this->isHtnModel) {
 			pfile << "   (:htn :parameters ()" << endl;
 			pfile << "      :subtasks (and" << endl;
-			pfile << "         (" << su.cleanStr(taskNames[this->initialTask]) << ")" << endl;
+			pfile << "         (" << cleanTaskNames[this->initialTask] << ")" << endl;
 			pfile << "      )" << endl;
 			pfile << "   )" << endl;
 		}
 		pfile << "   (:init" << endl;
 		for (int i = 0; i < this->s0Size; i++) {
-			pfile << "      (" << su.cleanStr(this->factStrs[this->s0List[i]]) << ")" << endl;
+			pfile << "      (" << factNames[this->s0List[i]] << ")" << endl;
 		}
 		pfile << "   )" << endl;
 		if (this->gSize) {
 			pfile << "   (:goal (and" << endl;
 			for (int i = 0; i < this->gSize; i++) {
-				pfile << "      (" << su.cleanStr(this->factStrs[this->gList[i]]) << ")" << endl;
+				pfile << "      (" << factNames[this->gList[i]] << ")" << endl;
 			}
 			pfile << "   ))" << endl;
 		}
-- 
2.43.0


From 6d0f38da0aaaafef29b049a69f95a9473024422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:01 +0000
Subject: [PATCH 46/62] fix: set intersections of noDelIntSet were always empty

---
 src/intDataStructures/noDelIntSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/intDataStructures/noDelIntSet.cpp b/src/intDataStructures/noDelIntSet.cpp
index f4255a2..d55b264 100644
--- a/src/intDataStructures/noDelIntSet.cpp
+++ b/src/intDataStructures/noDelIntSet.cpp
@@ -94,7 +94,7 @@ noDelIntSet* noDelIntSet::setIntersection(noDelIntSet* second) {
 
 	for (int i = lessElements->getFirst(); i >= 0; i =
 			lessElements->getNext()) {
-		if ((moreElements->containerSize <= i) && (moreElements->get(i)))
+		if ((i < moreElements->containerSize) && (moreElements->get(i)))
 			that->insert(i);
 	}
 	return that;
@@ -117,7 +117,7 @@ void noDelIntSet::setIntersection(noDelIntSet* result, noDelIntSet* second) {
 
 	for (int i = lessElements->getFirst(); i >= 0; i =
 			lessElements->getNext()) {
-		if ((moreElements->containerSize <= i) && (moreElements->get(i)))
+		if ((i < moreElements->containerSize) && (moreElements->get(i)))
 			result->insert(i);
 	}
 }
-- 
2.43.0


From 42599746fcee2eb9eb30248b9ce2c3fce9def4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:01 +0000
Subject: [PATCH 47/62] fix: delIterIntSet linked its elements in the wrong
 direction and stopped after deleting the first

---
 src/intDataStructures/delIterIntSet.cpp | 14 ++++++++------
 src/intDataStructures/delIterIntSet.h   |  4 ++--
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/intDataStructures/delIterIntSet.cpp b/src/intDataStructures/delIterIntSet.cpp
index 06e0afa..feeb9cd 100644
--- a/src/intDataStructures/delIterIntSet.cpp
+++ b/src/intDataStructures/delIterIntSet.cpp
@@ -41,14 +41,14 @@ void delIterIntSet::insert(int i) {
 		elem->value = i;
 		if (currentSize == 0) {
 			elem->isFirst = true;
-			elem->isLast = true;
 			this->first = elem;
-			this->last = elem;
 		} else {
-			elem->next = this->last;
-			last->prev = elem;
-			this->last = elem;
+			elem->prev = this->last;
+			this->last->next = elem;
+			this->last->isLast = false;
 		}
+		elem->isLast = true;
+		this->last = elem;
 		currentSize++;
 	}
 }
@@ -100,15 +100,17 @@ int delIterIntSet::delCurrentGetNext() {
 			this->first = nullptr;
 			this->last = nullptr;
 		}
+		this->currentIterElem = this->first;
 		delete elem;
 		currentSize--;
-		return -1;
+		return (currentSize > 0) ? this->currentIterElem->value : -1;
 	} else if (this->currentIterElem->isLast) {
 		boolContainer[this->currentIterElem->value] = false;
 		assert(currentSize > 1); // otherwise the last case would be true
 		llInt* elem = this->currentIterElem;
 		this->currentIterElem->prev->isLast = true;
 		this->last = this->currentIterElem->prev;
+		this->currentIterElem = nullptr;
 		delete elem;
 		currentSize--;
 		return -1;
diff --git a/src/intDataStructures/delIterIntSet.h b/src/intDataStructures/delIterIntSet.h
index c2563d6..5d3fdf7 100644
--- a/src/intDataStructures/delIterIntSet.h
+++ b/src/intDataStructures/delIterIntSet.h
@@ -14,8 +14,8 @@ struct llInt {
 	bool isFirst = false;
 	bool isLast = false;
 	int value;
-	llInt* prev;
-	llInt* next;
+	llInt* prev = nullptr;
+	llInt* next = nullptr;
 };
 
 /*
-- 
2.43.0


From aede6860a13c8da0c03287b90e4d33ba8756b6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:37 +0000
Subject: [PATCH 48/62] fix: iterating over a bucketSet while erasing from it
 ended early

---
 src/intDataStructures/bucketSet.cpp | 2 ++
 src/intDataStructures/bucketSet.h   | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/intDataStructures/bucketSet.cpp b/src/intDataStructures/bucketSet.cpp
index 30af147..93d7272 100644
--- a/src/intDataStructures/bucketSet.cpp
+++ b/src/intDataStructures/bucketSet.cpp
@@ -36,6 +36,8 @@ void bucketSet::erase(int i) {
 	if (container[i] == true) {
 		container[i] = false;
 		currentSize--;
+		if (i < iIter) // the running iteration has passed this element
+			numIterated--;
 	}
 }
 
diff --git a/src/intDataStructures/bucketSet.h b/src/intDataStructures/bucketSet.h
index 78beca3..fdbba38 100644
--- a/src/intDataStructures/bucketSet.h
+++ b/src/intDataStructures/bucketSet.h
@@ -17,8 +17,8 @@ private:
 	int containersize;
 	int currentSize;
 
-	int iIter;
-	int numIterated;
+	int iIter = 0;
+	int numIterated = 0;
 public:
 	bucketSet();
 	virtual ~bucketSet();
-- 
2.43.0


From 32abd2a8adbb57c330f54ac3c766c2fb4f5ace78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:16 +0000
Subject: [PATCH 49/62] fix: compressed trie lost keys when split at the end of
 a word

---
 src/intDataStructures/CompressedSequenceSet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/intDataStructures/CompressedSequenceSet.cpp b/src/intDataStructures/CompressedSequenceSet.cpp
index ed93d09..5835a53 100644
--- a/src/intDataStructures/CompressedSequenceSet.cpp
+++ b/src/intDataStructures/CompressedSequenceSet.cpp
@@ -242,6 +242,10 @@ void compressed_sequence_trie::insert(const vector<uint64_t> & sequence, int pad
 			DEBUG(cout << "\tNew sequence ends within." << endl);
 			block_with_first_difference = sequence.size() - myFirstBlock - 1;
 			splitBit = 64 - paddingBits;
+			if (splitBit == 64) { // the child starts with the next block
+				block_with_first_difference++;
+				splitBit = 0;
+			}
 			// split
 			split_me_at(block_with_first_difference,splitBit);
 			p = &payload;
-- 
2.43.0


From 09fc529882cfcfba5630fcd23c1fda7531f2472f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:41 +0000
Subject: [PATCH 50/62] fix: sequence trie kept bits in a root split at its
 first bit

---
 src/intDataStructures/SequenceSet.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/intDataStructures/SequenceSet.cpp b/src/intDataStructures/SequenceSet.cpp
index 5ace070..579486f 100644
--- a/src/intDataStructures/SequenceSet.cpp
+++ b/src/intDataStructures/SequenceSet.cpp
@@ -148,11 +148,8 @@ void sequence_trie::split_me_at(int bit){
 
 	// curb myself
 	ignoreBitsLast = 64 - bit;
-	if (ignoreBitsLast != 64){
-		value = value & bitmask_ignore_last(ignoreBitsLast);
-	} else {
-		// I might end up with no bits at all (edge cases ...)
-	}
+	// I might end up with no bits at all (edge cases ...)
+	value = value & bitmask_ignore_last(ignoreBitsLast);
 	
 	//print_tree(0);
 	TEST(check_integrity());
-- 
2.43.0


From fad257ebc27700b33fe4989365285fb3722e0c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:25 +0000
Subject: [PATCH 51/62] fix: DDDMP auxiliary ids were matched with the wrong
 variables of the manager

---
 src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c
index d00502e..d9af42e 100644
--- a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -761,8 +761,10 @@ DddmpCuddDdArrayLoad (
         invauxids[i] = -1;
       }
 
-      for (i=0; i<Hdr->nsuppvars; i++) {
-        invauxids[varmatchauxids[Hdr->ids[i]]] = Hdr->ids[i];
+      for (i=0; i<nddvars; i++) {
+        if (varmatchauxids[i]>=0) {
+          invauxids[varmatchauxids[i]] = i;
+        }
       }
 
       /* generate convertids array */
-- 
2.43.0


From e4fcc53ca46c653970a478d1f8493f6675b418ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:37 +0000
Subject: [PATCH 52/62] fix: DDDMP roots matched by name were returned in the
 order of the file

---
 src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c
index d9af42e..996dfea 100644
--- a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -1131,7 +1131,8 @@ DddmpCuddDdArrayLoad (
     switch (rootMatchMode) {
       case DDDMP_ROOT_MATCHNAMES:
         for (j=0; j<nRoots; j++) {
-          if (strcmp(rootmatchnames[i], Hdr->rootnames[j]) == 0)
+          if (Hdr->rootnames != NULL &&
+            strcmp(rootmatchnames[i], Hdr->rootnames[j]) == 0)
             break;
         }
         if (j>=nRoots) {
@@ -1145,7 +1146,7 @@ DddmpCuddDdArrayLoad (
         break;
     }
 
-    id = Hdr->rootids[i];
+    id = (j<nRoots) ? Hdr->rootids[j] : 0;
     if (id==0) {
       (void) fprintf (stderr, "DdLoad Warning: NULL root found in file\n");
       fflush (stderr);
@@ -1159,7 +1160,9 @@ DddmpCuddDdArrayLoad (
     }
     proots[i] = f;
 
-    cuddRef (f);
+    if (f != NULL) {
+      cuddRef (f);
+    }
   } /* end for i = 0..nRoots */
 
   /*
-- 
2.43.0


From 7d87d5322c47b1e7edd6fb3a72ce29b82e1497f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:46 +0000
Subject: [PATCH 53/62] fix: DDDMP stored ADD constants with six digits only

---
 src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreAdd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreAdd.c b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreAdd.c
index b304a88..0670b21 100644
--- a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreAdd.c
+++ b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreAdd.c
@@ -891,9 +891,9 @@ NodeTextStoreAdd (
      */
 
     if ((varnames != NULL) || (outids != NULL)) {
-      retValue = fprintf (fp, "%d T %g 0 0\n",idf,Cudd_V(f));
+      retValue = fprintf (fp, "%d T %.17g 0 0\n",idf,Cudd_V(f));
     } else {
-      retValue = fprintf (fp, "%d %g 0 0\n",idf, Cudd_V(f));
+      retValue = fprintf (fp, "%d %.17g 0 0\n",idf, Cudd_V(f));
     }
 
     if (retValue == EOF) {
-- 
2.43.0


From e787c9187638583607c7f0dfb23c642e89e2f802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:53 +0000
Subject: [PATCH 54/62] fix: DDDMP loaded ADDs whose projection functions had
 lost their references

---
 src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c
index 996dfea..6ab8d7e 100644
--- a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -1098,7 +1098,10 @@ DddmpCuddDdArrayLoad (
         DdNode *tmp = Cudd_addIthVar (ddMgr, var);
         Cudd_Ref (tmp);
         pnodes[i] = Cudd_addIte (ddMgr, tmp, T, E);
+        /* the result can be tmp itself */
+        cuddRef (pnodes[i]);
         Cudd_RecursiveDeref (ddMgr, tmp);
+        cuddDeref (pnodes[i]);
         break;
         }
       case DDDMP_CNF:
-- 
2.43.0


From 9a3aa4ee45a47cad1905ce46e27e46e74ea79b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:54 +0000
Subject: [PATCH 55/62] fix: DDDMP took a reference from the constant one with
 each binary file

---
 src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c
index 6ab8d7e..75415fc 100644
--- a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c
+++ b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoad.c
@@ -966,6 +966,7 @@ DddmpCuddDdArrayLoad (
         case DDDMP_TERMINAL:     
           /* only 1 terminal presently supported */    
           pnodes[i] = Cudd_ReadOne (ddMgr);       
+          Cudd_Ref (pnodes[i]);       
           continue; 
           break;
         case DDDMP_RELATIVE_1:
-- 
2.43.0


From bdaf7afe6adc8a7350a66f140dd8eddab1fb00de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:41 +0000
Subject: [PATCH 56/62] fix: storing diagrams on file lost constants from the
 unique table

---
 .../cudd-3.0.0/dddmp/dddmpInt.h               |  2 +
 .../cudd-3.0.0/dddmp/dddmpNodeAdd.c           |  6 +-
 .../cudd-3.0.0/dddmp/dddmpNodeBdd.c           |  6 +-
 .../cudd-3.0.0/dddmp/dddmpNodeCnf.c           |  3 +
 .../cudd-3.0.0/dddmp/dddmpUtil.c              | 97 +++++++++++++++++++
 5 files changed, 110 insertions(+), 4 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpInt.h b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpInt.h
index 94190b6..8fbd08e 100644
--- a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpInt.h
+++ b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpInt.h
@@ -196,6 +196,8 @@ extern void DddmpSetVisitedCnf(DdNode *f);
 extern int DddmpReadNodeIndexCnf(DdNode *f);
 extern int DddmpCuddDdArrayStoreBdd(Dddmp_DecompType ddType, DdManager *ddMgr, char *ddname, int nRoots, DdNode **f, char **rootnames, char **varnames, int *auxids, int mode, Dddmp_VarInfoType varinfo, char *fname, FILE *fp);
 extern int DddmpCuddBddArrayStore(Dddmp_DecompType ddType, DdManager *ddMgr, char *ddname, int nRoots, DdNode **f, char **rootnames, char **varnames, int *auxids, int mode, Dddmp_VarInfoType varinfo, char *fname, FILE *fp);
+extern void DddmpRemoveConstant(DdManager *ddMgr, DdNode *f);
+extern void DddmpRestoreConstant(DdManager *ddMgr, DdNode *f);
 extern int QsortStrcmp(const void *ps1, const void *ps2);
 extern int FindVarname(char *name, char **array, int n);
 extern char *DddmpStrDup(char *str);
diff --git a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpNodeAdd.c b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpNodeAdd.c
index 5185c57..e3612d9 100644
--- a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpNodeAdd.c
+++ b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpNodeAdd.c
@@ -361,6 +361,8 @@ RemoveFromUniqueRecurAdd (
 
     f->next = NULL;
 
+  } else {
+    DddmpRemoveConstant (ddMgr, f);
   }
 
   DddmpSetVisitedAdd (f);
@@ -404,9 +406,9 @@ RestoreInUniqueRecurAdd (
 
   if (cuddIsConstant (f)) {
     /* StQ 11.02.2004:
-       Bug fixed --> restore NULL within the next field */
+       Bug fixed --> restore the next field */
     /*DddmpClearVisitedAdd (f);*/
-    f->next = NULL;
+    DddmpRestoreConstant (ddMgr, f);
 
     return;
   }
diff --git a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpNodeBdd.c b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpNodeBdd.c
index 8699a91..03a5203 100644
--- a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpNodeBdd.c
+++ b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpNodeBdd.c
@@ -362,6 +362,8 @@ RemoveFromUniqueRecurBdd (
 
     f->next = NULL;
 
+  } else {
+    DddmpRemoveConstant (ddMgr, f);
   }
 
   DddmpSetVisitedBdd (f);
@@ -405,9 +407,9 @@ RestoreInUniqueRecurBdd (
 
   if (cuddIsConstant (f)) {
     /* StQ 11.02.2004:
-       Bug fixed --> restore NULL within the next field */
+       Bug fixed --> restore the next field */
     /*DddmpClearVisitedBdd (f);*/   
-    f->next = NULL;
+    DddmpRestoreConstant (ddMgr, f);
 
     return;
   }
diff --git a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpNodeCnf.c b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpNodeCnf.c
index 1aacadc..904b261 100644
--- a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpNodeCnf.c
+++ b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpNodeCnf.c
@@ -106,6 +106,7 @@ DddmpNumberDdNodesCnf (
 {
   int i;
 
+  DddmpRemoveConstant (ddMgr, DD_ONE(ddMgr));
   for (i=0; i<rootN; i++) {
     RemoveFromUniqueRecurCnf (ddMgr, f[i]);
   }
@@ -148,6 +149,7 @@ DddmpDdNodesCountEdgesAndNumber (
 
   /*-------------------------- Remove From Unique ---------------------------*/
 
+  DddmpRemoveConstant (ddMgr, DD_ONE(ddMgr));
   for (i=0; i<rootN; i++) {
     RemoveFromUniqueRecurCnf (ddMgr, f[i]);
   }
@@ -251,6 +253,7 @@ DddmpUnnumberDdNodesCnf(
   for (i=0; i<rootN; i++) {
     RestoreInUniqueRecurCnf (ddMgr, f[i]);
   }
+  DddmpRestoreConstant (ddMgr, DD_ONE(ddMgr));
 
   return;
 }
diff --git a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpUtil.c b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpUtil.c
index feff439..9ff1a70 100644
--- a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpUtil.c
+++ b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpUtil.c
@@ -430,6 +430,103 @@ DddmpIntArrayWrite (
   return (n);
 }
 
+/**Function********************************************************************
+
+  Synopsis    [Finds the collision list of a constant in the unique table]
+
+  SideEffects [None]
+
+  SeeAlso     [cuddUniqueConst ()]
+
+******************************************************************************/
+
+static DdNodePtr *
+ConstantList (
+  DdManager *ddMgr  /* IN: DD Manager */,
+  DdNode *f         /* IN: constant node */
+  )
+{
+  union {
+    CUDD_VALUE_TYPE value;
+    unsigned int bits[2];
+  } split;
+
+  split.value = cuddV (f);
+
+  return (&(ddMgr->constants.nodelist[ddHash (split.bits[0], split.bits[1],
+    ddMgr->constants.shift)]));
+}
+
+/**Function********************************************************************
+
+  Synopsis    [Removes a constant from the unique table]
+
+  Description [Removes a constant from the unique table, so that its next
+    field can be used. DddmpRestoreConstant must follow.]
+
+  SideEffects [The next field is NULL afterwards.]
+
+  SeeAlso     [DddmpRestoreConstant ()]
+
+******************************************************************************/
+
+void
+DddmpRemoveConstant (
+  DdManager *ddMgr  /* IN: DD Manager */,
+  DdNode *f         /* IN: constant node */
+  )
+{
+  DdNodePtr *previousP;
+
+  for (previousP = ConstantList (ddMgr, f); *previousP != NULL;
+       previousP = &((*previousP)->next)) {
+    if (*previousP == f) {
+      *previousP = f->next;
+      break;
+    }
+  }
+
+  f->next = NULL;
+
+  return;
+}
+
+/**Function********************************************************************
+
+  Synopsis    [Puts a constant back into the unique table]
+
+  Description [Puts a constant back into the unique table, unless it is
+    there.]
+
+  SideEffects [None]
+
+  SeeAlso     [DddmpRemoveConstant ()]
+
+******************************************************************************/
+
+void
+DddmpRestoreConstant (
+  DdManager *ddMgr  /* IN: DD Manager */,
+  DdNode *f         /* IN: constant node */
+  )
+{
+  DdNodePtr *list;
+  DdNode *node;
+
+  list = ConstantList (ddMgr, f);
+
+  for (node = *list; node != NULL; node = node->next) {
+    if (node == f) {
+      return;
+    }
+  }
+
+  f->next = *list;
+  *list = f;
+
+  return;
+}
+
 /*---------------------------------------------------------------------------*/
 /* Definition of static functions                                            */
 /*---------------------------------------------------------------------------*/
-- 
2.43.0


From 47c13c9b63b5d98e42af0dafcf43d532ec3f12d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:41 +0000
Subject: [PATCH 57/62] fix: DDDMP counted shared support variables twice in
 CNF headers

---
 src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreCnf.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreCnf.c b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreCnf.c
index 0806da0..7661e6f 100644
--- a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreCnf.c
+++ b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreCnf.c
@@ -378,7 +378,9 @@ DddmpCuddBddArrayStoreCnf (
     scan = support;
     while (!cuddIsConstant(scan)) {
       /* Count Number of Variable in the Support */
-      nVarInSupport++;
+      if (bddIdsInSupport[scan->index] < 0) {
+        nVarInSupport++;
+      }
       /* Set Ids and Perm-Ids */
       bddIdsInSupport[scan->index] = scan->index;
       permIdsInSupport[scan->index] = ddMgr->perm[scan->index];
-- 
2.43.0


From 3a6d194f2df2129107002c3600aef071ab548fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:41 +0000
Subject: [PATCH 58/62] fix: DDDMP loaded roots from CNF with the next root's
 first clause and without references

---
 src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoadCnf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoadCnf.c b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoadCnf.c
index 3642b8c..cfabbf9 100644
--- a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoadCnf.c
+++ b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpLoadCnf.c
@@ -984,7 +984,7 @@ DddmpCnfClauses2Bdd (
       toLine = Hdr->nClausesCnf;
     } else {
       fromLine = Hdr->rootids[i] - 1;
-      toLine = Hdr->rootids[i+1];
+      toLine = Hdr->rootids[i+1] - 1;
     }
 
     tmp1 = Cudd_ReadOne (ddMgr);
@@ -1035,6 +1035,7 @@ DddmpCnfClauses2Bdd (
 #endif
 
     tmp1 = Cudd_bddExistAbstract (ddMgr, rootsPtr[i], cubeCnfVar);
+    Cudd_Ref (tmp1);
     Cudd_RecursiveDeref (ddMgr, rootsPtr[i]);
     rootsPtr[i] = tmp1;
 
-- 
2.43.0


From c24a7a5067ff2398e8af0cff94b44cf0f9cdb528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:44 +0000
Subject: [PATCH 59/62] fix: DDDMP confused the CNF variable 1 with the
 terminal when storing node by node

---
 .../cudd-3.0.0/dddmp/dddmpStoreCnf.c               | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreCnf.c b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreCnf.c
index 7661e6f..f03691b 100644
--- a/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreCnf.c
+++ b/src/symbolic_search/cudd-3.0.0/dddmp/dddmpStoreCnf.c
@@ -970,19 +970,23 @@ StoreCnfOneNode (
   )
 {
   int retValue = 0;
-  int idfAbs, idTAbs, idEAbs;
+  int idfAbs, idTAbs, idEAbs, Tconst, Econst;
 
   idfAbs = abs (idf);
   idTAbs = abs (idT);
   idEAbs = abs (idE);
 
+  /* the index 1 can be that of the terminal or of a variable */
+  Tconst = Cudd_IsConstant (cuddT (f));
+  Econst = Cudd_IsConstant (cuddE (f));
+
   /*----------------------------- Check for Constant ------------------------*/
 
   assert(!Cudd_IsConstant(f));
 
   /*------------------------- Check for terminal nodes ----------------------*/
 
-  if ((idTAbs==1) && (idEAbs==1)) { 
+  if (Tconst && Econst) { 
     return (1);
   }
 
@@ -997,7 +1001,7 @@ StoreCnfOneNode (
    *  Then to terminal
    */
 
-  if ((idTAbs==1) && (idEAbs!=1)) {
+  if (Tconst && !Econst) {
 #if DDDMP_DEBUG_CNF
     retValue = fprintf (fp, "CASE 1 -->\n");
 #endif
@@ -1018,7 +1022,7 @@ StoreCnfOneNode (
    *  Else to terminal
    */
 
-  if ((idTAbs!=1) && (idEAbs==1)) {
+  if (!Tconst && Econst) {
     if (idE == 1) {
 #if DDDMP_DEBUG_CNF
       retValue = fprintf (fp, "CASE 2 -->\n");
@@ -1052,7 +1056,7 @@ StoreCnfOneNode (
    *  Nor Then or Else to terminal
    */
 
-  if ((idTAbs!=1) && (idEAbs!=1)) {
+  if (!Tconst && !Econst) {
 #if DDDMP_DEBUG_CNF
     retValue = fprintf (fp, "CASE 4 -->\n");
 #endif
-- 
2.43.0


From 9d75ca479f817409c04687fd49b4a98a4c9159d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:48 +0000
Subject: [PATCH 60/62] fix: Cudd_EqualSupNorm answers from the cache for the
 tolerance that was asked for

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h |  1 +
 src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c | 30 ++++++++++++-------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h b/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
index 1032430..6ddf7dd 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
@@ -157,6 +157,7 @@
 #define DD_BDD_MAX_EXP_TAG                      0x8a
 #define DD_VARS_SYMM_BEFORE_TAG                 0x8e
 #define DD_VARS_SYMM_BETWEEN_TAG                0xa2
+#define DD_EQUAL_SUP_NORM_TAG                   0xa6
 
 /* Generator constants. */
 #define CUDD_GEN_CUBES 0
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c
index 7080fb1..b1d3faa 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddSat.c
@@ -770,8 +770,8 @@ Cudd_EqualSupNorm(
   CUDD_VALUE_TYPE  tolerance /**< maximum allowed difference */,
   int  pr /**< verbosity level */)
 {
-    DdNode *fv, *fvn, *gv, *gvn, *r;
-    int topf, topg;
+    DdNode *fv, *fvn, *gv, *gvn, *r, *tol;
+    int topf, topg, eq;
 
     statLine(dd);
     /* Check terminal cases. */
@@ -794,10 +794,16 @@ Cudd_EqualSupNorm(
     }
 
     /* We only insert the result in the cache if the comparison is
-    ** successful. Therefore, if we hit we return 1. */
-    r = cuddCacheLookup2(dd,(DD_CTFP)Cudd_EqualSupNorm,f,g);
-    if (r != NULL) {
-	return(1);
+    ** successful. Therefore, if we hit we return 1.  The result depends
+    ** on the tolerance, which is therefore part of the key. */
+    tol = Cudd_addConst(dd,tolerance);
+    if (tol != NULL) {
+	cuddRef(tol);
+	r = cuddCacheLookup(dd,DD_EQUAL_SUP_NORM_TAG,f,g,tol);
+	if (r != NULL) {
+	    Cudd_RecursiveDeref(dd,tol);
+	    return(1);
+	}
     }
 
     /* Compute the cofactors and solve the recursive subproblems. */
@@ -807,12 +813,16 @@ Cudd_EqualSupNorm(
     if (topf <= topg) {fv = cuddT(f); fvn = cuddE(f);} else {fv = fvn = f;}
     if (topg <= topf) {gv = cuddT(g); gvn = cuddE(g);} else {gv = gvn = g;}
 
-    if (!Cudd_EqualSupNorm(dd,fv,gv,tolerance,pr)) return(0);
-    if (!Cudd_EqualSupNorm(dd,fvn,gvn,tolerance,pr)) return(0);
+    eq = Cudd_EqualSupNorm(dd,fv,gv,tolerance,pr) &&
+	Cudd_EqualSupNorm(dd,fvn,gvn,tolerance,pr);
 
-    cuddCacheInsert2(dd,(DD_CTFP)Cudd_EqualSupNorm,f,g,DD_ONE(dd));
+    if (tol != NULL) {
+	if (eq)
+	    cuddCacheInsert(dd,DD_EQUAL_SUP_NORM_TAG,f,g,tol,DD_ONE(dd));
+	Cudd_RecursiveDeref(dd,tol);
+    }
 
-    return(1);
+    return(eq);
 
 } /* end of Cudd_EqualSupNorm */
 
-- 
2.43.0


From 5ae5482c2941dd0a4173b99e93d0a9cf300b392f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:55 +0000
Subject: [PATCH 61/62] fix: symmetric sifting of ZDDs starts its second phase
 at the top of the group it has formed

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c
index 3ebdd0e..5a22921 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddZddSymm.c
@@ -625,8 +625,11 @@ cuddZddSymmSiftingAux(
 	       pass */
             if (move_down != NULL)
 		x = move_down->y;
-	    else
+	    else {
+		while ((unsigned) x < table->subtableZ[x].next)
+		    x = table->subtableZ[x].next;
 		x = table->subtableZ[x].next;
+	    }
 	    i = x;
 	    while ((unsigned) i < table->subtableZ[i].next) {
 		i = table->subtableZ[i].next;
@@ -723,6 +726,8 @@ cuddZddSymmSiftingAux(
 	    x = move_down->y;
 	}
 	else {
+	    while ((unsigned) x < table->subtableZ[x].next)
+		x = table->subtableZ[x].next;
 	    x = table->subtableZ[x].next;
 	}
 	i = x;
@@ -810,6 +815,8 @@ cuddZddSymmSiftingAux(
 		x = move_down->y;
 	    }
 	    else {
+		while ((unsigned) x < table->subtableZ[x].next)
+		    x = table->subtableZ[x].next;
 		x = table->subtableZ[x].next;
 	    }
 	    i = x;
-- 
2.43.0


From 36d8a8b017e0b5d582e68708db94b1dfe09c5420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:29 +0000
Subject: [PATCH 62/62] fix: matrix multiplication of ADDs keeps results for
 different summation variables apart

---
 src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h |  1 +
 .../cudd-3.0.0/cudd/cuddMatMult.c             | 32 ++++++++++++-------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h b/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
index 6ddf7dd..059bbab 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddInt.h
@@ -158,6 +158,7 @@
 #define DD_VARS_SYMM_BEFORE_TAG                 0x8e
 #define DD_VARS_SYMM_BETWEEN_TAG                0xa2
 #define DD_EQUAL_SUP_NORM_TAG                   0xa6
+#define DD_ADD_MATRIX_MULTIPLY_TAG              0xaa
 
 /* Generator constants. */
 #define CUDD_GEN_CUBES 0
diff --git a/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c b/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c
index e779a80..67384ca 100644
--- a/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c
+++ b/src/symbolic_search/cudd-3.0.0/cudd/cuddMatMult.c
@@ -77,7 +77,7 @@
 /* Static function prototypes                                                */
 /*---------------------------------------------------------------------------*/
 
-static DdNode * addMMRecur (DdManager *dd, DdNode *A, DdNode *B, int topP, int *vars);
+static DdNode * addMMRecur (DdManager *dd, DdNode *A, DdNode *B, int topP, int *vars, DdNode *cube);
 static DdNode * addTriangleRecur (DdManager *dd, DdNode *f, DdNode *g, int *vars, DdNode *cube);
 static DdNode * cuddAddOuterSumRecur (DdManager *dd, DdNode *M, DdNode *r, DdNode *c);
 
@@ -115,7 +115,7 @@ Cudd_addMatrixMultiply(
   int  nz)
 {
     int i, nvars, *vars;
-    DdNode *res; 
+    DdNode *res, *cube;
 
     /* Array vars says what variables are "summation" variables. */
     nvars = dd->size;
@@ -131,10 +131,22 @@ Cudd_addMatrixMultiply(
         vars[z[i]->index] = 1;
     }
 
+    /* The result depends on the summation variables; their cube is part
+    ** of the key in the computed table. */
+    cube = Cudd_addComputeCube(dd,z,NULL,nz);
+    if (cube == NULL) {
+	FREE(vars);
+	return(NULL);
+    }
+    cuddRef(cube);
+
     do {
 	dd->reordered = 0;
-	res = addMMRecur(dd,A,B,-1,vars);
+	res = addMMRecur(dd,A,B,-1,vars,cube);
     } while (dd->reordered == 1);
+    if (res != NULL) cuddRef(res);
+    Cudd_RecursiveDeref(dd,cube);
+    if (res != NULL) cuddDeref(res);
     FREE(vars);
     if (dd->errorCode == CUDD_TIMEOUT_EXPIRED && dd->timeoutHandler) {
         dd->timeoutHandler(dd, dd->tohArg);
@@ -318,7 +330,8 @@ addMMRecur(
   DdNode * A,
   DdNode * B,
   int  topP,
-  int * vars)
+  int * vars,
+  DdNode * cube)
 {
     DdNode *zero,
            *At,		/* positive cofactor of first operand */
@@ -335,8 +348,6 @@ addMMRecur(
     int index;		/* index of the top variable */
     CUDD_VALUE_TYPE value;
     int topA, topB, topV;
-    DD_CTFP cacheOp;
-
     statLine(dd);
     zero = DD_ZERO(dd);
 
@@ -376,8 +387,7 @@ addMMRecur(
     topA = cuddI(dd,A->index); topB = cuddI(dd,B->index);
     topV = ddMin(topA,topB);
 
-    cacheOp = (DD_CTFP) addMMRecur;
-    res = cuddCacheLookup2(dd,cacheOp,A,B);
+    res = cuddCacheLookup(dd,DD_ADD_MATRIX_MULTIPLY_TAG,A,B,cube);
     if (res != NULL) {
 	/* If the result is 0, there is no need to normalize.
 	** Otherwise we count the number of z variables between
@@ -433,10 +443,10 @@ addMMRecur(
 	Bt = Be = B;
     }
 
-    t = addMMRecur(dd, At, Bt, (int)topV, vars);
+    t = addMMRecur(dd, At, Bt, (int)topV, vars, cube);
     if (t == NULL) return(NULL);
     cuddRef(t);
-    e = addMMRecur(dd, Ae, Be, (int)topV, vars);
+    e = addMMRecur(dd, Ae, Be, (int)topV, vars, cube);
     if (e == NULL) {
 	Cudd_RecursiveDeref(dd, t);
 	return(NULL);
@@ -473,7 +483,7 @@ addMMRecur(
 	Cudd_RecursiveDeref(dd, e);
     }
 
-    cuddCacheInsert2(dd,cacheOp,A,B,res);
+    cuddCacheInsert(dd,DD_ADD_MATRIX_MULTIPLY_TAG,A,B,cube,res);
 
     /* We have computed (and stored in the computed table) a minimal
     ** result; that is, a result that assumes no summation variables
-- 
2.43.0

